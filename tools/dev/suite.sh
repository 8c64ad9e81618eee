# suite.sh NN FILTER: generate suite, filter ids by regex, run, validate
i=$1; f=$2
B=/tmp/w/tgt/release/fpv
FPV_SCALE=1 $B gen C$i ${SEED:-1} quick /tmp/w/s$i.all && grep -E "\"id\":\"$f" /tmp/w/s$i.all > /tmp/w/s$i.s
rm -rf /tmp/w/d$i; mkdir -p /tmp/w/d$i; S=$(date +%s); $B run /tmp/w/s$i.s /tmp/w/s$i.t /tmp/w/d$i 8 150 || echo fail; echo run $(( $(date +%s)-S ))s
t=$(wc -l < /tmp/w/s$i.t); cd /verif/spec; S=$(date +%s)
 TRACE=/tmp/w/s$i.t java -XX:+UseParallelGC -Xmx10g -Xss16m -Djava.io.tmpdir=/tmp/w/d$i -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 8 -metadir /tmp/w/md$i -config FastPathsTrace.cfg FastPathsTrace.tla > /tmp/w/s$i.o 2>&1
 echo "C$i traces $t accepted $(grep -c ACCEPT /tmp/w/s$i.o) size $(du -h /tmp/w/s$i.t|cut -f1) time $(( $(date +%s)-S ))s $(grep -m2 Error /tmp/w/s$i.o)"
