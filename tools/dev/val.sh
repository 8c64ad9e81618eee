# val.sh FILE: validate traces with TLC
cd /verif/spec; S=$(date +%s); rm -rf /tmp/w/md1
TRACE=$1 java -XX:+UseParallelGC -Xmx10g -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 8 -metadir /tmp/w/md1 -config FastPathsTrace.cfg FastPathsTrace.tla > /tmp/w/one.o 2>&1
echo "$1 $(wc -l < $1) accepted $(grep -c ACCEPT /tmp/w/one.o) time $(( $(date +%s)-S ))s $(grep -m2 Error /tmp/w/one.o)"
