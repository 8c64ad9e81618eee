cd /tmp/vf; for i in $*; do s=$(date +%s); timeout 1500 python3 check.py C$i --tier thorough > /tmp/w/t.C$i 2>&1; echo "C$i rc $? $(( $(date +%s)-s ))s" >> /tmp/w/t.all; done
