cd /verif; for i in $*; do s=$(date +%s); timeout 900 python3 check.py C$i ${T:---tier=quick} > /tmp/w/q.C$i 2>&1; echo "C$i rc $? $(( $(date +%s)-s ))s"; grep -E "VIOL|ERROR|KNOWN|rror" /tmp/w/q.C$i | head -5; done
