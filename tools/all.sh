cd /verif
for p in ${@:-P01 P02 P03 P04 P05 P06 P07 P09 P10 P13 P14 P15 P16 P17 P18 P19}; do s=$(date +%s); python3-vt check.py $p > /tmp/chk.$p 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(grep -v ^/repo /tmp/chk.$p | tail -1)"; done
