# run the named checks (default: all claimed), print result and time of each
cd /verif; for p in ${*:-$(python3 -c "import props;print(*props.PROPS)")}; do s=$(date +%s); python3 check.py $p > /tmp/chk.$p 2>&1; rc=$?; echo "$p rc=$rc $(( $(date +%s)-s ))s $(tail -1 /tmp/chk.$p | cut -c1-160)"; [ $rc = 0 ] || grep "PROBLEM\|VIOL\|NO ANS" /tmp/chk.$p | cut -c1-300 | head -6; done
