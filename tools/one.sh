cd /verif; timeout ${T:-300} python3 sa/run.py --property $1 --tier quick -v 2>&1 | grep -iE "fail|VIOL|unknown|undecided|obligations|Error|Trace|File" | cut -c1-${C:-330} | tail -${N:-25}
