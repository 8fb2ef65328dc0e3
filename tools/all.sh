cd /verif; for i in $(seq -w 1 26); do python3 check.py C$i "$@" | grep -v "^KNOWN" | head -4; done
