import sys
# usage: addcheck.py 'python dict entry lines' -- appends to CHECKS
s=open('/verif/checks_table.py').read().rstrip(); assert s.endswith('}')
open('/verif/checks_table.py','w').write(s[:-1]+sys.stdin.read().rstrip()+'\n}\n')
