"""python3 tools/addfixed.py C34 <commit> [<what failed>]: records a repair in known-findings.json"""
import json, subprocess, sys
p = '/verif/known-findings.json'
k = json.load(open(p))
c = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', sys.argv[2]], text=True).strip()
h, s = c.split(' ', 1)
k['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[3] if len(sys.argv) > 3 else s.replace('fix: ', '')))
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
