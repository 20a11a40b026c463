"""append 'fixed' entries: kf.py PROP COMMIT-SUBJECT-SUBSTRING WHAT"""
import json, subprocess, sys
prop, sub, what = sys.argv[1:4]
for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if sub in s and s.startswith('fix:'):
        open('/verif/known-findings.jsonl', 'a').write(json.dumps(dict(status='fixed', property=prop, commit=h, what=what)) + '\n')
        break
else:
    sys.exit('no such commit')
