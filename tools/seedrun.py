"""Development helper: apply planted bugs to /repo one at a time and report whether the property's quick check catches them."""
import json, os, subprocess, sys
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    assert subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True).stdout == b''
    try:
        subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        r = subprocess.run(['python3', '/verif/tools/check.py', p], cwd='/verif', capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    lines = r.stdout.strip().split('\n')
    print(i, p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout else 'MISSED rc=%d' % r.returncode, '|', lines[0][:160], flush=True)
