"""mkseed.py ID PROP 'needs' 'breaks' FILE  (old and new text separated by a line '=====' on stdin, several with '#####')"""
import json, os, subprocess, sys, tempfile, shutil
i, prop, needs, breaks, f = sys.argv[1:6]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '/repo', t])
text = sys.stdin.read()
for part in text.split('#####\n'):
    fn = f
    if part.startswith('@'):
        fn, part = part[1:].split('\n', 1)
    old, new = part.split('=====\n')
    p = os.path.join(t, fn)
    s = open(p).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', '-C', t, 'diff']).decode()
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(t)
print(diff)
