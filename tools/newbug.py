#!/usr/bin/env python3
"""tools/newbug.py FILE: FILE is Python defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python text using h.py)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    d = f'{V}/seeded/{ID}'; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    out = ''
    files = {}
    for p, o, n in EDITS:
        s = files.get(p) or open('/repo/' + p).read()
        assert s.count(o) == 1, (ID, p, s.count(o), o)
        files[p] = s.replace(o, n)
    for p, s in files.items():
        q = f'{t}/new'; open(q, 'w').write(s)
        r = subprocess.run(['git', 'diff', '--no-index', '/repo/' + p, q], capture_output=True, text=True).stdout
        r = r.replace('a/repo/' + p, 'a/' + p).replace('b' + q, 'b/' + p)
        out += r
    open(d + '/patch.diff', 'w').write(out)
    json.dump(dict(property=PROPERTY, needs=NEEDS, what_it_breaks=BREAKS), open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(V + '/tools/demo/h.py', d + '/h.py')
    open(d + '/demo.py', 'w').write('from h import *\n' + DEMO.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
    shutil.rmtree(t)
    return ID
if __name__ == '__main__':
    ns = {'make': lambda **k: print(make(**k))}
    exec(open(sys.argv[1]).read(), ns)
