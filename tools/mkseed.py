#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], DEMO (rust test module), CRATE"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = dict(CRATE='symbolic_regression')
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, 'seeded', g['ID'])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='seed')
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
for e in g['EDITS']:
    p = os.path.join(w, 'r', e[0])
    s = open(p).read()
    n = e[3] if len(e) > 3 else 1
    assert s.count(e[1]) == n, (e[0], e[1], s.count(e[1]))
    open(p, 'w').write(s.replace(e[1], e[2]))
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
shutil.rmtree(w)
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
if 'DEMO' in g:
    open(d + '/demo.rs', 'w').write(g['DEMO'])
    t = open(os.path.join(V, 'tools', 'demo_template.sh')).read().replace('CRATE=symbolic_regression', 'CRATE=' + g['CRATE'])
    open(d + '/demo.sh', 'w').write(t)
