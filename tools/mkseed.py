#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (main.rs text)."""
import sys, os, subprocess, json, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
specs = ns['SPECS'] if 'SPECS' in ns else [ns]
for n in specs:
    T = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', T + '/r'])
        for f, o, w in n['EDITS']:
            p = T + '/r/' + f
            s = open(p).read()
            assert s.count(o) >= 1, (n['ID'], f, s.count(o), o)
            open(p, 'w').write(s.replace(o, w, 1))
        d = subprocess.check_output(['git', '-C', T + '/r', 'diff'], text=True)
    finally:
        shutil.rmtree(T)
    D = H + '/seeded/' + n['ID']
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(d)
    open(D + '/main.rs', 'w').write(n['DEMO'])
    shutil.copy(H + '/tools/demo/demo.sh', D + '/demo.sh')
    json.dump({'property': n['PROP'], 'needs': n['NEEDS'], 'what_it_breaks': n['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
