"""mkseed.py NAME PROPERTY NEEDS BREAKS < spec ; spec = python: list of (file, old, new) in EDITS, DEMO text, EXP text or None (taken from the unchanged build)"""
import sys, os, subprocess, json, glob
def mkseed(name, prop, needs, breaks, edits, demo, args='', sh=None):
    d = '/verif/seeded/' + name
    os.makedirs(d, exist_ok=True)
    wt = '/tmp/seedwt'
    subprocess.run(['rm', '-rf', wt]); subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    for f, o, n in edits:
        p = wt + '/' + f; s = open(p, encoding='utf8', errors='surrogateescape', newline='').read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, 'w', encoding='utf8', errors='surrogateescape', newline='').write(s.replace(o, n))
    t = subprocess.run(['git', 'diff'], cwd=wt, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(t)
    subprocess.run(['rm', '-rf', wt])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if sh is None:
        open(d + '/demo.jsi', 'w').write(demo)
        exe = glob.glob('/repo/_build/copy-of-*/jsish')[0]
        import tempfile; out = subprocess.run([exe, d + '/demo.jsi'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=tempfile.mkdtemp()).stdout
        open(d + '/demo.exp', 'wb').write(out)
        print(name, 'unchanged output:', out[:300])
        sh = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
J=$(echo "$PWD"/_build/copy-of-*/jsish)
T=$(mktemp -d) || exit 2
cd "$T" || exit 2
timeout 60 "$J" "$H/demo.jsi" > "$T/out" 2>/dev/null
diff "$H/demo.exp" "$T/out"
R=$?
cd / ; rm -rf "$T"
exit $R
'''
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
