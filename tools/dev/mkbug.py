"""mkbug(id, prop, file, old, new, demo, needs, breaks, flags): writes seeded/<id>/ (patch.diff against /repo's working tree)."""
import os, json, difflib, subprocess
S = '/verif/seeded'


def mkbug(id, prop, file, edits, demo, needs, breaks, flags=''):
    if isinstance(edits, tuple): edits = [edits]
    if isinstance(edits[0][0], str) and len(edits[0]) == 2: edits = [(file, a, b) for a, b in edits]
    files = {}
    for f, a, b in edits:
        p = '/repo/include/sim_ds/' + f
        s = files.get(f) or open(p, newline='').read()
        if a not in s and a.replace('\n', '\r\n') in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        assert s.count(a) == 1, (id, f, s.count(a), a)
        ln = s[:s.index(a)].count('\n') + 1; n = a.count('\n') + 1
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (ln, ln + n - 1), 'include/sim_ds/' + f], capture_output=True, text=True).stdout
        if not all(l.startswith('^5e9f7a9') for l in bl.splitlines()): print(id, 'touches fixed lines:\n' + bl)
        files[f] = s.replace(a, b)
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    out = ''
    for f, s in files.items():
        o = open('/repo/include/sim_ds/' + f, newline='').read()
        n = 'include/sim_ds/' + f
        out += 'diff --git a/%s b/%s\n' % (n, n)
        for l in difflib.unified_diff(o.split('\n'), s.split('\n'), 'a/' + n, 'b/' + n, lineterm=''): out += l + '\n'
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write(out)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo.strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run in the repository's root after the build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 2
g++ -std=c++17 -O1 -w %s -Iinclude "$D/demo.cpp" -o "$W/demo" || { rm -rf "$W"; exit 2; }
(cd "$W" && timeout 120 ./demo); r=$?
rm -rf "$W"; exit $r
''' % flags)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
