fix = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '5e9f7a9..HEAD'], capture_output=True, text=True).stdout.splitlines()
fixed = {}
for l in open('/verif/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m[2][:7], []).append(m[1])
w('No property is under `not_applicable`: each statement above is bounded honestly in its entry instead. What the family cannot reach is listed in section 5.')
w('')
w('''## 3. Defects found and repaired

Every one of these was reported by a check (or stopped an obligation from compiling), reproduced against the real code, and repaired in its own
`fix:` commit; the 56 tests pass after each. `known_findings.txt` records them; no finding is left open.
''')
w('| commit | property | what failed |'); w('|---|---|---|')
for l in fix:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '): w('| %s | %s | %s |' % (h, ', '.join(fixed.get(h, ['-'])), s[5:].replace('|', '\\|')))
w('')
w('''## 4. Planted bugs

Each lies in `seeded/<id>` with a demonstration; all compile and pass the 56 tests. They were written from the statements of the properties. The column tells what catches them
(the property's own quick check unless noted).
''')
w('| bug | property | needs | caught by |'); w('|---|---|---|---|')
import glob, os
NOTE = {'r02-narrow-tips': 'R02, after `W_select_wide` was added (missed before: no obligation had 2^16 blocks)', 'm01-range': 'M01, after `W_mixed` was added (missed before)', 'e01-full-width': 'E01', 'p01-period': 'P01'}
try: exec(open('/verif/tools/dev/design/design_notes.py').read())
except FileNotFoundError: pass
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    w('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], NOTE.get(i, d['property'])))
w('')
w(open('/verif/tools/dev/design/design_end.md').read())
