"""Runs the analyses of one property, applies the verdict policy, writes the evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, fcntl, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SDS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG, OPT = '/usr/bin/clang++-18', '/usr/bin/opt-18'
PRE = ['-include', os.path.join(VERIF, 'witness', 'pre.h')]
NCPU = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """the analysis itself cannot run: error exit, never a verdict"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_tool(target='absint', timeout=600):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j%d' % NCPU, '-C', os.path.join(VERIF, 'tools', target)], timeout=timeout)
    exe = os.path.join(BUILD, target)
    if r.returncode or not os.path.exists(exe): raise Broken('cannot build %s: %s' % (target, r.stderr[-2000:]))
    return exe


# instruction-set variants the headers have separate code for
ISA = {'baseline': [], 'popcnt': ['-mpopcnt'], 'bmi': ['-mbmi', '-mpopcnt'], 'haswell': ['-march=haswell'], 'avx512': ['-march=skylake-avx512']}


# the same code with its assertions, and the standard library's, compiled in
EXTRA = {'debug': ['-UNDEBUG', '-D_GLIBCXX_ASSERTIONS']}


def compile_bc(witness, isa, work):
    src = os.path.join(VERIF, 'witness', witness + '.cpp')
    out = os.path.join(work, '%s.%s.bc' % (witness, isa))
    r = sh([CLANG, '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-DNDEBUG', '-w',
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'witness')] + PRE + (ISA.get(isa) or EXTRA.get(isa, [])) + ['-emit-llvm', '-c', src, '-o', out + '.raw'])
    if r.returncode: return None, r.stderr
    r = sh([OPT, '-passes=sroa', out + '.raw', '-o', out])
    if r.returncode: return None, r.stderr
    os.unlink(out + '.raw')
    return out, ''


def rel(p):
    return (p or '').replace(REPO + '/', '')


def run_absint(pid, spec, tier, deadline, ctx):
    """spec: list of dicts {witness, isa: [...], only: 'W_a,W_b' (optional)}"""
    exe = build_tool('absint')
    work = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    try:
        jobs = [(s, isa) for s in spec for isa in s.get('isa', ['baseline'])]
        with ThreadPoolExecutor(NCPU) as ex:
            comp = list(ex.map(lambda j: compile_bc(j[0]['witness'], j[1], work), jobs))
        units, funcs, skippedcfg = [], set(), []
        for (s, isa), (bc, err) in zip(jobs, comp):
            if bc is None:
                if isa in ('baseline', 'debug'): raise Broken('witness %s does not compile against %s (anchor vanished?):\n%s' % (s['witness'], REPO, err[:3000]))
                skippedcfg.append({'witness': s['witness'], 'isa': isa, 'why': err.strip().splitlines()[0][:300] if err.strip() else 'compile failure'})
                continue
            left = max(10, deadline - time.time())
            tl = s.get('t', 60 if tier == 'quick' else 240)
            cmd = [exe, bc, '-j', str(NCPU), '-t', str(tl), '-T', str(2 * tl), '-W', str(int(left * 0.8)), '-m', str(s.get('mem', 3000))]
            if s.get('only'): cmd += ['-w', s['only']]
            if tier == 'thorough': cmd += ['--thorough']
            try: r = sh(cmd, timeout=left + 60)
            except subprocess.TimeoutExpired: raise Broken('absint did not finish within its time')
            if r.returncode: raise Broken('absint failed on %s/%s (exit %d): %s' % (s['witness'], isa, r.returncode, r.stderr[-2000:]))
            seen = set()
            for line in r.stdout.splitlines():
                if not line.strip(): continue
                try: d = json.loads(line)
                except ValueError: continue
                if s.get('rules') and d.get('status') == 'refuted': # what other properties decide is theirs to report
                    d['findings'] = [f for f in d['findings'] if f['k'] != 'refuted' or f['rule'] in s['rules']]
                    if not any(f['k'] == 'refuted' for f in d['findings']): d['status'] = 'unknown'; d['findings'].insert(0, {'k': 'unknown', 'rule': 'other', 'msg': 'another property is violated on this path', 'loc': '', 'path': '', 'model': ''})
                d['witness'] = s['witness']; d['isa'] = isa; units.append(d); seen.add(d['w'])
                funcs.update(d.pop('functions', []))
            want = set(re.findall(r'SDS_WITNESS\((W_\w+)', open(os.path.join(VERIF, 'witness', s['witness'] + '.cpp')).read()))
            if s.get('only'):
                pats = s['only'].split(','); want = {w for w in want if any(w == p or (p.endswith('*') and w.startswith(p[:-1])) for p in pats)}
            miss = want - seen - set(s.get('optional', []))
            if miss or not seen: raise Broken('obligations %s of %s were not generated (isa %s)' % (sorted(miss), s['witness'], isa))
        nfun = len(funcs)
        if nfun < 1: raise Broken('no function of the library was reached: the rule has zero instances')
        viol = []
        for d in units:
            if d.get('status') == 'refuted':
                for f in d.get('findings', []):
                    if f['k'] == 'refuted':
                        viol.append({'key': '%s|%s' % (d['w'], f['msg']), 'rule': f['rule'], 'msg': f['msg'], 'loc': rel(f['loc']), 'path': rel(f['path']), 'model': f['model'],
                                     'obligation': '%s(%s) [%s]' % (d['w'], ','.join(map(str, d.get('args', []))), d['isa']), 'witness': d['witness'], 'unit': d['w'], 'isa': d['isa'], 'args': d.get('args', [])})
        st = {}
        for d in units: st[d['status']] = st.get(d['status'], 0) + 1
        proved_checks = sum(d.get('proved', 0) + d.get('bounds', 0) for d in units)
        und = [{'obligation': '%s(%s) [%s]' % (d['w'], ','.join(map(str, d.get('args', []))), d['isa']), 'status': d['status'], 'why': (d.get('findings') or [{'msg': 'no result'}])[0]['msg'], 'loc': rel((d.get('findings') or [{'loc': ''}])[0].get('loc', ''))} for d in units if d['status'] not in ('proved', 'refuted')]
        ctx['coverage'].update({
            'obligations': len(units), 'discharged': st.get('proved', 0), 'undecided': len(und), 'refuted': st.get('refuted', 0),
            'assertions_and_memory_bounds_decided': proved_checks,
            'universal_index_obligations': sum(1 for d in units if d.get('mode') == 'universal'),
            'joins': sum(d.get('joins', 0) for d in units), 'calls_interpreted': sum(d.get('calls', 0) for d in units),
            'library_functions_analysed': nfun, 'functions': sorted(funcs)[:400],
            'isa_configurations': sorted({d['isa'] for d in units}), 'configurations_not_compiling': skippedcfg, 'undecided_list': und[:40],
            'checker_cmd': './check %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end and SROA (translation of the sources to LLVM IR)', 'tools/absint (transfer functions, joins, models of libstdc++ allocation and streams)', 'the obligations in witness/*.cpp state the property'],
        })
        ctx['slowest'] = max((d.get('secs', 0) for d in units), default=0)
        return viol
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known():
    fx = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m: fx.append((m.group(1), m.group(2), m.group(3)))
    return fx


def main(pid, tier):
    import props
    t0 = time.time()
    if pid not in props.PROPS: print('unknown property', pid); return 2
    P = props.PROPS[pid]
    ctx = {'coverage': {}, 'slowest': 0}
    deadline = t0 + (700 if tier == 'quick' else 6600)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        if os.path.exists(ev): os.unlink(ev)
        viol = P['run'](pid, tier, deadline, ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); return 2
    kn = [(k, t) for p, k, t in known() if p == pid]
    new, old = [], []
    for v in viol: (old if any(k in v['key'].replace(' ', '_') for k, _ in kn) else new).append(v)
    for k, t in kn:
        if any(k in v['key'].replace(' ', '_') for v in old): print('KNOWN-FINDING: property=%s %s' % (pid, t))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': ctx['coverage'], 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if P['level'] == 'other': doc['coverage'].setdefault('explanation', P.get('explanation', ''))
    json.dump(doc, open(ev, 'w'), indent=1)
    cov = ctx['coverage']
    print('property=%s tier=%s %s' % (pid, tier, ' '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))), 'wall_s=%.1f slowest=%.1f' % (time.time() - t0, ctx['slowest']))
    for u in cov.get('undecided_list', [])[:5]: print('UNDECIDED', u['obligation'], u['why'], u['loc'])
    if new:
        rp = os.path.join(BUILD, 'replay'); os.makedirs(rp, exist_ok=True); rp = os.path.join(rp, pid + '.json')
        json.dump({'property': pid, 'rerun': './check %s %s' % (pid, tier), 'violations': new[:200]}, open(rp, 'w'), indent=1)
        for v in new[:6]: print('  [%s] %s\n      at %s\n      obligation %s%s' % (v['rule'], v['msg'], v['loc'], v.get('obligation', ''), ('\n      when ' + v['model'][:400]) if v.get('model') else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
