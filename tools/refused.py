"""N01: uses that the types must refuse. Each line of witness/n01_refused.txt gives a use that must compile and a twin that differs in the one
respect that must be refused; two compilers decide, nothing is run. The twin guards against refusals for an unrelated reason: a line whose
allowed use does not compile decides nothing and is counted as undecided (H01 reports interfaces that do not compile)."""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import driver
from driver import Broken, VERIF, BUILD, NCPU, sh
from headers import CXX, STD


def run_refused(pid, tier, deadline, ctx):
    INC = os.path.join(driver.REPO, 'include')
    heads = sorted(os.path.relpath(p, INC) for p in glob.glob(INC + '/**/*.h*', recursive=True))
    if not heads: raise Broken('no header found below %s' % INC)
    where = {'bits': 'BitVector', 'integers': 'FitVector', 'codes': 'DacVector', 'rank': 'SuccinctBitVector', 'symbols': 'MultiBitVector', 'rows': 'MultipleVector', 'reset': 'InitializableArray', 'in place': 'InitializableArray', 'hash': 'CHT', 'dynamic': 'CDRWArray', 'tree': 'WaveletTree', 'heap': 'Heap', 'set': 'string_util/Samc', 'dictionary': 'string_util/Samc', 'oracle': 'string_util/FactorOracle', 'text': 'string_util/SuffixArray', 'trie': 'string_util/graph_util'}
    cases = []
    for l in open(os.path.join(VERIF, 'witness', 'n01_refused.txt')):
        if l.strip() and not l.startswith('#'):
            f = [x.strip() for x in l.split('|')]
            if len(f) != 4: raise Broken('malformed line in n01_refused.txt: ' + l)
            cases.append(f)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='ref.', dir=BUILD)
    try:
        pre = ['#include "%s"' % h for h in heads] + ['#include <sstream>', '#include <string>', '#include <vector>', 'using namespace sim_ds;']
        head = os.path.join(work, 'all.hpp'); open(head, 'w').write('#pragma once\n' + '\n'.join(pre) + '\n')
        cfg = [(c, tuple(n), isa) for c in CXX for n in ([['-DNDEBUG']] if tier == 'quick' else [['-DNDEBUG'], []]) for isa in (['baseline'] if tier == 'quick' else list(driver.ISA))]

        def cc(c, fl, src, out=None):
            cmd = CXX[c] + [f for f in STD if c == 'clang' or 'color' not in f] + list(fl) + ['-I' + INC] + (out or ['-fsyntax-only']) + [src]
            try: return sh(cmd, timeout=200)
            except subprocess.TimeoutExpired: raise Broken('compiler timed out on %s' % src)
        pch = {}

        def prepare(k):
            c, n, isa = k; d = os.path.join(work, '%s.%d.%s' % (c, len(n), isa)); os.makedirs(d); fl = list(n) + driver.ISA[isa]; h = os.path.join(d, 'all.hpp'); shutil.copy(head, h)
            r = cc(c, fl + ['-x', 'c++-header'], h, ['-o', h + ('.pch' if c == 'clang' else '.gch')])
            return k, r.returncode == 0, (['-include-pch', h + '.pch'] if c == 'clang' else ['-include', h]), r.stderr
        with ThreadPoolExecutor(NCPU) as ex:
            for k, ok, fl, err in ex.map(prepare, cfg): pch[k] = fl if ok else None
        if not any(pch.values()): raise Broken('the headers do not compile together')

        def one(j):
            i, k = j; c, n, isa = k
            if pch[k] is None: return i, k, 'unusable', ''
            fl = list(n) + driver.ISA[isa] + pch[k]; _, setup, good, bad = cases[i]; res = []
            for tag, body in (('good', good), ('bad', bad)):
                p = os.path.join(work, '%d.%s.%s.%d.%s.cpp' % (i, tag, c, len(n), isa)); open(p, 'w').write('void use() {\n%s\n%s\n}\n' % (setup, body))
                res.append(cc(c, fl, p))
            return i, k, 'unusable' if res[0].returncode else 'refused' if res[1].returncode else 'accepted', res[0].stderr if res[0].returncode else ''
        with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, [(i, k) for i in range(len(cases)) for k in cfg]))
        viol, und, seen = [], [], set()
        for i, k, what, err in res:
            name, setup, good, bad = cases[i]; ob = '%s [%s %s %s]' % (name, k[0], 'NDEBUG' if k[1] else 'debug', k[2])
            if what == 'accepted' and name not in seen:
                seen.add(name); viol.append({'key': 'accepted|' + name, 'rule': 'refused use', 'msg': 'a use that must be refused compiles (%s): %s   after: %s' % (name, bad, setup), 'loc': 'include/sim_ds/%s.hpp (witness/n01_refused.txt: %s)' % (where.get(name.split(':')[0], '?'), name), 'path': '', 'model': '', 'obligation': ob})
            elif what == 'unusable': und.append({'obligation': ob, 'status': 'unknown', 'why': 'the allowed twin does not compile: ' + next((l for l in err.splitlines() if 'error' in l), '')[:200], 'loc': ''})
        n = len(res)
        if len(und) == n: raise Broken('no allowed use of the interface compiles: ' + und[0]['why'])
        ctx['coverage'].update({'obligations': n, 'discharged': n - len(und) - sum(1 for r in res if r[2] == 'accepted'), 'undecided': len(und), 'refuted': sum(1 for r in res if r[2] == 'accepted'), 'undecided_list': und[:40], 'headers': len(heads), 'cases': len(cases),
                                'compilers': sorted(CXX), 'isa_configurations': sorted({k[2] for k in cfg}), 'checker_cmd': './check %s %s' % (pid, tier), 'trusted_base': ['g++ 13 and clang 18 front ends', 'witness/n01_refused.txt pairs each refusal with an allowed twin']})
        return viol
    finally:
        shutil.rmtree(work, ignore_errors=True)
