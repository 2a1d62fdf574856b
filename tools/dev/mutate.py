"""Plants small mechanical changes in scratch copies of the headers, keeps those that the existing tests do not notice,
and reports which of them no check of the file's properties reports (each of those is equivalent, outside the claims, or a gap).
usage: mutate.py make N SEED [file...]   -> /tmp/mut/list.json      mutate.py check"""
import sys, os, re, json, random, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
R = '/repo/include/sim_ds/'; W = '/tmp/mut'
CHECKS = {'BijectiveHash.hpp': 'B02 C01', 'BitReference.hpp': 'E01 E03', 'BitVector.hpp': 'A01 E02 E01 S01 Z01', 'BitsReference.hpp': 'E01 E03', 'CDRWArray.hpp': 'C02 V01', 'CHT.hpp': 'C01 C02',
 'DacVector.hpp': 'D01 A01 S01 Z01 E03 V01', 'FitVector.hpp': 'A01 E01 E02 S01 Z01', 'Heap.hpp': 'G01 O01', 'InitializableArray.hpp': 'I01 O01', 'MultiBitVector.hpp': 'R01 E01 E02 S01 Z01', 'MultipleVector.hpp': 'E01 E02 S01 Z01',
 'SuccinctBitVector.hpp': 'R01 R02 S01 Z01 V01', 'WaveletTree.hpp': 'W01 S01 Z01', 'basic.hpp': 'S01 Z01', 'bit_util.hpp': 'B01 R02', 'bit_util256.hpp': 'B01', 'calc.hpp': 'B01 D01', 'sort.hpp': 'G01',
 'string_util/FactorOracle.hpp': 'F01 T01 V01', 'string_util/PatternMatching.hpp': 'T01 P01', 'string_util/Samc.hpp': 'M01 S01 Z01', 'string_util/SuffixArray.hpp': 'X01 T01', 'string_util/graph_util.hpp': 'U01'}
SUB = [(r'<=', '<'), (r'(?<![<=!>-])<(?![<=])(?= )', '<='), (r'>=', '>'), (r'(?<= )>(?![>=])(?= )', '>='), (r'\+ 1\b', '+ 2'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'==', '!='), (r'\|=', '='), (r'\band\b|&&', 'or'), (r'\bor\b|\|\|', 'and'),
       (r'<<', '>>'), (r'>>', '<<'), (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'\.size\(\)', '.size() - 1'), (r'uint64_t', 'uint32_t'), (r'uint32_t', 'uint16_t'), (r'size_t', 'uint32_t'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b8\b', '7'), (r'\b64\b', '63'),
       (r'\bnot ', ''), (r'!(?=[a-z(])', ''), (r'\+\+', '--'), (r'\+=', '-='), (r' \+ ', ' - '), (r' - ', ' + '), (r'~', ''), (r' & ', ' | '), (r' \| ', ' & '), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::move\(([^()]*)\)', r'\1'), (r'const auto&', 'const auto'), (r'/ 8', '/ 4'), (r'% ', '/ '), (r'\bwhile\b', 'if'), (r'\+\+(\w+)\)', r'\1 += 2)')]
def mutants(f):
    s = open(R + f, newline='').read(); out = []
    lines = s.split('\n'); incomment = False
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('#') or 'static_assert' in t or 'template' in t or t.startswith('assert') or t.startswith('using') or 'std::cout' in t or 'std::cerr' in t or t.startswith('*') or t.startswith('/*') or 'operator' in t and ';' not in t or 'os <<' in t or t.startswith('namespace'): continue
        code = l.split('//')[0]
        for p, r in SUB:
            for m in re.finditer(p, code):
                n = code[:m.start()] + m.expand(r) + code[m.end():] + l[len(code):]
                if n != l: out.append((i, l, n, '%s -> %s' % (m.group(0), r)))
        if t.endswith(';') and not t.startswith('return') and not re.match(r'(const |auto |size_t |uint|int |std::\w+<.*> \w+;|public|private|friend|static|else|for|while|break|throw)', t) and ('=' in t or '(' in t): out.append((i, l, re.match(r'\s*', l)[0] + ';', 'deleted'))
        m = re.match(r'(\s*(?:\} else )?if )\((.*)\)( \{)?\r?$', l)
        if m: out.append((i, l, m[1] + '(true)' + (m[3] or ''), 'if true')); out.append((i, l, m[1] + '(false)' + (m[3] or ''), 'if false'))
    return s, lines, out
def env(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.run(['cp', '-a', '/repo/include', '/repo/test', d])
GT = '/repo/_build/lib/libgtest.a /repo/_build/lib/libgtest_main.a -lpthread'.split()
INC = ['-I/usr/src/googletest/googletest/include']
def deps():
    d = {}
    for t in sorted(os.listdir('/repo/test/src')):
        if t.endswith('_test.cpp'):
            o = subprocess.run(['g++', '-MM', '-std=c++17', '-I/repo/include'] + INC + ['/repo/test/src/' + t], capture_output=True, text=True).stdout
            d[t] = {x.split('sim_ds/', 1)[1] for x in o.split() if '/include/sim_ds/' in x}
    return d
def norm(f):
    while '/../' in f: f = re.sub(r'[^/]+/\.\./', '', f)
    return f
def stage1(j):
    n, f, i, new, why = j; d = '%s/d%d' % (W, n); env(d); p = d + '/include/sim_ds/' + f
    L = open(p, newline='').read().split('\n'); L[i] = new; open(p, 'w', newline='').write('\n'.join(L)); ok = True
    for t, ds in DEPS.items():
        if f not in {norm(x) for x in ds}: continue
        try:
            r = subprocess.run(['g++', '-O1', '-DNDEBUG', '-std=c++17', '-w', '-I' + d + '/include'] + INC + [d + '/test/src/' + t] + GT + ['-o', d + '/t'], capture_output=True, timeout=120)
            if r.returncode: ok = False; break
            r = subprocess.run(['bash', '-c', 'ulimit -v 4000000; exec ./t --gtest_brief=1'], cwd=d, capture_output=True, timeout=25)
            if r.returncode: ok = False; break
        except subprocess.TimeoutExpired: ok = False; break
    shutil.rmtree(d); return ok
if sys.argv[1] == 'make':
    N, seed = int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:] or list(CHECKS); rnd = random.Random(seed); os.makedirs(W, exist_ok=True); keep = []
    jobs = []; k = 0; DEPS = deps()
    for f in files:
        s, lines, ms = mutants(f); rnd.shuffle(ms); seen = set(); c = 0
        for (i, l, n, why) in ms:
            if (i, why) in seen: continue
            seen.add((i, why)); jobs.append((k, f, i, n, why)); k += 1; c += 1
            if c >= N: break
    with ThreadPoolExecutor(6) as ex:
        for j, ok in zip(jobs, ex.map(stage1, jobs)):
            if ok: keep.append(j); json.dump(keep, open(W + '/list.json', 'w'))
    print(len(jobs), 'tried', len(keep), 'pass the tests')
else:
    done = {}
    if os.path.exists(W + '/done.json'): done = json.load(open(W + '/done.json'))
    for j in json.load(open(W + '/list.json')):
        n, f, i, new, why = j; key = '%s:%d:%s' % (f, i, hashlib.md5(new.encode()).hexdigest()[:6])
        if key in done: continue
        d = W + '/chk'; env(d); p = d + '/include/sim_ds/' + f
        L = open(p, newline='').read().split('\n'); old = L[i]; L[i] = new; open(p, 'w', newline='').write('\n'.join(L))
        res = []
        for c in CHECKS[f].split():
            r = subprocess.run(['timeout', '880', './check', c, 'quick'], cwd='/verif', env=dict(os.environ, SDS_REPO=d), capture_output=True, text=True)
            u = re.search(r'undecided=(\d+)', r.stdout); res.append('%s:%d%s' % (c, r.returncode, '(u%s)' % u[1] if u and u[1] != '0' else ''))
            if r.returncode == 1: break
        done[key] = res; json.dump(done, open(W + '/done.json', 'w'))
        caught = res[-1].split(':')[1].startswith('1')
        print('CAUGHT' if caught else 'MISSED', f, i + 1, '|', old.strip(), '=>', new.strip(), '|', ' '.join(res), flush=True)
