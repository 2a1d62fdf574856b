"""H01: the headers as translation units. Compilers and the linker decide; nothing is run.
rules: alone (compiles as the only include), order (all of them together, either way round, and every header still contributes its
declarations), linkage (an object that only includes headers defines no strong symbol; two objects link; no sim_ds symbol is declared,
used and never defined), instances (explicit instantiations and calls of the public interface compile)"""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import driver
from driver import Broken, VERIF, BUILD, NCPU, sh

CXX = {'clang': ['/usr/bin/clang++-18'], 'gcc': ['/usr/bin/g++']}
STD = ['-std=c++17', '-w', '-fno-color-diagnostics']


def run_headers(pid, tier, deadline, ctx):
    INC = os.path.join(driver.REPO, 'include')
    heads = sorted(os.path.relpath(p, INC) for p in glob.glob(INC + '/**/*.h*', recursive=True))
    if not heads: raise Broken('no header found below %s' % INC)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='hdr.', dir=BUILD)
    viol, done = [], {'alone': 0, 'order': 0, 'linkage': 0, 'instances': 0}

    def bad(rule, msg, loc, ob):
        viol.append({'key': '%s|%s' % (rule, msg), 'rule': rule, 'msg': msg, 'loc': loc, 'path': '', 'model': '', 'obligation': ob})

    def cc(cxx, flags, src, out=None, extra=()):
        cmd = CXX[cxx] + [f for f in STD if cxx == 'clang' or 'color' not in f] + list(flags) + ['-I' + INC] + list(extra) + (['-c', src, '-o', out] if out else ['-fsyntax-only', src])
        try: return sh(cmd, timeout=300)
        except subprocess.TimeoutExpired: raise Broken('compiler timed out on %s' % src)

    def first(err):
        for l in err.splitlines():
            if 'error' in l: return l.replace(INC + '/', 'include/').replace(work + '/', '')[:300]
        return err.strip()[:300]

    def where(err):
        m = re.search(re.escape(INC) + r'/([^:\s]+):(\d+)', err)
        return 'include/%s:%s' % m.groups() if m else ''

    def tu(name, lines):
        p = os.path.join(work, name + '.cpp'); open(p, 'w').write('\n'.join(lines) + '\n'); return p

    def inc(hs): return ['#include "%s"' % h for h in hs]

    try:
        # environment: what the headers themselves include from outside must compile
        ext = set()
        for h in heads:
            for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*<([\w./]+)>', open(os.path.join(INC, h), errors='replace').read(), re.M):
                if '/' not in m.group(1) or m.group(1).startswith('boost/'): ext.add(m.group(1))
        for c in CXX:
            r = cc(c, [], tu('env_' + c, ['#include <%s>' % e for e in ('vector', 'string', 'map', 'iostream')] + ['int x;']))
            if r.returncode: raise Broken('%s cannot compile the standard library: %s' % (c, r.stderr[:500]))
        # one translation unit per header
        cfgs = [('clang', n, isa) for isa in driver.ISA for n in ([], ['-DNDEBUG'])] + [('gcc', n, isa) for isa in (driver.ISA if tier == 'thorough' else ['baseline', 'haswell']) for n in ([], ['-DNDEBUG'])]
        src = {h: tu('alone_%d' % i, inc([h])) for i, h in enumerate(heads)}
        obj = {}

        def alone(j):
            h, (c, n, isa) = j
            o = os.path.join(work, '%d.%s.%d.o' % (heads.index(h), c, len(n))) if isa == 'baseline' else None
            r = cc(c, n + driver.ISA[isa] + ['-O0'], src[h], o)
            return h, c, n, isa, o, r
        with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(alone, [(h, c) for h in heads for c in cfgs]))
        broken_alone = set()
        for h, c, n, isa, o, r in res:
            done['alone'] += 1
            ob = '%s alone [%s %s %s]' % (h, c, 'NDEBUG' if n else 'debug', isa)
            if r.returncode:
                broken_alone.add(h); bad('alone', 'header %s does not compile when it is the only one included: %s' % (h, first(r.stderr)), where(r.stderr) or 'include/' + h, ob)
            elif o: obj[(h, c, len(n))] = o
        # linkage of the objects
        def symbols(o, *fl):
            r = sh(['nm', '-C'] + list(fl) + [o])
            if r.returncode: raise Broken('nm failed: ' + r.stderr[:300])
            return [l.split(None, 2 if not l.startswith(' ') else 1) for l in r.stdout.splitlines() if l.strip()]
        for (h, c, n), o in sorted(obj.items()):
            done['linkage'] += 1
            for s in symbols(o, '--defined-only', '--extern-only'):
                if s[1] in 'TDBRGSC': bad('linkage', 'header %s defines %s with strong external linkage: two source files including it do not link' % (h, s[2]), 'include/' + h, '%s [%s] symbols' % (h, c))
        # together, either way round; every header still contributes
        orders = {'sorted': heads, 'reversed': heads[::-1]}
        if tier == 'thorough':
            for i, h in enumerate(heads): orders['first:' + h] = [h] + [x for x in heads if x != h]; orders['last:' + h] = [x for x in heads if x != h] + [h]
            for a in heads:
                for b in heads:
                    if a != b: orders['pair:%s,%s' % (a, b)] = [a, b]
        osrc = {k: tu('order_%d' % i, inc(v)) for i, (k, v) in enumerate(sorted(orders.items()))}

        def lines(s):  # lines each header contributes after preprocessing
            r = sh(CXX['clang'] + STD + ['-E', '-I' + INC, s]); cur, n = None, {}
            if r.returncode: return None
            for l in r.stdout.splitlines():
                m = re.match(r'# \d+ "([^"]*)"', l)
                if m: cur = os.path.relpath(m.group(1), INC) if m.group(1).startswith(INC + '/') else None
                elif cur and l.strip(): n[cur] = n.get(cur, 0) + 1
            return n
        with ThreadPoolExecutor(NCPU) as ex: base = dict(zip(heads, ex.map(lambda h: lines(src[h]), heads)))
        own = {h: (base[h] or {}).get(h, 0) for h in heads}

        def order(k): return k, [(c, n, cc(c, n, osrc[k])) for c in (CXX if not k.startswith('pair') else ['clang']) for n in ([], ['-DNDEBUG'])][: 4 if not k.startswith('pair') else 1], lines(osrc[k])
        with ThreadPoolExecutor(NCPU) as ex: ores = list(ex.map(order, sorted(orders)))
        for k, rs, cnt in ores:
            if broken_alone & set(orders[k]): continue  # reported above
            for c, n, r in rs:
                done['order'] += 1
                if r.returncode: bad('order', 'the headers do not compile together (%s): %s' % (k, first(r.stderr)), where(r.stderr), '%s [%s %s]' % (k, c, 'NDEBUG' if n else 'debug'))
            for h in orders[k]:
                if cnt is not None and own[h] and not cnt.get(h): bad('order', 'the contents of %s are missing when it is included with others (%s): another header uses the same include guard' % (h, k), 'include/' + h, k)
        # the public interface, instantiated; two objects linked
        inst = os.path.join(VERIF, 'witness', 'h01_instances.cpp')
        isas = list(driver.ISA) if tier == 'thorough' else ['baseline', 'haswell']

        def instance(j):
            c, n, isa = j; o = os.path.join(work, 'inst.%s.%d.%s.o' % (c, len(n), isa)); return c, n, isa, o, cc(c, n + driver.ISA[isa] + ['-O0'], inst, o, ['-I' + os.path.join(VERIF, 'witness')])
        with ThreadPoolExecutor(NCPU) as ex: ires = list(ex.map(instance, [(c, n, isa) for c in CXX for n in ([], ['-DNDEBUG']) for isa in isas]))
        objs = {}
        for c, n, isa, o, r in ires:
            done['instances'] += 1
            ob = 'instances [%s %s %s]' % (c, 'NDEBUG' if n else 'debug', isa)
            if r.returncode:
                e = [l for l in r.stderr.splitlines() if ' error:' in l]
                if e and e[0].startswith(INC + '/') : bad('instances', 'an instantiation of the public interface does not compile: ' + first(r.stderr), where(e[0]), ob)
                elif not viol: raise Broken('witness h01_instances.cpp does not compile (anchor vanished?): ' + first(r.stderr))
                continue
            objs[(c, len(n), isa)] = o
            for s in symbols(o, '--undefined-only'):
                done['linkage'] += 1
                if re.match(r'(vtable for |typeinfo for |VTT for |non-virtual thunk to )?(.* )?sim_ds::', s[-1]) and not s[-1].startswith('std::'): bad('linkage', '%s is declared in a header and used but never defined' % s[-1], '', ob)
        main = tu('main', inc(heads) + ['int main() { return 0; }']); other = tu('other', inc(heads[::-1]) + ['int other() { return 0; }'])
        if not broken_alone and not any(v['rule'] == 'order' for v in viol):
            for c in CXX:
                for n in ([], ['-DNDEBUG']):
                    ob = 'two source files [%s %s]' % (c, 'NDEBUG' if n else 'debug'); os_ = []
                    for s in (main, other):
                        o = s + '.%s.%d.o' % (c, len(n)); r = cc(c, n + ['-O0'], s, o); os_.append(o)
                        if r.returncode: raise Broken('cannot compile %s: %s' % (s, first(r.stderr)))
                    r = sh(CXX[c] + os_ + ['-o', os.path.join(work, 'linked')]); done['linkage'] += 1
                    if r.returncode:
                        m = re.search(r'multiple definition of `([^\']*)|undefined reference to `([^\']*)', r.stderr)
                        bad('linkage', 'two source files including the headers do not link: %s' % (m.group(0) if m else r.stderr.strip()[:200]), '', ob)
        seen, uniq = set(), []
        for v in viol:
            if v['key'] not in seen: seen.add(v['key']); uniq.append(v)
        n = sum(done.values())
        ctx['coverage'].update({'obligations': n, 'discharged': n - len(viol) if len(viol) < n else 0, 'undecided': 0, 'refuted': len(viol), 'headers': len(heads), 'header_list': heads, 'units_by_rule': done, 'orders': sorted(orders)[:60],
                                'isa_configurations': sorted(driver.ISA), 'compilers': sorted(CXX), 'checker_cmd': './check %s %s' % (pid, tier), 'trusted_base': ['g++ 13 and clang 18 front ends', 'nm and the linker', 'witness/h01_instances.cpp lists the public interface']})
        return uniq
    finally:
        shutil.rmtree(work, ignore_errors=True)
