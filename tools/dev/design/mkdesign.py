import subprocess, json, re
out = []
w = out.append
w('''# Static decision of the properties of SimpleDataStructure

The library is a set of C++ headers: packed sequences (bits, fixed-width integers, byte rows, small symbols), succinct
dictionaries over them (rank/select, variable-length codes, wavelet tree), a compact hash table and compact dynamic arrays,
initialisable arrays, heaps, string structures (tries, a double-array string dictionary, factor oracle, suffix array, pattern
matchers) and the bit primitives under all of them. What its users rely on are functional laws over every input and history.
This directory decides those laws from the source, without running the library.

## 1. Technique

### 1.1 Abstract interpretation of the compiled intermediate representation (29 of the 30 properties)

`check ID` compiles `witness/*.cpp` - obligations written against the *public* interface of the library - together with
/repo's current headers to LLVM IR (clang 18, `-std=c++17 -DNDEBUG`, no optimisation but SROA), and interprets that IR
abstractly with `tools/absint` (C++, about 2800 lines, linked against LLVM only to read the IR). Nothing of the library is
compiled to machine code or executed, and no path is handed to a solver.

* **Values.** Every bit of every integer is a node of a shared reduced ordered binary decision diagram over *unknowns*
  (element values, stored bytes, uninitialised memory); most are constants. Wide unbounded quantities (an index `64a+p` with
  `a < 2^32` unknown) are linear forms with congruence and interval information, so that one obligation covers every index.
  Pointers are (object, offset) pairs, the offset again abstract; sets of targets are guarded alternatives.
* **Memory.** Objects with byte-granular contents; constant fills are kept as regions, so that an array of 2^25 bits costs
  what its written part costs; storage indexed by a symbolic `a` is a lazily materialised window. Memory nobody wrote holds
  fresh unknowns, so that a result that depends on indeterminate bytes shows as a value that is not the prescribed one.
* **Joins.** Where control depends on unknown bits, both sides are interpreted and the states are joined at the immediate
  post-dominator (values become if-then-else nodes under the branch condition), not enumerated; loops with unknown trip
  counts end because the sizes of the obligations are constants or because the loop is over the unknown bits of one word.
  A precise alternative - splitting an obligation on a few unknown bits - is used where a join would lose an address.
* **Checks.** At every load and store: the address lies inside a live object (bounds, lifetime, null). At every shift,
  division, `unreachable`, `assume`-like construct: defined. At every exit: no exception escapes that the obligation does not
  expect. At every `sds_check`: the condition is the constant-true diagram on all abstract states. `free`d and destroyed
  memory is dead. At every loop header reached again and every recursive call: if the live values, the memory and the streams are
  those of an earlier visit on the same path, the code does not end (`nontermination`; since both states are the same function of
  the unknowns and the interpreter is deterministic, this holds for every input of the path). Obligations that declare a limit
  of live storage (`sds_meta_heap_limit`) also find loops that grow something for ever (`space`).
* **Verdict.** *Proved*: the condition is true for every value of the unknowns. *Refuted*: it is false for some valuation of
  the unknowns, on a state reached without any over-approximation - the valuation is printed with the function, source line
  and call path. Anything else (a merge too imprecise, a budget exceeded, an unmodelled construct) is *undecided*: counted,
  listed in the evidence and never reported as a violation. So a refactoring the analysis cannot follow lowers the coverage
  and raises no alarm; the price is that a bug behind an undecided obligation is missed.
* **Broken is not quiet.** If a witness does not compile for the baseline (the public interface is gone), if no obligation is
  generated, or if no function of the library is reached, the check exits 2 (`ANALYSIS-BROKEN`), never 0.

The obligations iterate over *listed* sizes (around every word, block, super-block, table boundary) while contents, values and
where possible positions are abstract. Which of the two it is decides the level claimed in MANIFEST.json: `proof` where the
quantifier of the statement is covered as stated (B01, B02, E01, E03, A01), `other` (bounded, with the bounds in the entry)
where sizes or orders of operations are listed. This is a bounded verdict and is meant to be read as one.

Trusted: clang's translation to IR; the transfer functions, joins and the models of allocation, `memcpy`-like functions, the red-black tree
primitives of `std::map` and the stream buffer (witness/rbtree.h, `tools/absint/builtins.cpp`); libstdc++'s headers are
analysed, not trusted. The engine has been validated by the planted bugs (section 4) and by the defects it found (section 3),
each of which was reproduced against the real code before it was fixed.

### 1.2 Effect rule (Q01)

The same interpreter, with the heap *frozen* between two points of an obligation: between them any store whose target object
existed before the first point (the object asked, what it owns, globals, statics) is the violation, whatever value is stored.
That a query writes nothing shared is a condition under which concurrent queries cannot race; interleavings are not modelled.

### 1.3 Abstract cost (O01)

Every abstract state carries the number of IR instructions on the longest path to it (joins take the maximum, bulk fills and
copies count per 16 bytes). An obligation performs one operation on a container of n and of 16n elements, contents arbitrary,
and requires the two costs to be equal up to a constant (or a logarithmic term). A cost is an upper bound of the paths of the
obligation and attained by one of them as far as the joins are exact; obligations with inexact joins are undecided.

### 1.4 Type-level and linkage rules (H01)

Compilers' front ends decide: each public header alone, in several orders after the others, twice, per instruction set, with
and without NDEBUG, under g++ and clang; the declarations of each header are re-named by a probe after every other header;
`nm` over the objects of two translation units classifies symbols (a strong definition in a header is the violation, named)
and the linker confirms; public templates and members are instantiated for the argument types they are made for. A failing
probe names header, configuration and diagnostic. Nothing is run.

### 1.5 Verdict policy

Exit 0: every decided obligation holds. Exit 1: `VIOLATION property=<id> replay=<file>`, the file lists rule, source location,
call path, obligation and valuation of every refutation. `known_findings.txt` lists findings by obligation key (none is
open; all 74+ defects found were fixed, see section 3) and repaired ones as `fixed:` lines, which suppress nothing.

### 1.6 Why this reaches what the tests cannot

The 56 tests run a few fixed or random vectors through each container. Here contents, stale memory and values are unknown at
once, so one obligation stands for 2^(bits) inputs; sizes are taken at and around each boundary where the code changes its
behaviour; the instruction-set variants the test build never compiles are analysed too; and memory safety of every access is
an obligation even when the values come out right.

## 2. The properties

Costs are wall-clock seconds of the quick check on 8 cores; *obl.* is the number of obligations it decides. `thorough` uses the
second list of each witness (larger sizes, longer histories, more seeds).
''')
cost = {}
for l in open('/verif/tools/dev/design/costs.txt'):
    m = re.match(r'(\w+) (\d+) (.*)', l)
    if m:
        o = re.search(r'obligations=(\d+)', m[3]); t = re.search(r'wall_s=([\d.]+)', m[3]); u = re.search(r'undecided=(\d+)', m[3])
        cost[m[1]] = (o and o[1], u and u[1], t and t[1])
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
man = json.load(open('/verif/MANIFEST.json'))
lev = {c['property'] if 'property' in c else c['property_id']: c for c in man['checks']} if 'checks' in man else {}
exec(open('/verif/tools/dev/design/design_props.py').read())
for p in props:
    i = p['id']; c = cost.get(i, ('?', '?', '?'))
    w('### %s %s' % (i, p['title']))
    w('')
    w('%s' % HOW[i].strip())
    w('')
    w('*Cost:* %s obl. (%s undecided), %s s.' % c)
    w('')
exec(open('/verif/tools/dev/design/design_tail.py').read())
open('/verif/DESIGN.md', 'w').write('\n'.join(out) + '\n')
