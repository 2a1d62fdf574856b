"""The claimed properties: which analyses decide each."""
import driver
from headers import run_headers
from refused import run_refused

ALL_ISA = ['baseline', 'popcnt', 'bmi', 'haswell', 'avx512']


def absint(*spec):
    return lambda pid, tier, deadline, ctx: driver.run_absint(pid, list(spec), tier, deadline, ctx)


DEBUG = [dict(witness=w, only=o, isa=['debug'], rules=['abort']) for w, o in (
    ('c01_hash', 'W_few,W_grow,W_reserve,W_history,W_copies,W_runtime_width,W_churn'), ('c02_dynamic', 'W_width,W_churn,W_pushes,W_copies,W_clear,W_from,W_all,W_array_churn'), ('m01_dict', 'W_words,W_none,W_copies'),
    ('s01_samc', 'W_dict_io'), ('d01_dac', 'W_dac_auto,W_dac_iter,W_dac_many,W_dac_long'), ('e02_bulk', 'W_bit_history,W_fit_history,W_rows,W_rows_empty,W_bit_from,W_fit_from,W_fit_from0,W_multibit'), ('e01_elements', 'W_rows,W_multibit3'),
    ('r01_rank', 'W_multi3,W_multi_listed,W_rank,W_rank_all,W_rank_select,W_rank_moved,W_rank_shrunk,W_rank_init,W_multi1'), ('f01_oracle', 'W_oracle2,W_oracle_bytes,W_oracle6'), ('x01_suffix', 'W_suffixes_open,W_suffixes,W_suffixes_io,W_suffixes_bytes'),
    ('g01_heap', 'W_script,W_build_bits,W_build_wide,W_sort,W_build'), ('w01_wavelet', 'W_tree_long,W_tree_small'), ('i01_init', 'W_inplace8,W_folklore,W_churn,W_inplace_types,W_folklore_many,W_folklore_churn,W_inplace_access,W_inplace_long,W_folklore_from'), ('u01_trie', 'W_narrow,W_triples,W_walk,W_many'), ('v01_values', ''), ('q01_queries', ''), ('z01_sizes', ''), ('j01_words', ''), ('n01_requests', ''))]
ENGINE_ASSUMPTIONS = ['x86-64, LP64, little endian, NDEBUG (the Release build)', 'allocation succeeds']
BOUNDED = ('Abstract interpretation of the compiled LLVM IR of the library under obligations written against its public interface. Element values, stored contents and uninitialised memory are abstract '
           '(unknown bits, related by linear forms and decision diagrams, joined where paths meet); the sizes and operation orders listed in witness/*.cpp bound the claim. Nothing is executed and no solver is used. '
           'An obligation the analysis cannot decide is counted as undecided and never reported as a violation.')


def refused(*spec):
    def run(pid, tier, deadline, ctx):
        v = run_refused(pid, tier, deadline, ctx); first = ctx['coverage']; ctx['coverage'] = {}
        v += driver.run_absint(pid, list(spec), tier, deadline, ctx)
        for k in ('obligations', 'discharged', 'undecided', 'refuted'): ctx['coverage'][k] += first.pop(k)
        ctx['coverage']['undecided_list'] = (first.pop('undecided_list') + ctx['coverage']['undecided_list'])[:40]
        ctx['coverage']['trusted_base'] = first.pop('trusted_base') + ctx['coverage']['trusted_base']
        for k, x in first.items(): ctx['coverage'].setdefault(k, x)
        return v
    return run


PROPS = {
    'B01': dict(level='proof', run=absint(dict(witness='b01_bits', isa=ALL_ISA)), assumptions=ENGINE_ASSUMPTIONS),
    'E01': dict(level='proof', run=absint(dict(witness='e01_elements')), assumptions=ENGINE_ASSUMPTIONS),
    'E02': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='e02_bulk')), assumptions=ENGINE_ASSUMPTIONS),
    'E03': dict(level='proof', run=absint(dict(witness='e03_iterators')), assumptions=ENGINE_ASSUMPTIONS),
    'R01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='r01_rank')), assumptions=ENGINE_ASSUMPTIONS),
    'R02': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='r02_select')), assumptions=ENGINE_ASSUMPTIONS),
    'A01': dict(level='proof', run=absint(dict(witness='a01_checked')), assumptions=ENGINE_ASSUMPTIONS),
    'D01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='d01_dac')), assumptions=ENGINE_ASSUMPTIONS),
    'S01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='s01_streams'), dict(witness='s01_samc')), assumptions=ENGINE_ASSUMPTIONS),
    'W01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='w01_wavelet')), assumptions=ENGINE_ASSUMPTIONS),
    'I01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='i01_init')), assumptions=ENGINE_ASSUMPTIONS),
    'G01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='g01_heap')), assumptions=ENGINE_ASSUMPTIONS),
    'P01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='p01_match')), assumptions=ENGINE_ASSUMPTIONS),
    'F01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='f01_oracle')), assumptions=ENGINE_ASSUMPTIONS),
    'X01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='x01_suffix')), assumptions=ENGINE_ASSUMPTIONS),
    'T01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='t01_bytes')), assumptions=ENGINE_ASSUMPTIONS),
    'C01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='c01_hash')), assumptions=ENGINE_ASSUMPTIONS),
    'C02': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='c02_dynamic')), assumptions=ENGINE_ASSUMPTIONS),
    'M01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='m01_dict')), assumptions=ENGINE_ASSUMPTIONS),
    'U01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='u01_trie')), assumptions=ENGINE_ASSUMPTIONS),
    'V01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='v01_values')), assumptions=ENGINE_ASSUMPTIONS),
    'Q01': dict(level='other', explanation=BOUNDED + ' The deciding rule is an effect rule: between two points of the obligation no instruction of the library may store to memory that existed before the query (the object, what it owns, globals).', run=absint(dict(witness='q01_queries')), assumptions=ENGINE_ASSUMPTIONS),
    'Z01': dict(level='other', explanation=BOUNDED, run=absint(dict(witness='z01_sizes')), assumptions=ENGINE_ASSUMPTIONS),
    'O01': dict(level='other', explanation='Abstract cost analysis: the interpreter of the compiled IR carries the number of instructions on the longest path to each point (joins take the maximum, bulk operations count per 16 bytes), and the obligations compare the cost of one operation on two containers, one sixteen times as large. ' + BOUNDED, run=absint(dict(witness='o01_work')), assumptions=ENGINE_ASSUMPTIONS),
    'H01': dict(level='other', explanation='The type checkers of two compilers and the linker decide: every header is compiled alone and together with the others, the symbols of the objects are classified, and the public interface is instantiated. Nothing is run.', run=run_headers, assumptions=['C++17, x86-64; g++ 13 and clang 18 stand for the supported compilers', 'boost and the standard library are installed']),
    'L01': dict(level='other', explanation=BOUNDED + ' The interpreter carries the number of bytes of dynamic storage that are live at each point; the obligations compare it, and size_in_bytes, with the bound of the representation.', run=absint(dict(witness='l01_space')), assumptions=ENGINE_ASSUMPTIONS),
    'J01': dict(level='other', explanation=BOUNDED + ' The interpreter carries the alignment of every allocation; the obligation compares the pointer handed out with it.', run=absint(dict(witness='j01_words')), assumptions=ENGINE_ASSUMPTIONS),
    'N01': dict(level='other', explanation='The type checkers of two compilers decide, for each listed use, that it is refused while a twin that differs only in the respect to be refused is accepted; requests refused at run time are decided as follows. ' + BOUNDED, run=refused(dict(witness='n01_requests')), assumptions=ENGINE_ASSUMPTIONS + ['g++ 13 and clang 18 stand for the supported compilers']),
    'K01': dict(level='other', explanation=BOUNDED + ' Here the code is compiled with its assertions, and those of the standard library, and only a path that ends in a failing one is reported.', run=absint(*DEBUG), assumptions=['x86-64, LP64, little endian, assertions enabled', 'allocation succeeds']),
    'B02': dict(level='proof', run=absint(dict(witness='b02_hash')), assumptions=ENGINE_ASSUMPTIONS),
}
