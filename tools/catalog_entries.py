SMALL = 'Sizes are a listed set around every word and block boundary; contents are arbitrary. '
BND = 'Bounded: nothing is concluded beyond the listed sizes. '
UNIV = 'Sizes and positions are arbitrary (position 64a+p with a unknown, every p). '

prop('B01', 'Bit primitives compute what their names say, on every instruction set',
     'Population count, pattern counts, leading and trailing zero counts, selection of the i-th one, field extraction, masks, group swaps, the 256-bit helpers and the "how many units does this value need" functions return the mathematically defined result for every argument in their domain. The portable and the intrinsic implementations agree, whatever instruction-set flags the headers are compiled with.',
     ['inputs', 'configurations'], 'every 64-bit argument, every width/position/mask, each of 5 instruction-set configurations',
     'The tests try a few masks in one build configuration; the intrinsic paths are not compiled at all by the test build.',
     ['bit_util.hpp', 'bit_util256.hpp', 'calc.hpp'], [('portable bit tricks, lookup tables, intrinsics', 'bit_util.hpp'), ('256-bit helpers', 'bit_util256.hpp'), ('SizeFits*', 'calc.hpp')],
     AI, 'proof', 'Every argument value, symbolically, per width/position; five -m configurations. ' + TB,
     observe=['return values'])
prop('B02', 'Key hashing is a bijection whose inverse undoes it, for every key width',
     'For every key width from 1 to 64 bits, hashing maps keys of that width to values of that width and the inverse applied to the hash of a key returns the key, and vice versa. Two different keys therefore never collide completely, which is what lets the compact hash table store only part of a key.',
     ['inputs'], 'all keys of every width 1..64, for each of the hash families offered',
     'No test exercises the hash functions directly; the hash-table test uses a few random keys of one width.',
     ['BijectiveHash.hpp'], [('multiplier/inverse table and xor shifts', 'BijectiveHash.hpp')],
     AI, 'proof', 'All keys of every width. ' + TB)
prop('E01', 'Writing one packed element stores exactly that value and changes no other',
     'In every packed sequence (bits, fixed-width integers of 0..64 bits, byte-aligned records, 1-3 bit symbols) a value written to a position is read back from it by every access path (index, checked access, front/back, iterators, const and non-const), and no other position changes. Sizes and widths are not changed by element writes.',
     ['inputs'], 'every element width, every position, every size, every previous contents, every written value that fits the width',
     'The tests write a few hundred random values at low indices; word-boundary positions of every width, high indices and neighbours of the written element are not checked.',
     ['BitVector.hpp', 'BitReference.hpp', 'FitVector.hpp', 'BitsReference.hpp', 'MultipleVector.hpp', 'MultiBitVector.hpp'], [('proxy references over words', 'BitsReference.hpp'), ('proxy references over bits', 'BitReference.hpp'), ('byte rows', 'MultipleVector.hpp'), ('packed symbols', 'MultiBitVector.hpp')],
     AI, 'proof', UNIV + 'Indices up to 2^38. Values wider than the element are outside the precondition. ' + TB)
prop('E02', 'Bulk operations on packed sequences produce exactly the prescribed contents',
     'Constructing, resizing, appending, assigning, range-filling, reserving, shrinking and copying or moving packed sequences produces exactly the elements their meaning prescribes: the common prefix is kept, added elements have the requested value (zero when none is requested) whatever was stored there before, nothing outside the addressed range changes, and copies are independent.',
     ['inputs', 'histories'], 'contents arbitrary; sizes around every word and block boundary; shrink-then-grow histories',
     'The tests resize a handful of vectors and compare a few values; stale bits after a shrink and partial-word fills are not reached.',
     ['BitVector.hpp', 'FitVector.hpp', 'MultipleVector.hpp', 'MultiBitVector.hpp'], [('word-wise fill and resize', 'BitVector.hpp'), ('resize/assign/push_back', 'FitVector.hpp'), ('row resize/push_back', 'MultipleVector.hpp')],
     AI, 'other', BND + SMALL + TB)
prop('E03', 'Iterators of the sequences obey the random-access laws',
     'Iterators over packed sequences order, compare, advance, retreat and subtract exactly as the positions they denote, pre- and post-forms return the right position, conversions to constant iterators keep the position, and traversing from begin to end visits every element once in order.',
     ['inputs'], 'every pair of positions (any distance, both directions), every element width 1..64',
     'The tests iterate forward over small vectors only; arithmetic across words, differences and reverse steps are untested.',
     ['BitReference.hpp', 'BitsReference.hpp', 'DacVector.hpp'], [('bit iterators', 'BitReference.hpp'), ('element iterators', 'BitsReference.hpp'), ('index iterators', 'DacVector.hpp')],
     AI, 'proof', UNIV + TB)
prop('R01', 'rank counts exactly the matching elements before a position',
     'For every bit sequence and every position from 0 to its size, rank returns the number of ones before the position and the zero-rank the number of zeros; for sequences of 1-3 bit symbols the rank of a position is the number of earlier elements equal to the one there. Bits dropped before the dictionary was built do not count, and copies and moves of the dictionary answer alike.',
     ['inputs'], 'every contents; sizes around every word, 256/512-bit block and multi-block boundary; every checked position',
     'The tests check a few random vectors; positions at block boundaries, at the very end and all-ones blocks (9-bit counters) are reached only by luck.',
     ['SuccinctBitVector.hpp', 'MultiBitVector.hpp', 'bit_util.hpp'], [('two-level counters', 'SuccinctBitVector.hpp'), ('per-symbol counters', 'MultiBitVector.hpp')],
     AI, 'other', BND + SMALL + 'Sizes to 2049 bits (quick). ' + TB)
prop('R02', 'select finds the position of the requested one',
     'For every bit sequence and every k smaller than its number of ones, select(k) returns the position of the k-th one (counting from zero).',
     ['inputs'], 'every contents and every k', 'The test tries random vectors at one density.', ['SuccinctBitVector.hpp', 'bit_util.hpp'], [('select tips and block search', 'SuccinctBitVector.hpp'), ('in-word select', 'bit_util.hpp')],
     AI, 'other', BND + SMALL + 'Sizes to 4160 bits. ' + TB)
prop('A01', 'Checked access throws exactly when the index is out of range',
     'Checked element access throws the standard out-of-range exception for every index that is not smaller than the size, and for every smaller index returns the element without throwing. This holds for constant and non-constant sequences of any size, including empty ones.',
     ['inputs'], 'every size and every index, including indices near the maximum',
     'No test calls checked access with a bad index.', ['BitVector.hpp', 'FitVector.hpp', 'DacVector.hpp'], [('range test in at()', 'BitVector.hpp'), ('range test in at()', 'FitVector.hpp'), ('range test in at()', 'DacVector.hpp')],
     AI, 'proof', UNIV + TB)
prop('D01', 'The variable-length integer sequence returns the integers it was built from',
     'A directly-addressable variable-length-code sequence built from any integers, with automatically chosen or explicitly given unit widths that together cover the largest one, returns each of them by index, by iteration and at the ends, and reports their number.',
     ['inputs'], 'every sequence of integers (bounded number), every list of unit widths tried', 'The tests build two random sequences.',
     ['DacVector.hpp', 'calc.hpp'], [('layers and continuation bits', 'DacVector.hpp'), ('choice of widths', 'calc.hpp')], AI, 'other', BND + SMALL + TB)
prop('S01', 'A container read back from what was written equals the one written',
     'For every serialisable container, writing it and reading the bytes into another object of the same type yields a container with the same size and elements and the same answers, whatever the reading object held before. Reading consumes exactly the bytes that were written, so that several containers can be stored one after another.',
     ['inputs', 'histories'], 'every contents; sizes around every boundary, including empty; every previous state of the reading object',
     'The tests serialise two containers into fresh objects and never check what remains in the stream.',
     ['basic.hpp', 'BitVector.hpp', 'FitVector.hpp', 'MultipleVector.hpp', 'MultiBitVector.hpp', 'SuccinctBitVector.hpp', 'DacVector.hpp', 'WaveletTree.hpp', 'string_util/Samc.hpp'], [('read_*/write_* helpers', 'basic.hpp'), ('Read/Write members', 'DacVector.hpp')], AI, 'other', BND + SMALL + TB)
prop('Q01', 'Queries do not modify the object they are asked of',
     'No operation that is callable on a constant object changes that object, anything it owns, or any process-wide state, so that any number of threads may query one object at the same time and a query repeated gives the same answer.',
     ['schedules', 'histories'], 'every query, every interleaving of queries', 'The tests are single threaded and compare answers only once.',
     ['BitVector.hpp', 'FitVector.hpp', 'DacVector.hpp', 'CHT.hpp', 'WaveletTree.hpp'], [('const member functions', 'DacVector.hpp')], 'effect analysis: abstract interpretation of the compiled IR in which every store of a query to memory that existed before it is a violation', 'other', BND + 'Every query of 19 containers, each at three sizes and before and after a change. Distinct threads are not modelled: that no query writes shared memory is what makes concurrent queries safe. ' + TB)
prop('V01', 'Copies and moved-to objects do not depend on the original',
     'A copied, assigned, swapped or moved-to container keeps working, with the same contents, after the original is modified or destroyed, and changes made to one never show in the other. A moved-from container can be assigned again and destroyed.',
     ['histories'], 'every container, every order of copying, modifying and destroying', 'The tests never destroy an original.',
     ['BitVector.hpp', 'CHT.hpp', 'CDRWArray.hpp'], [('value members only', 'CHT.hpp')], AI, 'other', BND + '19 containers at three sizes, ten orders of copying, assigning, moving, swapping, changing and destroying; element values arbitrary. ' + TB)
prop('H01', 'Every header can be used alone, in any combination and in several source files',
     'Each public header compiles when it is the only one included, together with the others in any order, for each supported instruction set, with and without NDEBUG, and contributes its declarations whichever headers came before. A program whose several source files include the same headers links. The public classes, functions and members can be instantiated for the argument types they are made for.',
     ['programs', 'configurations'], 'every header, orders of inclusion, two translation units, 5 instruction-set configurations, two compilers', 'The tests include each header from one source file of one program, after others, in one configuration.',
     ['bit_util.hpp', 'DacVector.hpp', 'string_util/PatternMatching.hpp'], [('inline/template definitions and include lists', 'bit_util.hpp')], 'compile, symbol-linkage and link rules over one translation unit per header, and explicit-instantiation witnesses (two compilers, no execution)', 'other', 'The listed instantiations stand for all argument types. Trusted: g++ 13 and clang 18, nm, the linker.')
prop('Z01', 'The reported size of a container is the size of its serialised form',
     'For every serialisable container, size_in_bytes is the number of bytes that writing it produces, whatever was done to the container before, and a container read back reports the same size.',
     ['inputs', 'histories'], 'every contents and history of resizing', 'No test looks at sizes.', ['BitVector.hpp', 'FitVector.hpp', 'MultipleVector.hpp', 'MultiBitVector.hpp', 'SuccinctBitVector.hpp', 'DacVector.hpp', 'WaveletTree.hpp', 'string_util/Samc.hpp'], [('size_in_bytes and Write members', 'DacVector.hpp')], AI, 'other', BND + 'Sizes around every word and block boundary, every width. ' + TB)
prop('T01', 'Text algorithms accept any bytes',
     'Pattern matching, the factor oracle and the suffix array work on texts and keys made of any of the 256 byte values, of any length including zero, without reading or writing outside their tables or the given text.',
     ['inputs'], 'every text and key', 'The tests use ASCII words.', ['string_util/PatternMatching.hpp', 'string_util/FactorOracle.hpp', 'string_util/SuffixArray.hpp'], [('tables indexed by character', 'string_util/PatternMatching.hpp')], AI, 'other', BND + 'Texts to 8 bytes and keys to 4 bytes, every byte of them arbitrary (0..255). ' + TB)
prop('P01', 'Every matcher reports exactly the occurrences of the key',
     'Each pattern-matching algorithm returns, in increasing order, exactly the positions at which the key occurs in the text.',
     ['inputs'], 'every key and text', 'The tests use a few fixed texts and random texts over one alphabet.', ['string_util/PatternMatching.hpp', 'string_util/FactorOracle.hpp'], [('shift tables', 'string_util/PatternMatching.hpp')], AI, 'other', BND + 'Keys to 4 characters under every pattern of equal characters, two-letter keys to 7; texts to 12, arbitrary. ' + TB)
prop('I01', 'The initialisable arrays behave like arrays with constant-time reset',
     'After any sequence of writes and whole-array resets, reading a position of an initialisable array gives the value last written there since the last reset, or the reset value when there was none. Values and order of the operations are arbitrary.',
     ['histories', 'inputs'], 'every history of writes and resets', 'The test performs one scripted sequence.', ['InitializableArray.hpp'], [('back-pointer chains', 'InitializableArray.hpp')], AI, 'other', BND + 'Values, previous memory contents and the bytes of the tables are arbitrary; the order and positions of the operations are listed. ' + TB)
prop('C01', 'The compact hash table is a map',
     'After any sequence of insertions, updates and erasures of keys of the declared width, looking a key up tells whether it is present and gives the value last stored, and the reported size is the number of present keys.',
     ['histories', 'inputs'], 'every history', 'The test inserts a random set once.', ['CHT.hpp', 'BijectiveHash.hpp'], [('quotienting, displaced clusters, tombstones, rehash', 'CHT.hpp')], AI, 'other', BND + 'Arbitrary keys of 4 and 5 bits under every order of up to 4 insertions and erasures; up to 5 (6) operations over keys with neighbouring homes; load factors 10..99, initial sizes 1..16, key widths to 64. ' + TB)
prop('C02', 'The compact dynamic arrays behave like arrays of integers',
     'After any sequence of writes, growth, shrinkage and removal, reading a position of a compact rewritable array gives the value last written to it since it became part of the array, and zero if none was.',
     ['histories', 'inputs'], 'every history', 'The test writes each position once.', ['CDRWArray.hpp', 'CHT.hpp'], [('width classes in hash tables', 'CDRWArray.hpp')], AI, 'other', BND + 'Arrays of up to 4 elements with writes at arbitrary positions and every width; listed orders of up to 3 vector operations; up to 33 pushes. ' + TB)
prop('W01', 'The wavelet tree returns the symbols and ranks of its sequence',
     'A wavelet tree built from any sequence of byte symbols returns each symbol by index, the number of earlier equal symbols as the rank of a position, and for any symbol the number of its occurrences before a position.',
     ['inputs'], 'every sequence', 'The test builds one random sequence.', ['WaveletTree.hpp', 'SuccinctBitVector.hpp'], [('per-level dictionaries', 'WaveletTree.hpp')], AI, 'other', BND + SMALL + TB)
prop('G01', 'Heap operations keep the extreme element at the front and sorting sorts',
     'A heap always has an extreme element (smallest or largest, as configured) at its front, whatever was pushed and popped, keeps exactly the pushed and not yet popped elements, and the heap sort returns the input in the requested order.',
     ['inputs', 'histories'], 'every contents and history', 'The tests sort one random array.', ['Heap.hpp', 'sort.hpp'], [('sift up and down', 'Heap.hpp'), ('heap sort', 'sort.hpp')], AI, 'other', BND + 'Every contents; sizes to 33 and listed orders of pushes and pops. ' + TB)
prop('X01', 'The suffix array lists the suffixes in order',
     'For every text the suffix array is the list of its suffix positions in lexicographic order (bytes compared as unsigned), and the common-prefix array gives the length of the longest common prefix of neighbours.',
     ['inputs'], 'every text', 'No test covers the suffix array.', ['string_util/SuffixArray.hpp'], [('induced sorting', 'string_util/SuffixArray.hpp')], AI, 'other', BND + 'Arbitrary two-letter texts to 8 bytes, four-letter to 6, texts with unique letters to 12. ' + TB)
prop('F01', 'The factor oracle accepts every factor',
     'The factor oracle of a text accepts every substring of the text, and among strings of the length of the text accepts only the text.',
     ['inputs'], 'every text and every substring', 'The test uses one word.', ['string_util/FactorOracle.hpp'], [('double-array transitions', 'string_util/FactorOracle.hpp')], AI, 'other', BND + 'Texts to 6 bytes under every pattern of equal bytes, two-letter texts to 8; every substring. ' + TB)
prop('M01', 'The string dictionaries accept exactly their keys and number them one to one',
     'A string set built from sorted keys without NUL bytes accepts exactly those keys; the string dictionary gives each key a distinct number from zero and access by number returns the key.',
     ['inputs'], 'every sorted key list', 'The tests use one word list.', ['string_util/Samc.hpp', 'SuccinctBitVector.hpp'], [('code table and check bytes', 'string_util/Samc.hpp')], AI, 'other', BND + 'Every set of strings of up to two letters over two letters, looked up by arbitrary bytes of length 0..3; listed sets of up to 67 (200) words. Keys contain no NUL. ' + TB)
prop('U01', 'The trie maps keys to items',
     'The trie returns for every inserted key the item last inserted under it and nothing for any other key, whatever the bytes of the keys. Walks over the trie visit every node once and report its depth.',
     ['inputs', 'histories'], 'every history of insertions', 'The test inserts a few words.', ['string_util/graph_util.hpp'], [('edge maps', 'string_util/graph_util.hpp')], AI, 'other', BND + 'Up to three insertions of keys of up to three letters (NUL and 0xFF among them), looked up by arbitrary bytes. ' + TB)
prop('O01', 'Constant-time operations do constant work',
     'Element access, rank, checked access, iterator arithmetic, moving a container, the front of a heap, the size queries, construction and reset of the initialisable arrays take a number of steps that does not depend on the size of the container or its contents; pushing to and popping from a heap and selection take a number of steps logarithmic in the size; looking a string up in a string dictionary does not depend on the number of its keys.',
     ['inputs'], 'every size and contents', 'No test measures work; small inputs hide it.', ['SuccinctBitVector.hpp', 'InitializableArray.hpp', 'FitVector.hpp', 'Heap.hpp', 'string_util/Samc.hpp'], [('no loop over elements in the operation', 'SuccinctBitVector.hpp')], 'abstract cost analysis of the compiled IR: longest-path instruction counts of one operation at two sizes are compared', 'other', BND + 'Two sizes per operation (sixteen-fold apart), four positions, every operation listed in witness/o01_work.cpp. The cost of allocation and of the standard library counts as in its headers. ' + TB)
prop('L01', 'Structures take the space their representation promises and give it all back',
     'A bit vector of n bits takes n/8 bytes, packed integers n times their width, rank and select add a quarter and a few bytes per block, variable-length codes what their layers and the paths between them need (and the automatically chosen layer widths are the cheapest of all splits), a wavelet tree a bit and a quarter per level and symbol, the compact hash table and dynamic array storage in proportion to the largest number of keys they held (updates and moving windows of keys do not make them grow), the initialisable arrays a fixed amount however often they are rewritten or reset. Everything is given back when the structure is destroyed, assigned over, or left by an exception. Capacity may be twice what is needed, and a constant more.',
     ['inputs', 'histories'], 'every size, contents and history', 'No test measures space; a leak, a table that grows with every update or an encoding that is merely too large passes every test of values.', ['SuccinctBitVector.hpp', 'DacVector.hpp', 'calc.hpp', 'CHT.hpp', 'CDRWArray.hpp', 'InitializableArray.hpp', 'FitVector.hpp', 'BitVector.hpp', 'WaveletTree.hpp', 'MultiBitVector.hpp', 'MultipleVector.hpp'], [('cost model of the layer widths', 'calc.hpp'), ('growth and rehashing', 'CHT.hpp'), ('chain of written positions', 'InitializableArray.hpp')],
     'abstract interpretation of the compiled IR with the number of live dynamic bytes as part of the state; compared with the bound of the representation', 'other', BND + 'Listed sizes and histories; contents partly arbitrary. Allocator overhead is not counted. ' + TB, observe=['dynamic storage', 'return values'])
prop('J01', 'The words of a bit vector are aligned and lie where data() says',
     'data() of a bit vector, or of a rank dictionary over one, points to words whose first byte is at a multiple of 32, as its documentation says, and in which element i is bit i%64 of word i/64, however the vector came about: constructed, copied, moved, swapped, grown, shrunk, assigned, appended to.',
     ['inputs', 'histories'], 'every size, contents and history', 'The tests never look at addresses; an allocator without the alignment works by luck for large blocks.', ['BitVector.hpp', 'SuccinctBitVector.hpp', 'basic.hpp'], [('aligned word container', 'BitVector.hpp'), ('aligned allocator', 'basic.hpp')],
     'abstract interpretation of the compiled IR with the alignment of every allocation as part of the state', 'other', BND + 'Thirteen sizes, ten ways to make a vector; contents partly arbitrary. ' + TB, observe=['addresses', 'return values'])
prop('N01', 'Constant structures stay constant and impossible requests are refused',
     'Nothing handed out by a constant structure (element, reference, iterator, pointer, block) can be written through, no operation that changes a structure can be called on a constant one, a constant iterator or reference does not convert back to a mutable one, and template arguments and element types outside the supported range are rejected by the compiler. Requests that can only be refused at run time (access out of range, selection without its dictionary, a new value width for a table in use, the closed trie constructors, an explorer that belongs to no list) throw and leave the structure as it was.',
     ['configurations', 'inputs'], 'every use the types admit', 'A test cannot contain code that must not compile, and no test makes a refused request.', ['BitVector.hpp', 'FitVector.hpp', 'BitReference.hpp', 'BitsReference.hpp', 'MultipleVector.hpp', 'InitializableArray.hpp', 'CHT.hpp', 'SuccinctBitVector.hpp', 'string_util/Samc.hpp'], [('constant references and iterators', 'BitReference.hpp'), ('constant references and iterators', 'BitsReference.hpp'), ('constant blocks', 'MultipleVector.hpp'), ('set_value_width', 'CHT.hpp')],
     'type checking of refused uses and their allowed twins by two compilers; abstract interpretation of refused requests', 'other', BND + 'The listed uses (95) under two compilers; listed sizes of structures for run-time refusals, any index. ' + TB, observe=['accepted programs', 'exceptions', 'return values'])
prop('K01', 'The library keeps its own assertions in every valid use',
     'Compiled with its assertions, and those of the standard library, enabled, the library never ends in a failing assertion while it is used within its preconditions: what the code states about its own invariants (table slots in use, elements within width, paths that end at the root, non-empty queues) is true whenever it is stated, so a debug build serves every request a release build serves.',
     ['configurations', 'inputs', 'histories'], 'every valid use', 'The test build disables assertions; none of them is ever evaluated by a test.', ['CHT.hpp', 'CDRWArray.hpp', 'string_util/Samc.hpp', 'string_util/FactorOracle.hpp', 'MultipleVector.hpp', 'MultiBitVector.hpp', 'FitVector.hpp', 'Heap.hpp', 'InitializableArray.hpp', 'bit_util.hpp'], [('assertions of the table', 'CHT.hpp'), ('assertions of building and walking', 'string_util/Samc.hpp'), ('assertions of row access', 'MultipleVector.hpp')],
     'abstract interpretation of the IR compiled with assertions enabled; a path with a definite failing assertion is the violation', 'other', BND + 'The obligations of nineteen other witness files (those with short histories and all container types) on the code as compiled without NDEBUG and with _GLIBCXX_ASSERTIONS. ' + TB, observe=['termination'])
