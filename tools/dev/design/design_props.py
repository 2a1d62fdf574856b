HOW = {
'B01': '''
*Decided by:* `witness/b01_bits.cpp`, abstract interpretation, in five instruction-set configurations (baseline, popcnt, bmi, haswell,
avx512), because the headers contain different code for each. The 64-bit argument is 64 unknown bits; widths, masks and shift counts that
are template-like parameters are listed completely (0..64). *Oracle:* the mathematical definition written bit by bit in the obligation
(sum of bits, position of the first one, ...), compared as decision diagrams. *Bounds:* none for arguments; the 256-bit helpers are given unknown words
at every alignment offset. x86-64 only. An ISA variant in which the headers fail to compile is skipped here and reported by H01.''',
'B02': '''
*Decided by:* `witness/b02_hash.cpp`. Key = unknown bits of the width, for each width 1..64 and each family (xor-shift, multiplicative,
split-mix, both compositions). A multiplication by a constant followed by multiplication by its inverse is decided by linear forms modulo 2^w
(constant·x), xor-shifts by bit linearity. *Oracle:* ihash(hash(x)) = x and hash(ihash(x)) = x, and both fit the width. *Bounds:* none.''',
'E01': '''
*Decided by:* `witness/e01_elements.cpp`. The storage holds unknown words; the element written is at index 64a+p with a < 2^32 unknown and
each p in 0..63 listed, the value unknown within the width, for each width 0..64, bits, byte rows and 1-3 bit symbols. *Oracle:* read back
through every access path equals the value; neighbouring elements (all that share a word with it, and ends) and the size unchanged;
the words outside the touched window are the same objects. *Bounds:* indices below 2^38; symbols: a listed length.''',
'E02': '''
*Decided by:* `witness/e02_bulk.cpp`. Previous contents, including the stale bits past the size, and the requested values unknown; old size, new size, start and
end positions listed around every word boundary (in `thorough` every pair of 0..193). *Oracle:* element-wise definition. *Bounds:* listed sizes.''',
'E03': '''
*Decided by:* `witness/e03_iterators.cpp`. Iterators at 64a+p (a unknown, p every residue), distance an unknown of either sign; every width 1..64.
*Oracle:* arithmetic on positions by linear forms. *Bounds:* positions below 2^38. Iterators of width-0 elements are excluded (difference is undefined there).''',
'R01': '''
*Decided by:* `witness/r01_rank.cpp`. All bits of the sequence unknown; sizes around word, block (256/512) and multi-block boundaries; every rank
position near a boundary. Counters are BDD-summed numbers; the two-level counter fields are checked by the same values. Rare-symbol and all-ones
contents separately; `W_rank_wide` has more than 2^25 bits with a dense region near the end so that narrowed counters show. *Oracle:* prefix sum of the unknown bits.
*Bounds:* listed sizes; symbol sequences where positions of the rare symbol are listed.''',
'R02': '''
*Decided by:* `witness/r02_select.cpp`. select(k) over sparse unknown patterns: listed positions of ones with unknown presence and gaps, and all-unknown words; sizes up to
several blocks, `W_select_wide` more than 2^16 blocks. *Oracle:* the position of the k-th one of the pattern, and rank(select(k)) = k with bit select(k) set. *Bounds:* listed patterns and sizes.''',
'A01': '''
*Decided by:* `witness/a01_checked.cpp`. Size 64s+p and index 64a+q with unknown s, a and an unknown relation between them; the exception edge of the
IR is interpreted, its type compared with std::out_of_range. *Oracle:* throws if and only if index >= size, otherwise the element. *Bounds:* none for bit and
integer sequences (all widths); listed sizes for DACs.''',
'D01': '''
*Decided by:* `witness/d01_dac.cpp`. Values unknown below listed bit lengths (so that each choice of the width optimiser is taken on purpose),
0-4 elements fully unknown, up to 1100 with listed magnitudes, explicit unit lists; `W_dac_wide` more than 2^16 elements. *Oracle:* the values. *Bounds:* listed lengths and magnitudes;
obligations in which the optimiser's choice depends on unknown bits are split on the magnitude of each value.''',
'S01': '''
*Decided by:* `witness/s01_streams.cpp`, `s01_samc.cpp`. Containers with unknown contents are written into a modelled stream buffer, then read into
an object that is fresh, or held something larger, smaller, of another width. *Oracle:* element-wise equality and equal answers, the read position equals the write position,
and a sentinel word after the container is read back unharmed. *Bounds:* listed sizes, including empty.''',
'W01': '''
*Decided by:* `witness/w01_wavelet.cpp`. Short sequences (1-4 symbols) of fully unknown symbols of 1-8 bits; long ones (65..1030, wide more than 2^16) with unknown bits at listed places. *Oracle:* prefix counts of equal symbols for access, rank
of a position and rank of any symbol up to 255. *Bounds:* listed lengths.''',
'I01': '''
*Decided by:* `witness/i01_init.cpp`. The in-place array starts over storage of *unknown* contents, which covers everything an earlier life of the memory could have left, so that a
forged back pointer is one of the valuations. Values unknown; positions and the order of set/reset/get listed, element types of 8 to 64 bits. *Oracle:* a plain array with a reset. *Bounds:* listed histories.''',
'G01': '''
*Decided by:* `witness/g01_heap.cpp`. Contents unknown (2-6 bits or full words in small heaps, constants permuted in larger ones); histories of push and pop are all bit strings of 7 (10) operations. *Oracle:* the front is a minimum (maximum) of what is in it;
the multiset of popped elements is the multiset pushed (counted per value); sort = sorted permutation. *Bounds:* listed sizes and histories.''',
'P01': '''
*Decided by:* `witness/p01_match.cpp`. Keys: every pattern of equal and different characters up to length 4 (5, 6), two-letter keys up to 7 (10); texts of unknown characters up to 12. All seven matchers. Listed texts of up to 150 bytes with keys of up to 70 cut out of them, some text bytes unknown. *Oracle:* the naive definition evaluated
symbolically. *Bounds:* listed lengths.''',
'F01': '''
*Decided by:* `witness/f01_oracle.cpp`. Texts: every pattern of equal characters to 6 (7) over four palettes, two-letter texts to 8 (11), byte-covering texts of 254..520; queries of unknown bytes. *Oracle:* every factor accepted, nothing else of full length, nothing longer, explorer consistent. Listed texts of up to 300 bytes of several shapes, with full-length queries in which one byte is unknown. *Bounds:* listed.''',
'X01': '''
*Decided by:* `witness/x01_suffix.cpp`. Texts of unknown letters over two (to 8) and four letters (to 6), 12-byte texts with listed unique letters, bytes above 0x7F. *Oracle:* strictly increasing suffixes compared as unsigned bytes, permutation, common prefixes. *Bounds:* listed; induced sorting on unknown texts forks on type patterns.''',
'T01': '''
*Decided by:* `witness/t01_bytes.cpp`. Text and key bytes fully unknown (all 256 values); empty texts and keys; the rule is that no access leaves an object and the result is that of the definition. *Bounds:* texts to 8 (10) bytes, keys to 4 and listed two-letter keys to 7, each of the 256 letters in one position of longer ones.''',
'C01': '''
*Decided by:* `witness/c01_hash.cpp`. Keys of 4 and 5 bits *unknown*, so that every collision pattern is one valuation, under every order of up to 4 (5) insertions and erasures; longer histories over 4 keys with listed neighbouring homes and unknown choice among them; growth and churn over many listed keys with unknown values.
Several hash families including identity, load factors 10-99, initial sizes, value widths. *Oracle:* a table of all keys. *Bounds:* listed. Some histories whose probe loops depend on too many unknowns are undecided.''',
'C02': '''
*Decided by:* `witness/c02_dynamic.cpp`. Up to 4 elements with writes at unknown positions and values of unknown length; vectors under listed orders of push, pop, resize, shrink, write; growth to 33. *Oracle:* a plain array. *Bounds:* listed.''',
'M01': '''
*Decided by:* `witness/m01_dict.cpp`. All 127 sets of strings of up to two letters over two letters, 64 (300) generated sets of a dozen strings of mixed lengths, word lists of up to 67 (200); queries of unknown bytes of length 0..4. *Oracle:* membership by comparison; numbers distinct and below the number of keys; access inverts lookup. *Bounds:* listed sets.''',
'U01': '''
*Decided by:* `witness/u01_trie.cpp`. Up to three insertions of keys of 0-3 letters (NUL and 0xFF among them), items unknown, queries of unknown bytes; walks of all shapes generated. *Oracle:* a list of pairs. *Bounds:* listed key triples.''',
'V01': '''
*Decided by:* `witness/v01_values.cpp` over the 19 container types of `witness/zoo.h`. Ten orders of copy, copy-assign, self-assign, move, swap, modify, destroy; after the original is destroyed its memory is dead, so a pointer left into it is a lifetime violation of the next query. *Oracle:* answers recorded before. *Bounds:* three sizes.''',
'Q01': '''
*Decided by:* `witness/q01_queries.cpp`, the effect rule of 1.2 over every const-callable operation of the 19 containers, the matchers, and free functions with statics. A store to `mutable` members, owned heap, globals or function-local statics inside a query is the violation. *Bounds:* three sizes; first and repeated query. A lock or atomic around a cache would be flagged as well: that is a benign case the rule cannot tell apart, and no such code exists here.''',
'Z01': '''
*Decided by:* `witness/z01_sizes.cpp`. size_in_bytes against the number of bytes that arrive in the modelled stream, contents unknown, every width, histories of shrinking and growing. *Bounds:* listed sizes.''',
'H01': '''
*Decided by:* `tools/headers.py` and `witness/h01_instances.cpp`, the rules of 1.4. *Bounds:* orders: each header first, each after all others; two compilers; five instruction sets; the listed instantiations.''',
'O01': '''
*Decided by:* `witness/o01_work.cpp`, the abstract cost of 1.3. *Bounds:* two sizes, four positions (start, middle, end, one interior) per operation.''',
'L01': '''
*Decided by:* `witness/l01_space.cpp`, with the number of live dynamic bytes carried in the abstract state (added and subtracted at every allocation and release, unknown where joined paths differ; storage of exception objects
does not count). *Oracle:* the bound of the representation at that size; the amount before the structure was made equals the amount after it is gone (19 container types, five orders of copies, moves, swaps and self-assignment, and exceptions); the automatic DAC
widths against all 2^(b-1) splits of up to 8 bits. *Why:* a table that grows with every update, or a layer optimiser that charges the wrong count, returns every value right.
*Bounds:* listed sizes and histories; room for doubling and a constant is allowed, so a waste below that is not seen; allocator overhead is not counted.''',
'J01': '''
*Decided by:* `witness/j01_words.cpp`. The alignment each allocation was requested with is part of the abstract object; a pointer is aligned when object alignment and offset prove it. *Oracle:* 32 bytes as documented at data(); words against the unknown elements. *Bounds:* listed sizes and ways.''',
'N01': '''
*Decided by:* `tools/refused.py` over `witness/n01_refused.txt`: per line a use that must compile and a twin that must not, each type-checked alone by g++ and clang against all headers (precompiled). The allowed twin guards against
refusals for another reason; if it does not compile the line is undecided. Run-time refusals: `witness/n01_requests.cpp` (kind of exception, and every answer afterwards). *Oracle:* acceptance by the compiler. *Bounds:* 95 listed uses; `thorough` repeats them in five instruction sets, with and without NDEBUG.''',
'K01': '''
*Decided by:* nineteen witness files of other properties (selected obligations, `DEBUG` in `tools/props.py`) interpreted over the code compiled without NDEBUG and with `_GLIBCXX_ASSERTIONS`. *Rule:* no feasible path within the preconditions reaches a failing
assertion (`abort` findings only; what else is violated there is reported by the property that owns it). *Bounds:* as in those files. It found the assertion that no key contains 0xFF in SamcDict::access (fixed).''',
}
