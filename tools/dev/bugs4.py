import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
H = '#include <cassert>\n#include <cstdint>\n#include <cstring>\n#include <iostream>\n#include <random>\n#include <vector>\n'
mkbug('k01-chain', 'K01', 'InitializableArray.hpp', ("        assert(bi < b_ and b_ <= bj);", "        assert(bi < b_ and b_ < bj and _chained_to(bi) == kNoneBlock);"), H + '''
#include "sim_ds/InitializableArray.hpp"
int main() { sim_ds::InitializableArray<uint16_t, 64> a(5); uint16_t m[64]; for (auto &x : m) x = 5; std::mt19937 g(3); for (int r = 0; r < 50; r++) { for (int k = 0; k < 40; k++) { size_t i = g() % 64; a.set(i, m[i] = uint16_t(g())); for (size_t j = 0; j < 64; j++) if (a.get(j) != m[j]) return 2; } a.fill(uint16_t(r)); for (auto &x : m) x = uint16_t(r); } return 0; }''', 'a debug build, and a first write to the block that follows the written area', 'a wrong assertion aborts a debug build on a legal write')
