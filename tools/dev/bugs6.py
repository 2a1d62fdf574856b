import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
H = '#include <cassert>\n#include <cstdint>\n#include <cstring>\n#include <iostream>\n#include <random>\n#include <string>\n#include <vector>\n#include <unistd.h>\n'
mkbug('b01-ctz-zero', 'B01', 'bit_util.hpp', ("  return _mm_popcnt_u64((x & -x) - 1);", "  return _mm_popcnt_u64((x ^ (x - 1)) >> 1);"), H + '''
#include "sim_ds/bit_util.hpp"
int main() { for (int i = 0; i < 64; i++) if (sim_ds::bit_util::ctz(uint64_t(1) << i) != i) return 2; volatile uint64_t z = 0; return sim_ds::bit_util::ctz(uint64_t(z)) != 64; }''', 'a processor with POPCNT but without BMI1, and the word zero', 'the number of trailing zeros of zero is 63', '-mpopcnt')
mkbug('f01-shared-base', 'F01', 'string_util/FactorOracle.hpp', ("            if (not used_state_[b]) {", "            if (not used_state_[b] or transes.size() > 5) {"), H + '''
#include "sim_ds/string_util/FactorOracle.hpp"
int main() { alarm(120); for (unsigned s = 0; s < 4000; s++) { std::mt19937 g(s); std::string t; int K = 2 + g() % 20; for (int n = 1 + g() % 200; n--;) t += char(g() % K * 7 + 1); size_t n = t.size();
  std::vector<std::vector<int>> d(n + 1, std::vector<int>(256, -1)); std::vector<int> S(n + 1, -1);
  for (size_t i = 0; i < n; i++) { int c = uint8_t(t[i]); d[i][c] = i + 1; int k = S[i]; while (k >= 0 && d[k][c] < 0) { d[k][c] = i + 1; k = S[k]; } S[i + 1] = k < 0 ? 0 : d[k][c]; }
  sim_ds::FactorOracle o(t); for (size_t i = 0; i <= n; i++) for (int c = 0; c < 256; c++) { size_t st = i; bool r = o.image(st, c); if (r != (d[i][c] >= 0) || (r && st != size_t(d[i][c]))) return 1; } } return 0; }''', 'a state with more than five transitions that is moved', 'the automaton has transitions of another state')
