import sys; sys.path.insert(0, '/verif/tools/dev')
from mkbug import mkbug
H = '#include <cassert>\n#include <cstdint>\n#include <cstring>\n#include <iostream>\n#include <random>\n#include <vector>\n#include <unistd.h>\n'
mkbug('p01-one-letter', 'P01', 'string_util/PatternMatching.hpp', ("            const auto kmp_begin = std::max(pos, critpos);", "            const auto kmp_begin = std::max(pos > critpos ? begin + (pos - begin) / 2 : pos, critpos);"), H + '''
#include "sim_ds/string_util/PatternMatching.hpp"
int main() { alarm(20); std::mt19937 g(5); for (int r = 0; r < 3000; r++) { std::string k, t; for (int n = 1 + g() % 9; n--;) k += char('a' + g() % 3); for (int n = g() % 60; n--;) t += char('a' + g() % 3); sim_ds::pattern_matching::TurboBom m(k); if (m.find_all(t) != sim_ds::pattern_matching::PatternMatchSimple(t, k)) return 1; } return 0; }''', 'a key of one letter', 'the search for a key of one letter does not end when a letter of the text differs')
