// Copies, assigned and moved-to containers do not depend on the original.
#include "zoo.h"
template <class Z> static void value(uint64_t how, uint64_t k, uint64_t j) {
  using C = typename Z::C; Z z; C *o = fresh(z, k, j); Z was = z;
  switch (how) {
    case 0: { C c(*o); delete o; z.ask(c); z.change(c); z.ask(c); break; }                       // copy outlives the original
    case 1: { Z other; C *q = fresh(other, 1, j + 1); C &c = *q; c = *o; delete o; z.ask(c); z.change(c); z.ask(c); delete q; break; } // assigned over other contents
    case 2: { C c(std::move(*o)); delete o; z.ask(c); z.change(c); z.ask(c); break; }
    case 3: { Z other; C *q = fresh(other, 2, j + 1); C &c = *q; c = std::move(*o); delete o; z.ask(c); z.change(c); z.ask(c); delete q; break; }
    case 4: { C c(*o); z.change(*o); was.ask(c); z.ask(*o); delete o; was.ask(c); break; }       // changes to the original stay there
    case 5: { C c(*o); was.change(c); z.ask(*o); was.ask(c); delete o; break; }                  // and the other way round
    case 6: { Z other; C *q = fresh(other, 2, j); C &c = *q; std::swap(c, *o); z.ask(c); other.ask(*o); delete o; z.ask(c); delete q; break; }
    case 7: { std::vector<C> v; v.push_back(*o); v.push_back(std::move(*o)); delete o; C c(v[0]); v.push_back(c); z.ask(v[0]); z.ask(v[1]); z.ask(v[2]); v.erase(v.begin()); z.ask(v[0]); z.ask(c); break; }
    case 8: { C c(std::move(*o)); Z other; C *q = fresh(other, 1, j); *o = *q; delete q; z.ask(c); other.ask(*o); delete o; z.ask(c); break; } // a moved-from object can be assigned
    default: { C c(*o); const C &r = c; c = r; z.ask(c); delete o; break; }
  }
}
SDS_WITNESS(W_value, "0-18;0-9;0-2;0|0-18;0-9;0-2;0-3")(uint64_t what, uint64_t how, uint64_t k, uint64_t j) {
  uint64_t i = 0;
#define ONE(...) if (what == i++) { value<__VA_ARGS__>(how, k, j); return; }
  ZOO(ONE)
  sds_stop();
} SDS_END
