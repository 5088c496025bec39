// Key generation: C20 (sequential part; the lock discipline is a structural rule).
#include "vp.hpp"
#include "curves/LocalSupport2CoefficientManager.hpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;
using M = LocalSupport2CoefficientManager<double>;

// from any state of the counter, a later key is larger than an earlier one: no key ever returns
void vp_entry_C20_increasing(int n) {
  if (!vp_havoc_counter("state")) { vp_check(true, "the counter's state is not a single number: only histories are examined"); return; }
  unsigned long last = KeyGenerator::getNextKey();
  for (int i = 0; i < n; ++i) {
    const unsigned long k = KeyGenerator::getNextKey();
    vp_check(k > last, "from every state of the counter the next key is larger than the one before");
    last = k;
  }
}
VP_RUN(vp_entry_C20_increasing, 1, 2, 5)

// the same around every constant the code mentions
void vp_entry_C20_around(unsigned long state) {
  if (!vp_havoc_counter("state", state)) return;
  unsigned long last = KeyGenerator::getNextKey();
  for (int i = 0; i < 3; ++i) {
    const unsigned long k = KeyGenerator::getNextKey();
    vp_check(k > last, "the key after a given one is larger");
    last = k;
  }
}
VP_RUN(vp_entry_C20_around, 0, 255, 65535, 2147483647, 4294967295, #)

void vp_entry_C20_history(int n) {
  std::vector<unsigned long> seen;
  for (int i = 0; i < n; ++i) {
    const unsigned long k = KeyGenerator::getNextKey();
    for (int j = 0; j < i; ++j) vp_check(k != seen[j], "no key is returned twice");
    seen.push_back(k);
  }
}
VP_RUN(vp_entry_C20_history, 3, 20, @)
VP_MORE(vp_entry_C20_history, 70)

// keys of different managers (and of a copy that goes on inserting) are all different
void vp_entry_C20_managers(int a) {
  M m, n;
  std::vector<Key> k;
  const std::vector<double> t{1.0, 2.0}, v{vp_real("v", 0), vp_real("v", 1)};
  for (int i = 0; i < 5; ++i) {
    M& x = i % 2 ? n : m;
    const double time = 10.0 + i;
    const int how = (a >> i) % 3;
    if (how == 0) k.push_back(x.insertCoefficient(time, vp_real("u", i)));
    if (how == 1) x.addCoefficientAtEnd(time, vp_real("u", i), &k);
    if (how == 2) k.push_back(KeyGenerator::getNextKey());
    if (i == 2 && a % 2) { n.clear(); n.insertCoefficients(t, v, &k); }
    if (i == 3 && a % 4 == 3) { M c(m); k.push_back(c.insertCoefficient(100.0, 1.0)); }
  }
  for (size_t i = 0; i < k.size(); ++i)
    for (size_t j = 0; j < i; ++j) vp_check(k[i] != k[j], "keys of all managers are different");
}
VP_RUN(vp_entry_C20_managers, 0..31)
