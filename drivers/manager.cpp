// The coefficient manager: C14 (two indices), C15 (insertion), C16 (bracketing), C17 (enumerations), C18 (absent entries).
#include <cmath>
#include <vector>
#include "vp.hpp"
#include "curves/LocalSupport2CoefficientManager.hpp"
#include "curves/src/KeyGenerator.cpp"
using curves::Key;

namespace {

using Manager = curves::LocalSupport2CoefficientManager<double>;

// What the manager should hold: the entries it was given, in no particular order.
struct Model {
  std::vector<double> time, value;
  std::vector<Key> key;
  std::vector<char> live;
  void add(double t, double v, Key k, bool on = true) {
    time.push_back(t);
    value.push_back(v);
    key.push_back(k);
    live.push_back(on);
  }
  int size() const { return static_cast<int>(time.size()); }
  int count() const {
    int n = 0;
    for (int i = 0; i < size(); ++i) n += live[i] ? 1 : 0;
    return n;
  }
};

// n entries at strictly increasing unknown times, inserted in the order of one of several permutations
void build(Manager& m, Model& s, int n, int order) {
  for (int i = 1; i < n; ++i) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
  std::vector<Key> keys(n);
  for (int j = 0; j < n; ++j) {
    int i = j;
    if (order == 1) i = n - 1 - j;
    if (order == 2) i = (j + 1) % n;
    keys[i] = m.insertCoefficient(vp_real("t", i), vp_real("v", i));
  }
  for (int i = 0; i < n; ++i) s.add(vp_real("t", i), vp_real("v", i), keys[i]);
}

void agree(const Manager& m, const Model& s) {
  m.checkInternalConsistency();
  vp_check(m.size() == static_cast<size_t>(s.count()), "as many entries as times held");
  vp_check(m.empty() == (s.count() == 0), "empty exactly without entries");
  for (int i = 0; i < s.size(); ++i) {
    vp_check(m.hasCoefficientWithKey(s.key[i]) == bool(s.live[i]), "a key resolves exactly while its entry is held");
    if (s.live[i]) {
      vp_eq(m.getCoefficientByKey(s.key[i]), s.value[i], "a key resolves to its coefficient");
      vp_eq(m.getCoefficientTimeByKey(s.key[i]), s.time[i], "a key resolves to its time");
      vp_check(m.hasCoefficientAtTime(s.time[i]), "a held time resolves");
    }
  }
  const double q = vp_real("probe");
  bool any = false;
  for (int i = 0; i < s.size(); ++i) any = any || (s.live[i] && s.time[i] == q);
  vp_check(m.hasCoefficientAtTime(q) == any, "exactly the held times resolve");
}

void enumerated(const Manager& m, const Model& s) {
  std::vector<double> times;
  std::vector<Key> keys;
  m.getTimes(&times);
  m.getKeys(&keys);
  vp_check(times.size() == static_cast<size_t>(s.count()), "every stored time is listed");
  vp_check(keys.size() == times.size(), "every key is listed");
  for (size_t j = 0; j < times.size(); ++j) {
    if (j > 0) vp_check(times[j - 1] < times[j], "times increase");
    bool found = false;
    for (int i = 0; i < s.size(); ++i) found = found || (s.live[i] && s.time[i] == times[j] && s.key[i] == keys[j]);
    vp_check(found, "listed time and key belong to one stored entry");
  }
}

enum { INSERT, APPEND, MOVE, UPDATE, REMOVE_KEY, REMOVE_TIME, CLEAR, BATCH_INSERT, BATCH_VALUES, BATCH_UPDATE, OPS };

// One operation on both; tag keeps the unknowns of successive operations apart.
void apply(int op, Manager& m, Model& s, int tag) {
  const double x = vp_real("x", tag), w = vp_real("w", tag);
  const int n = s.size();
  int at = -1;                                  // the model's entry at time x, if any
  for (int i = 0; i < n; ++i) if (s.live[i] && s.time[i] == x) at = i;
  if (op == INSERT) {
    const Key k = m.insertCoefficient(x, w);
    for (int i = 0; i < n; ++i) if (i == at) s.value[i] = w;
    for (int i = 0; i < n; ++i) if (i == at) vp_check(k == s.key[i], "inserting at a held time returns its key");
    for (int i = 0; i < n; ++i) if (!s.live[i]) vp_check(k != s.key[i], "a new entry gets a fresh key");
    s.add(x, w, at < 0 ? k : Key(-1), at < 0);
  } else if (op == APPEND) {
    for (int i = 0; i < n; ++i) vp_assume(!s.live[i] || s.time[i] < x);
    std::vector<Key> k;
    m.addCoefficientAtEnd(x, w, &k);
    vp_check(k.size() == 1, "appending hands out one key");
    s.add(x, w, k[0]);
  } else if (op == MOVE) {
    if (n == 0) return;
    const int i = vp_int("move", tag, 0, n - 1);
    vp_assume(s.live[i] && (at < 0 || at == i));
    Manager::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
    while (it->first != s.time[i]) ++it;
    m.modifyCoefficient(it, x, w);
    for (int j = 0; j < n; ++j) if (j == i) { s.time[j] = x; s.value[j] = w; }
  } else if (op == UPDATE) {
    if (n == 0) return;
    const int i = vp_int("update", tag, 0, n - 1);
    vp_assume(s.live[i]);
    m.updateCoefficientByKey(s.key[i], w);
    for (int j = 0; j < n; ++j) if (j == i) s.value[j] = w;
  } else if (op == REMOVE_KEY) {
    if (n == 0) return;
    const int i = vp_int("drop", tag, 0, n - 1);
    vp_assume(s.live[i]);
    m.removeCoefficientWithKey(s.key[i]);
    for (int j = 0; j < n; ++j) if (j == i) s.live[j] = false;
  } else if (op == REMOVE_TIME) {
    if (n == 0) return;
    const int i = vp_int("drop", tag, 0, n - 1);
    vp_assume(s.live[i]);
    m.removeCoefficientAtTime(s.time[i]);
    for (int j = 0; j < n; ++j) if (j == i) s.live[j] = false;
  } else if (op == CLEAR) {
    m.clear();
    for (int j = 0; j < n; ++j) s.live[j] = false;
  } else if (op == BATCH_INSERT) {
    const double y = vp_real("y", tag), u = vp_real("u", tag);
    vp_assume(at < 0);
    vp_assume(x != y);
    for (int i = 0; i < n; ++i) vp_assume(!s.live[i] || s.time[i] != y);
    std::vector<double> ts(1, x), vs(1, w);
    ts.push_back(y);
    vs.push_back(u);
    std::vector<Key> ks;
    m.insertCoefficients(ts, vs, &ks);
    vp_check(ks.size() == 2, "a batch hands out one key per element");
    s.add(x, w, ks[0]);
    s.add(y, u, ks[1]);
  } else if (op == BATCH_VALUES) {
    std::vector<double> ts, vs;
    m.getTimes(&ts);
    for (size_t j = 0; j < ts.size(); ++j) vs.push_back(vp_real("b", tag, static_cast<int>(j)));
    m.modifyCoefficientsValuesInBatch(ts, vs);
    for (int i = 0; i < n; ++i)
      for (size_t j = 0; j < ts.size(); ++j)
        if (s.live[i] && s.time[i] == ts[j]) s.value[i] = vs[j];
  } else if (op == BATCH_UPDATE) {
    if (n == 0) return;
    const int i = vp_int("update", tag, 0, n - 1);
    vp_assume(s.live[i]);
    Manager::CoefficientMap c;
    c[s.key[i]] = w;
    m.updateCoefficients(c);
    for (int j = 0; j < n; ++j) if (j == i) s.value[j] = w;
  }
}

void history(int n, int order, int first, int second) {
  Manager m;
  Model s;
  build(m, s, n, order);
  apply(first, m, s, 0);
  agree(m, s);
  if (second >= 0) {
    apply(second, m, s, 1);
    agree(m, s);
  }
}

}  // namespace

// one operation on 0..3 entries that were inserted in different orders
void vp_entry_C14_step(int a) { history(a / OPS % 4, a / OPS / 4, a % OPS, -1); }
VP_RUN(vp_entry_C14_step, 0..119)

// two operations one after the other
void vp_entry_C14_steps(int a) { history(a / OPS / OPS, 0, a % OPS, a / OPS % OPS); }
VP_RUN(vp_entry_C14_steps, 0..276, 278..299)
VP_MORE(vp_entry_C14_steps, 277, 300..399)

// moving an entry onto the time of another one is refused; onto its own time it only changes the value
void vp_entry_C14_occupied(int n) {
  Manager m;
  Model s;
  build(m, s, n, n % 3);
  const int i = vp_int("from", 0, n - 1), j = vp_int("to", 0, n - 1);
  Manager::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
  for (int k = 0; k < i; ++k) ++it;
  const bool refused = vp_aborts([&] { m.modifyCoefficient(it, s.time[j], 5.0); });
  vp_check(refused == (i != j), "moving is refused exactly onto another entry's time");
}
VP_RUN(vp_entry_C14_occupied, 1..4)

// appending at a time that is not later, whether refused or not, never leaves the indices out of step
void vp_entry_C14_appendAnywhere(int n) {
  Manager m;
  Model s;
  build(m, s, n, 0);
  const double x = vp_real("x");
  std::vector<Key> k;
  if (!vp_aborts([&] { m.addCoefficientAtEnd(x, 5.0, &k); })) {
    m.checkInternalConsistency();
    std::vector<double> times;
    m.getTimes(&times);
    vp_check(k.size() == 1 && m.hasCoefficientWithKey(k[0]), "the key handed out resolves");
    vp_eq(m.getCoefficientByKey(k[0]), 5.0, "to the coefficient stored under it");
    vp_eq(m.getCoefficientTimeByKey(k[0]), x, "and to its time");
    vp_check(m.size() == times.size(), "as many keys as times");
  }
}
VP_RUN(vp_entry_C14_appendAnywhere, 0..4)

// larger sizes, beyond whatever threshold the code distinguishes
void vp_entry_C14_large(int n) {
  if (n > 12) return;
  for (int op = 0; op < OPS; ++op) history(n, 1, op, -1);
}
VP_RUN(vp_entry_C14_large, 5, @)
// and far larger ones at given times (values unknown): growing and shrinking across every threshold, one entry at a time
void largeAgree(const Manager& m, const Model& s) {
  m.checkInternalConsistency();
  vp_check(m.size() == static_cast<size_t>(s.count()), "as many entries as times held");
  for (int i = 0; i < s.size(); ++i) {
    vp_check(m.hasCoefficientWithKey(s.key[i]) == bool(s.live[i]), "a key resolves exactly while its entry is held");
    vp_check(m.hasCoefficientAtTime(s.time[i]) == bool(s.live[i]), "a time resolves exactly while its entry is held");
    if (s.live[i]) {
      vp_eq(m.getCoefficientByKey(s.key[i]), s.value[i], "a key resolves to its coefficient");
      vp_eq(m.getCoefficientTimeByKey(s.key[i]), s.time[i], "a key resolves to its time");
    }
  }
}
void vp_entry_C14_given(int a) {
  const int n = a;
  Manager m;
  Model s;
  std::vector<Key> ks;
  for (int i = 0; i < n; ++i) {
    if (i % 3 == 0) {
      s.add(i, vp_real("v", i), m.insertCoefficient(i, vp_real("v", i)));
    } else {
      ks.clear();
      if (i % 3 == 1) m.addCoefficientAtEnd(i, vp_real("v", i), &ks);
      else m.insertCoefficients(std::vector<double>(1, i), std::vector<double>(1, vp_real("v", i)), &ks);
      s.add(i, vp_real("v", i), ks[0]);
    }
  }
  largeAgree(m, s);
  // move the last before the first, the middle past the end, the first slightly on; update the second
  const int mid = n / 2;
  Manager::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
  while (it->first != n - 1) ++it;
  m.modifyCoefficient(it, -5.0, vp_real("w", 0));
  s.time[n - 1] = -5.0;
  s.value[n - 1] = vp_real("w", 0);
  it = m.coefficientBegin();
  while (it->first != mid) ++it;
  m.modifyCoefficient(it, n + 5.0, vp_real("w", 1));
  s.time[mid] = n + 5.0;
  s.value[mid] = vp_real("w", 1);
  m.updateCoefficientByKey(s.key[1], vp_real("w", 2));
  s.value[1] = vp_real("w", 2);
  largeAgree(m, s);
  for (int i = 0; i + 1 < n; ++i) {
    const int j = i % 2 ? n - 1 - i / 2 : i / 2;
    if (i % 3) m.removeCoefficientWithKey(s.key[j]);
    else m.removeCoefficientAtTime(s.time[j]);
    s.live[j] = false;
    vp_check(m.size() == static_cast<size_t>(n - 1 - i), "removing removes one entry");
    vp_check(!m.hasCoefficientWithKey(s.key[j]), "a removed key no longer resolves");
    vp_check(!m.hasCoefficientAtTime(s.time[j]), "a removed time no longer resolves");
  }
  largeAgree(m, s);
}
VP_RUN(vp_entry_C14_given, 7, @, 258)

// ---------------------------------------------------------------- C15
// Repeated insertion at unknown (possibly equal) times: one entry per distinct time, the last value wins.
void vp_entry_C15_insert(int n) {
  Manager m;
  std::vector<double> t, v;
  std::vector<Key> k;
  size_t distinct = 0;
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("t", i));
    v.push_back(vp_real("v", i));
    k.push_back(m.insertCoefficient(t[i], v[i]));
    bool seen = false;
    for (int j = 0; j < i; ++j) {
      seen = seen || t[j] == t[i];
      vp_check((k[j] == k[i]) == (t[j] == t[i]), "keys agree exactly for equal times");
    }
    if (!seen) ++distinct;
    vp_check(m.size() == distinct, "one entry per distinct time");
  }
  for (int i = 0; i < n; ++i) {
    double last = v[i];
    for (int j = i + 1; j < n; ++j) if (t[j] == t[i]) last = v[j];
    vp_eq(m.getCoefficientByKey(k[i]), last, "the last value inserted at a time is stored");
    vp_eq(m.getCoefficientTimeByKey(k[i]), t[i], "stored under its time");
  }
}
VP_RUN(vp_entry_C15_insert, 1..4)
VP_MORE(vp_entry_C15_insert, 5)

// The key of a new entry differs from every key handed out before, also those of removed or cleared entries,
// and from those of other managers that come to hold the same entries.
void vp_entry_C15_fresh(int a) {
  const int n = 1 + a % 3, how = a / 3 % 4, with = a / 12;
  Manager m;
  Model s;
  build(m, s, n, 0);
  if (how == 0) m.clear();
  if (how == 1) m.removeCoefficientWithKey(s.key[vp_int("gone", 0, n - 1)]);
  if (how == 2) m.removeCoefficientAtTime(s.time[vp_int("gone", 0, n - 1)]);
  const double x = vp_real("x");
  bool held = false;
  std::vector<double> now;
  m.getTimes(&now);
  for (size_t i = 0; i < now.size(); ++i) held = held || now[i] == x;
  vp_assume(!held);
  std::vector<Key> k;
  if (with == 0) k.push_back(m.insertCoefficient(x, 1.0));
  if (with == 1) m.insertCoefficients(std::vector<double>(1, x), std::vector<double>(1, 1.0), &k);
  if (with == 2) {
    for (size_t i = 0; i < now.size(); ++i) vp_assume(now[i] < x);
    m.addCoefficientAtEnd(x, 1.0, &k);
  }
  vp_check(k.size() == 1, "one key for one entry");
  for (int i = 0; i < n; ++i) vp_check(k[0] != s.key[i], "a new entry gets a fresh key");
  vp_eq(m.getCoefficientByKey(k[0]), 1.0, "the fresh key resolves to the new entry");
  vp_eq(m.getCoefficientTimeByKey(k[0]), x, "the fresh key resolves to the new entry");
  vp_check(m.size() == now.size() + 1, "exactly one entry was added");
}
VP_RUN(vp_entry_C15_fresh, 0..35)

// A batch equals its elements inserted one after the other; given keys stay and one key per element follows.
void vp_entry_C15_batch(int a) {
  const int n = a % 4, before = a / 4 % 2, list = a / 8;
  Manager m, r;
  std::vector<double> t, v;
  std::vector<Key> k, k0;
  if (before) {
    m.insertCoefficient(vp_real("p"), vp_real("q"));
    r.insertCoefficient(vp_real("p"), vp_real("q"));
  }
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("t", i));
    v.push_back(vp_real("v", i));
  }
  if (list) { k.push_back(77); k.push_back(78); }
  m.insertCoefficients(t, v, &k);
  const size_t off = list ? 2 : 0;
  vp_check(k.size() == off + n, "one key per element is appended");
  if (list) vp_check(k[0] == 77 && k[1] == 78, "the list's earlier keys stay");
  for (int i = 0; i < n; ++i) k0.push_back(r.insertCoefficient(t[i], v[i]));
  vp_check(m.size() == r.size(), "as many entries as inserting one by one");
  for (int i = 0; i < n; ++i) {
    vp_eq(m.getCoefficientByKey(k[off + i]), r.getCoefficientByKey(k0[i]), "same coefficient as inserting one by one");
    vp_eq(m.getCoefficientTimeByKey(k[off + i]), t[i], "the i-th key belongs to the i-th time");
  }
  std::vector<double> a1, a2;
  m.getTimes(&a1);
  r.getTimes(&a2);
  for (size_t i = 0; i < a1.size(); ++i) vp_eq(a1[i], a2[i], "same times as inserting one by one");
  Manager q;
  q.insertCoefficients(t, v);
  if (!before) vp_check(q.size() == m.size(), "the key list is optional");
}
VP_RUN(vp_entry_C15_batch, 0..15)

void vp_entry_C15_append(int a) {
  const int n = a % 4, list = a / 4;
  Manager m;
  std::vector<Key> k;
  std::vector<double> t, v;
  if (list == 1) k.push_back(77);
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("t", i));
    v.push_back(vp_real("v", i));
    if (i > 0) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
    if (list == 2) m.addCoefficientAtEnd(t[i], v[i]);
    else m.addCoefficientAtEnd(t[i], v[i], &k);
    vp_check(m.size() == static_cast<size_t>(i + 1), "appending adds one entry");
  }
  if (list == 2) {
    m.getKeys(&k);
  }
  const size_t off = list == 1 ? 1 : 0;
  vp_check(k.size() == off + n, "one key per appended entry");
  if (list == 1) vp_check(k[0] == 77, "the list's earlier keys stay");
  for (int i = 0; i < n; ++i) {
    vp_eq(m.getCoefficientByKey(k[off + i]), v[i], "the key resolves to the appended coefficient");
    vp_eq(m.getCoefficientTimeByKey(k[off + i]), t[i], "the key resolves to the appended time");
    for (int j = 0; j < i; ++j) vp_check(k[off + i] != k[off + j], "keys are distinct");
  }
  // anything but a later time is refused
  if (n > 0) {
    const double x = vp_real("x");
    const bool refused = vp_aborts([&] { m.addCoefficientAtEnd(x, 1.0); });
    vp_check(refused == (x <= t[n - 1]), "exactly times after the last can be appended");
  }
}
VP_RUN(vp_entry_C15_append, 0..11)

// many elements at once: keys and values stay in step
void vp_entry_C15_many(int n) {
  Manager m;
  std::vector<double> t, v;
  std::vector<Key> k(1, Key(77));
  for (int i = 0; i < n; ++i) {
    const int j = n % 2 ? i : n - 1 - i;
    t.push_back(vp_real("t", j));
    v.push_back(vp_real("v", j));
    if (i > 0) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
  }
  m.insertCoefficients(t, v, &k);
  vp_check(k.size() == static_cast<size_t>(n + 1) && k[0] == 77, "one key per element is appended");
  vp_check(m.size() == static_cast<size_t>(n), "one entry per distinct time");
  for (int i = 0; i < n; ++i) {
    vp_eq(m.getCoefficientByKey(k[1 + i]), v[i], "the i-th key belongs to the i-th value");
    vp_eq(m.getCoefficientTimeByKey(k[1 + i]), t[i], "the i-th key belongs to the i-th time");
    for (int j = 0; j < i; ++j) vp_check(k[1 + j] != k[1 + i], "keys are distinct");
  }
  std::vector<Key> again;
  for (int i = 0; i < n; ++i) v[i] = vp_real("w", i);
  m.insertCoefficients(t, v, &again);
  vp_check(m.size() == static_cast<size_t>(n) && again.size() == static_cast<size_t>(n), "inserting at held times adds nothing");
  for (int i = 0; i < n; ++i) {
    vp_check(again[i] == k[1 + i], "inserting at a held time returns its key");
    vp_eq(m.getCoefficientByKey(k[1 + i]), v[i], "inserting at a held time overwrites the value");
  }
}
VP_RUN(vp_entry_C15_many, 6, 9, @)

void vp_entry_C15_mismatch(int a) {
  Manager m;
  std::vector<double> t(a % 3), v(a / 3);
  const bool refused = vp_aborts([&] { m.insertCoefficients(t, v); });
  vp_check(refused == (a % 3 != a / 3), "lists of different length are refused");
}
VP_RUN(vp_entry_C15_mismatch, 1, 2, 3, 5, 6, 7)

// ---------------------------------------------------------------- C16
void vp_entry_C16_bracket(int a) {
  const int n = a % 8, order = a / 8;
  Manager m;
  Model s;
  build(m, s, n, order);
  const double x = vp_real("x");
  Manager::CoefficientIter i0 = m.coefficientEnd(), i1 = m.coefficientEnd();
  const Manager& c = m;
  const Manager::CoefficientIter e = c.coefficientEnd();
  i0 = e;
  i1 = e;
  const bool ok = c.getCoefficientsAt(x, &i0, &i1);
  const bool inside = n >= 2 && vp_real("t", 0) <= x && x <= vp_real("t", n - 1);
  vp_check(ok == inside, "succeeds exactly for covered times");
  if (!ok) {
    vp_check(i0 == e && i1 == e, "failure leaves the outputs untouched");
    return;
  }
  vp_check(i0 != e && i1 != e, "success delivers entries");
  int k = n - 2;
  for (int i = 0; i + 1 < n; ++i) if (vp_real("t", i) <= x && x < vp_real("t", i + 1)) k = i;
  for (int i = 0; i + 1 < n; ++i) {
    if (i == k) {
      vp_eq(i0->first, s.time[i], "first entry is the latest not after the time");
      vp_eq(i1->first, s.time[i + 1], "second entry is its successor");
      vp_check(i0->second.key == s.key[i] && i1->second.key == s.key[i + 1], "entries carry their keys");
      vp_eq(i0->second.coefficient, s.value[i], "entries carry their coefficients");
      vp_eq(i1->second.coefficient, s.value[i + 1], "entries carry their coefficients");
    }
  }
}
VP_RUN(vp_entry_C16_bracket, 0..7, 10..13, 18..20)

// the same after any one operation, and for larger sizes
void bracketed(const Manager& c, int probe) {
  std::vector<double> times;
  std::vector<Key> keys;
  c.getTimes(&times);
  c.getKeys(&keys);
  const int n = static_cast<int>(times.size());
  const double x = vp_real("x", probe);
  const Manager::CoefficientIter e = c.coefficientEnd();
  Manager::CoefficientIter i0 = e, i1 = e;
  const bool ok = c.getCoefficientsAt(x, &i0, &i1);
  vp_check(ok == (n >= 2 && times[0] <= x && x <= times[n - 1]), "succeeds exactly for covered times");
  if (!ok) {
    vp_check(i0 == e && i1 == e, "failure leaves the outputs untouched");
    return;
  }
  for (int i = 0; i + 1 < n; ++i)
    if (times[i] <= x && (x < times[i + 1] || i + 2 == n)) {
      vp_eq(i0->first, times[i], "first entry is the latest not after the time");
      vp_eq(i1->first, times[i + 1], "second entry is its successor");
      vp_check(i0->second.key == keys[i] && i1->second.key == keys[i + 1], "entries carry their keys");
      vp_eq(i0->second.coefficient, c.getCoefficientByKey(keys[i]), "entries carry their coefficients");
      vp_eq(i1->second.coefficient, c.getCoefficientByKey(keys[i + 1]), "entries carry their coefficients");
    }
}
void vp_entry_C16_after(int a) {
  Manager m;
  Model s;
  build(m, s, a / OPS, 0);
  bracketed(m, 1);
  apply(a % OPS, m, s, 0);
  bracketed(m, 2);
}
VP_RUN(vp_entry_C16_after, 0..39)
void vp_entry_C16_many(int n) {
  Manager m;
  Model s;
  build(m, s, n, n % 3);
  bracketed(m, 1);
}
VP_RUN(vp_entry_C16_many, 9, @)

// ---------------------------------------------------------------- C17
void vp_entry_C17_lists(int a) {
  Manager m;
  Model s;
  build(m, s, a / OPS % 4, a / OPS / 4);
  apply(a % OPS, m, s, 0);
  enumerated(m, s);
  std::vector<Key> keys, more;
  m.getKeys(&keys);
  more.push_back(99);
  m.appendKeys(&more);
  vp_check(more.size() == keys.size() + 1 && more[0] == 99, "appending keeps the given keys");
  for (size_t i = 0; i < keys.size(); ++i) vp_check(more[i + 1] == keys[i], "appended keys are the stored ones in order");
  more.resize(1);
  m.getKeys(&more);
  vp_check(more.size() == keys.size(), "listing clears the given keys");
  std::vector<double> times(2, 5.0);
  m.getTimes(&times);
  vp_check(times.size() == keys.size(), "listing clears the given times");
  if (!times.empty()) {
    vp_eq(m.getMinTime(), times[0], "first time is the smallest stored");
    vp_eq(m.getMaxTime(), times[times.size() - 1], "last time is the largest stored");
  } else {
    vp_eq(m.getMinTime(), 0.0, "an empty manager starts at zero");
    vp_eq(m.getMaxTime(), 0.0, "an empty manager ends at zero");
  }
  Manager::CoefficientMap all;
  all[Key(-2)] = 3.0;
  m.getCoefficients(&all);
  vp_check(all.size() == m.size() + 1, "the full query adds every coefficient");
  for (int i = 0; i < s.size(); ++i)
    if (s.live[i]) {
      vp_check(all.count(s.key[i]) == 1, "every coefficient is delivered");
      vp_eq(all[s.key[i]], s.value[i], "with its value");
    }
}
VP_RUN(vp_entry_C17_lists, 0..79)
// a reused output holds the stored values afterwards, whatever it held before
void vp_entry_C17_reused(int n) {
  Manager m;
  Model s;
  build(m, s, n, n % 3);
  Manager::CoefficientMap all, range;
  for (int i = 0; i < n; ++i) all[s.key[i]] = range[s.key[i]] = vp_real("old", i);
  m.getCoefficients(&all);
  m.getCoefficientsInRange(s.time[0], s.time[n - 1], &range);
  for (int i = 0; i < n; ++i) {
    vp_eq(all[s.key[i]], s.value[i], "the full query delivers the stored values");
    vp_eq(range[s.key[i]], s.value[i], "the range query delivers the stored values");
  }
  apply(UPDATE, m, s, 0);
  apply(UPDATE, m, s, 1);
  m.getCoefficients(&all);
  m.getCoefficientsInRange(s.time[0], s.time[n - 1], &range);
  for (int i = 0; i < n; ++i) {
    vp_eq(all[s.key[i]], s.value[i], "the full query delivers the stored values");
    vp_eq(range[s.key[i]], s.value[i], "the range query delivers the stored values");
  }
}
VP_RUN(vp_entry_C17_reused, 1..4)
void vp_entry_C17_many(int n) {
  Manager m;
  Model s;
  build(m, s, n, n % 3);
  enumerated(m, s);
  Manager::CoefficientMap all;
  m.getCoefficients(&all);
  vp_check(all.size() == static_cast<size_t>(n), "every coefficient is delivered");
  for (int i = 0; i < n; ++i) vp_eq(all[s.key[i]], s.value[i], "with its value");
  std::vector<double> w;
  m.getTimesInWindow(&w, s.time[1], s.time[n - 1]);
  vp_check(w.size() == static_cast<size_t>(n - 1), "the window's times are listed");
  for (int i = 1; i < n; ++i) vp_eq(w[i - 1], s.time[i], "the window's times are listed");
}
VP_RUN(vp_entry_C17_many, 6, 9, @)

void vp_entry_C17_window(int a) {
  const int n = 1 + a % 4;
  Manager m;
  Model s;
  build(m, s, n, a / 4);
  const double b = vp_real("b"), e = vp_real("e");
  std::vector<double> w(2, 5.0);
  const bool refused = vp_aborts([&] { m.getTimesInWindow(&w, b, e); });
  vp_check(refused == (e != s.time[n - 1] || b < s.time[0]), "served exactly for windows inside that end at the last time");
  if (refused) return;
  size_t k = 0;
  for (int i = 0; i < n; ++i)
    if (s.time[i] >= b) {
      vp_check(k < w.size(), "no time of the window is missing");
      vp_eq(w[k], s.time[i], "the window lists its times in order");
      ++k;
    }
  vp_check(w.size() == k, "nothing but the window's times is listed");
}
VP_RUN(vp_entry_C17_window, 0..7)

// Every coefficient that influences [b, e] is delivered: for each covered time in it both bracketing entries.
void vp_entry_C17_range(int a) {
  const int n = a % 6;
  Manager m;
  Model s;
  build(m, s, n, a / 6);
  const double b = vp_real("b"), e = vp_real("e"), x = vp_real("x");
  Manager::CoefficientMap out;
  m.getCoefficientsInRange(b, e, &out);
  vp_check(out.size() <= static_cast<size_t>(n), "only stored coefficients are delivered");
  for (int i = 0; i < n; ++i)
    if (out.count(s.key[i])) vp_eq(out[s.key[i]], s.value[i], "a delivered coefficient has its stored value");
  size_t c = 0;
  for (int i = 0; i < n; ++i) c += out.count(s.key[i]);
  vp_check(out.size() == c, "only stored keys are delivered");
  if (b <= x && x < e && n >= 1) {
    for (int i = 0; i < n; ++i) {
      if (s.time[i] == x) vp_check(out.count(s.key[i]) == 1, "a coefficient inside the range is delivered");
      if (i + 1 < n && s.time[i] <= x && x < s.time[i + 1] && s.time[i] < x)
        vp_check(out.count(s.key[i]) == 1 && out.count(s.key[i + 1]) == 1, "both neighbours of a time in the range are delivered");
    }
  }
  for (int i = 0; i < n; ++i) {
    if (i + 1 < n && s.time[i + 1] <= b) vp_check(out.count(s.key[i]) == 0, "coefficients before the range are left out");
    if (i > 0 && s.time[i - 1] >= e) vp_check(out.count(s.key[i]) == 0, "coefficients after the range are left out");
  }
}
VP_RUN(vp_entry_C17_range, 0..5, 9, 10)

// ---------------------------------------------------------------- C18
// Operations on absent keys and times, on managers of 0..3 entries, after removals.
void vp_entry_C18_manager(int a) {
  const int n = a % 4, op = a / 4;
  Manager m;
  Model s;
  build(m, s, n, 0);
  const double x = vp_real("x");
  bool present = false;
  for (int i = 0; i < n; ++i) present = present || s.time[i] == x;
  const Key bad = Key(12345678);
  Key gone = bad;
  if (n > 0) {
    const int i = vp_int("gone", 0, n - 1);
    if (op == 5) {
      gone = s.key[i];
      m.removeCoefficientWithKey(gone);
    }
  }
  if (op == 0 || op == 5) {
    const Key k = op == 0 ? bad : gone;
    vp_check(vp_aborts([&] { m.getCoefficientByKey(k); }), "an absent key is refused by the value query");
    vp_check(vp_aborts([&] { m.getCoefficientTimeByKey(k); }), "an absent key is refused by the time query");
    vp_check(vp_aborts([&] { m.updateCoefficientByKey(k, 1.0); }), "an absent key is refused by the update");
    vp_check(vp_aborts([&] { m.removeCoefficientWithKey(k); }), "an absent key is refused by the removal");
    Manager::CoefficientMap c;
    c[k] = 1.0;
    vp_check(vp_aborts([&] { m.updateCoefficients(c); }), "an absent key is refused by the batch update");
    for (int i = 0; i < n; ++i)
      if (s.key[i] != k) {
        c[s.key[i]] = 2.0;
        vp_check(vp_aborts([&] { m.updateCoefficients(c); }), "an absent key among others is refused by the batch update");
      }
    vp_check(!m.hasCoefficientWithKey(k), "an absent key is not reported present");
  } else if (op == 1) {
    const bool refused = vp_aborts([&] { m.removeCoefficientAtTime(x); });
    vp_check(refused == !present, "removal is refused exactly for absent times");
  } else if (op == 2) {
    std::vector<double> t(1, x), v(1, 1.0);
    const bool refused = vp_aborts([&] { m.modifyCoefficientsValuesInBatch(t, v); });
    vp_check(refused == !present, "batch change is refused exactly for absent times");
  } else if (op == 3) {
    std::vector<double> t(1, x), v(2, 1.0);
    t.push_back(vp_real("y"));
    bool second = false;
    for (int i = 0; i < n; ++i) second = second || s.time[i] == vp_real("y");
    const bool refused = vp_aborts([&] { m.modifyCoefficientsValuesInBatch(t, v); });     // past the last entry: no undefined behaviour
    vp_check(refused || (present && second), "a batch that names an absent time is refused");
    std::vector<double> none;
    m.modifyCoefficientsValuesInBatch(none, none);
    vp_check(vp_aborts([&] { m.modifyCoefficientsValuesInBatch(t, none); }), "lists of different length are refused");
  } else if (op == 4) {
    Manager::CoefficientMap out;
    m.getCoefficientsInRange(x, vp_real("y"), &out);
    m.getCoefficients(&out);
    Manager::CoefficientIter i0, i1;
    m.getCoefficientsAt(x, &i0, &i1);
    m.getMinTime();
    m.getMaxTime();
    std::vector<double> w;
    vp_aborts([&] { m.getTimesInWindow(&w, x, vp_real("y")); });
    m.checkInternalConsistency();
    vp_check(m.size() == static_cast<size_t>(n), "queries leave the entries alone");
    vp_aborts([&] { m.addCoefficientAtEnd(x, 2.0); });
    if (n > 0) {
      const int i = vp_int("at", 0, n - 1);
      Manager::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
      for (int j = 0; j < i; ++j) ++it;
      vp_aborts([&] { m.modifyCoefficient(it, vp_real("z"), 3.0); });
    }
  } else if (op == 6) {
    vp_check(vp_aborts([&] { m.getKeys(nullptr); }), "a missing output is refused");
    vp_check(vp_aborts([&] { m.appendKeys(nullptr); }), "a missing output is refused");
    vp_check(vp_aborts([&] { m.getTimes(nullptr); }), "a missing output is refused");
    vp_check(vp_aborts([&] { m.getTimesInWindow(nullptr, x, vp_real("y")); }), "a missing output is refused");
    Manager::CoefficientIter i0;
    vp_check(vp_aborts([&] { m.getCoefficientsAt(x, nullptr, &i0); }), "a missing output is refused");
    vp_check(vp_aborts([&] { m.getCoefficientsAt(x, &i0, nullptr); }), "a missing output is refused");
  }
}
VP_RUN(vp_entry_C18_manager, 0..27)

// ---------------------------------------------------------------- C29
// A copy agrees with the original and shares nothing with it: whatever is done to one leaves the other as it was.
void vp_entry_C29_manager(int a) {
  const int n = a / OPS % 3 + 1, how = a / OPS / 3;
  Manager m;
  Model s;
  build(m, s, n, 0);
  Model before = s;
  Manager other;
  if (how == 1) other.insertCoefficient(vp_real("o"), vp_real("p"));
  if (how <= 1) {
    other = m;
    agree(other, before);
    vp_check(other.equals(m) && m.equals(other), "a copy equals the original");
    apply(a % OPS, m, s, 0);
    agree(other, before);
    enumerated(other, before);
  } else {
    Manager copy(m);
    agree(copy, before);
    apply(a % OPS, copy, s, 0);
    agree(copy, s);
    agree(m, before);
    copy = copy;
    agree(copy, s);
    Manager* heap = new Manager(m);
    Manager third(*heap);
    delete heap;
    agree(third, before);
    apply(a % OPS, third, before, 1);
    agree(third, before);
  }
}
VP_RUN(vp_entry_C29_manager, 0..89)
// copies of an empty manager, and chains of assignments
void vp_entry_C29_managerEmpty(int n) {
  Manager m, other, third;
  Model s, none;
  build(other, s, n, 0);
  third = other;
  other = m;
  agree(other, none);
  enumerated(other, none);
  agree(third, s);
  m = third;
  agree(m, s);
  enumerated(m, s);
  other = other;
  agree(other, none);
  apply(INSERT, other, none, 0);
  agree(other, none);
  agree(m, s);
}
VP_RUN(vp_entry_C29_managerEmpty, 0..3)

// ---------------------------------------------------------------- C37
// The managers of two models compare equal exactly if the models hold the same entries (differences up to the tolerance aside).
void compared(const Manager& a, const Model& s, const Manager& b, const Model& o) {
  bool same = s.count() == o.count(), near = same;
  for (int i = 0; i < s.size(); ++i)
    if (s.live[i]) {
      int j = -1;
      for (int k = 0; k < o.size(); ++k) if (o.live[k] && o.key[k] == s.key[i]) j = k;
      if (j < 0) {
        same = near = false;
      } else {
        const double dt = s.time[i] - o.time[j], dv = s.value[i] - o.value[j];
        same = same && dt == 0 && dv == 0;
        near = near && dt <= 1e-9 && dt >= -1e-9 && dv <= 1e-9 && dv >= -1e-9;
      }
    }
  const bool ab = a.equals(b), ba = b.equals(a);
  vp_check(ab == ba, "comparing is symmetric");
  vp_check(!same || ab, "managers with the same entries are equal");
  vp_check(near || !ab, "managers with different entries are not equal");
  vp_check(a.equals(a) && b.equals(b), "every manager equals itself");
}
void vp_entry_C37_changed(int a) {
  const int n = a / OPS % 4;
  Manager m;
  Model s;
  build(m, s, n, a / OPS / 4);
  Manager o(m);
  Model t = s;
  compared(m, s, o, t);
  apply(a % OPS, o, t, 0);
  compared(m, s, o, t);
}
VP_RUN(vp_entry_C37_changed, 0..39)
VP_MORE(vp_entry_C37_changed, 40..119)
// built separately from the same data: the keys differ
void vp_entry_C37_separate(int n) {
  Manager m, o;
  Model s, t;
  build(m, s, n, 0);
  build(o, t, n, 1);
  compared(m, s, o, t);
  Manager e;
  vp_check(m.equals(e) == (n == 0) && e.equals(m) == (n == 0), "only an empty manager equals an empty one");
}
VP_RUN(vp_entry_C37_separate, 0..4)
// changed and changed back, and changed alike
void vp_entry_C37_back(int n) {
  Manager m;
  Model s;
  build(m, s, n, 0);
  Manager o(m);
  o.updateCoefficientByKey(s.key[n - 1], vp_real("w"));
  o.updateCoefficientByKey(s.key[n - 1], s.value[n - 1]);
  compared(m, s, o, s);
  m.updateCoefficientByKey(s.key[0], vp_real("z"));
  o.updateCoefficientByKey(s.key[0], vp_real("z"));
  s.value[0] = vp_real("z");
  compared(m, s, o, s);
  m.removeCoefficientAtTime(s.time[0]);
  vp_check(!m.equals(o) && !o.equals(m), "different sizes are not equal");
  o.removeCoefficientWithKey(s.key[0]);
  s.live[0] = false;
  compared(m, s, o, s);
}
VP_RUN(vp_entry_C37_back, 1..4)
void vp_entry_C37_many(int n) {
  Manager m;
  Model s;
  build(m, s, n, 0);
  Manager o(m);
  vp_check(m.equals(o) && o.equals(m), "a copy equals the original");
  const double x = vp_real("x");
  vp_assume(x > s.value[n - 1] + 1 && x > s.value[0] + 1);
  o.updateCoefficientByKey(s.key[n - 1], x);
  vp_check(!m.equals(o) && !o.equals(m), "a different last value is noticed");
  o = m;
  o.updateCoefficientByKey(s.key[0], x);
  vp_check(!m.equals(o) && !o.equals(m), "a different first value is noticed");
  o = m;
  o.removeCoefficientWithKey(s.key[n - 1]);
  vp_check(!m.equals(o) && !o.equals(m), "a missing last entry is noticed");
}
VP_RUN(vp_entry_C37_many, 5, @)

// ---------------------------------------------------------------- C27
// Queries of two managers in turn, and of one again: nothing asked before shows in an answer.
void vp_entry_C27_manager(int n) {
  Manager m, o;
  Model s;
  build(m, s, n, 0);
  const Key other = o.insertCoefficient(vp_real("a"), vp_real("b"));
  o.insertCoefficient(vp_real("c"), vp_real("d"));
  const double x = vp_real("x");
  const Manager &c = m, &d = o;
  Manager::CoefficientIter i0 = c.coefficientEnd(), i1 = i0, j0 = d.coefficientEnd(), j1 = j0;
  const bool has = c.hasCoefficientAtTime(x), at = c.getCoefficientsAt(x, &i0, &i1);
  d.hasCoefficientAtTime(vp_real("y"));
  d.getCoefficientsAt(vp_real("y"), &j0, &j1);
  d.getCoefficientByKey(other);
  d.getMinTime();
  d.getMaxTime();
  std::vector<double> times;
  d.getTimes(&times);
  c.getCoefficientsAt(vp_real("y"), &j0, &j1);
  c.hasCoefficientAtTime(vp_real("y"));
  for (int i = 0; i < n; ++i) c.getCoefficientByKey(s.key[i]);
  agree(c, s);
  enumerated(c, s);
  agree(c, s);
  enumerated(c, s);
  Manager::CoefficientIter k0 = c.coefficientEnd(), k1 = k0;
  vp_check(c.hasCoefficientAtTime(x) == has, "the same query gives the same answer");
  vp_check(c.getCoefficientsAt(x, &k0, &k1) == at, "the same query gives the same answer");
  vp_check(k0 == i0 && k1 == i1, "the same query gives the same answer");
}
VP_RUN(vp_entry_C27_manager, 0..3)

// ---------------------------------------------------------------- far more entries than any small threshold or narrow counter
namespace {
void given(Manager& m, Model& s, int n) {
  for (int i = 0; i < n; ++i) {
    std::vector<Key> k;
    m.addCoefficientAtEnd(2.0 * i, vp_real("v", i), &k);
    s.add(2.0 * i, vp_real("v", i), k[0]);
  }
}
bool picked(int i, int n) { return i < 2 || i % 64 < 2 || i % 64 == 63 || i % 50 < 2 || i + 3 > n; }
}  // namespace
void vp_entry_C15_huge(int n) {
  Manager m;
  std::vector<double> t, v;
  std::vector<Key> k;
  for (int i = 0; i < n; ++i) {
    t.push_back((i * 7) % n);
    v.push_back(vp_real("v", i));
  }
  m.insertCoefficients(t, v, &k);
  vp_check(k.size() == static_cast<size_t>(n), "one key per element");
  vp_check(m.size() == static_cast<size_t>(n), "one entry per distinct time");
  for (int i = 0; i < n; ++i) {
    if (!picked(i, n)) continue;
    vp_eq(m.getCoefficientByKey(k[i]), v[i], "the i-th key belongs to the i-th value");
    vp_eq(m.getCoefficientTimeByKey(k[i]), t[i], "the i-th key belongs to the i-th time");
    vp_check(m.insertCoefficient(t[i], vp_real("w", i)) == k[i], "inserting at a held time returns its key");
    vp_eq(m.getCoefficientByKey(k[i]), vp_real("w", i), "inserting at a held time overwrites the value");
  }
  vp_check(m.size() == static_cast<size_t>(n), "inserting at held times adds nothing");
}
VP_RUN(vp_entry_C15_huge, 262)
void vp_entry_C16_huge(int n) {
  Manager m;
  Model s;
  given(m, s, n);
  for (int i = 0; i < n; ++i) {
    if (!picked(i, n)) continue;
    for (int h = 0; h < 2; ++h) {
      Manager::CoefficientIter a, b;
      const bool in = 2.0 * i + h <= 2.0 * (n - 1);
      vp_check(m.getCoefficientsAt(2.0 * i + h, &a, &b) == in, "covered times are bracketed, others refused");
      if (!in) continue;
      const int j = i + 1 < n ? i : n - 2;
      vp_eq(a->first, 2.0 * j, "first entry is the latest not after the time");
      vp_eq(b->first, 2.0 * j + 2, "second entry is its successor");
      vp_check(a->second.key == s.key[j] && b->second.key == s.key[j + 1], "entries carry their keys");
    }
  }
}
VP_RUN(vp_entry_C16_huge, 260)
void vp_entry_C17_huge(int n) {
  Manager m;
  Model s;
  given(m, s, n);
  std::vector<double> t, w;
  std::vector<Key> k;
  m.getTimes(&t);
  m.getKeys(&k);
  m.appendKeys(&k);
  vp_check(t.size() == static_cast<size_t>(n) && k.size() == static_cast<size_t>(2 * n), "every entry is listed");
  Manager::CoefficientMap all, range;
  m.getCoefficients(&all);
  m.getCoefficientsInRange(3.0, 2.0 * n - 5.0, &range);
  vp_check(all.size() == static_cast<size_t>(n), "the full query delivers every coefficient");
  vp_check(range.size() == static_cast<size_t>(n - 2), "the range query delivers those that influence the range");
  m.getTimesInWindow(&w, 2.0, 2.0 * (n - 1));
  vp_check(w.size() == static_cast<size_t>(n - 1), "the window's times are listed");
  for (int i = 0; i < n; ++i) {
    vp_eq(t[i], 2.0 * i, "times increase");
    vp_check(k[i] == s.key[i] && k[n + i] == s.key[i], "keys are those of the same entries");
    if (i > 0) vp_eq(w[i - 1], 2.0 * i, "the window's times are listed");
    if (picked(i, n)) vp_eq(all[s.key[i]], s.value[i], "with its value");
  }
  vp_eq(m.getMaxTime(), 2.0 * (n - 1), "last time");
  vp_check(m.size() == static_cast<size_t>(n), "size");
}
VP_RUN(vp_entry_C17_huge, 260)
void vp_entry_C37_huge(int n) {
  Manager m;
  Model s;
  given(m, s, n);
  Manager o(m);
  vp_check(m.equals(o) && o.equals(m), "a copy equals the original");
  const double x = vp_real("x");
  for (int i = n - 3; i < n; ++i) {
    vp_assume(x > vp_real("v", i) + 1);
    o.updateCoefficientByKey(s.key[i], x);
    vp_check(!m.equals(o) && !o.equals(m), "a different value is noticed");
    o.updateCoefficientByKey(s.key[i], vp_real("v", i));
    vp_check(m.equals(o), "entries made equal again compare equal");
  }
}
VP_RUN(vp_entry_C37_huge, 260)
