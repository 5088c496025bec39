// The CSV helpers: C21 (round trip), C22 (failures are loud), C18 (no invalid access on malformed files).
#include <fstream>
#include "vp.hpp"
#include "curves/helpers.hpp"
#include "curves/src/helpers.cpp"
using namespace curves;

namespace {

using Rows = std::vector<std::vector<std::string> >;

std::vector<double> times(int n) {
  std::vector<double> t;
  for (int i = 0; i < n; ++i) t.push_back(vp_real("t", i));
  return t;
}

std::vector<Eigen::VectorXd> vectors(int n, int d) {
  std::vector<Eigen::VectorXd> v;
  for (int i = 0; i < n; ++i) {
    Eigen::VectorXd x(d);
    for (int j = 0; j < d; ++j) x[j] = vp_real("v", i, j);
    v.push_back(x);
  }
  return v;
}

void same(const std::vector<Eigen::VectorXd>& a, int n, int d) {
  vp_check(a.size() == static_cast<size_t>(n), "as many vectors as were written");
  for (int i = 0; i < n; ++i) {
    vp_check(a[i].size() == d, "vectors keep their dimension");
    for (int j = 0; j < d; ++j) vp_eq(a[i][j], vp_real("v", i, j), "vector components survive");
  }
}

void text(const char* name, const char* content) {
  std::ofstream f(name);
  f << content;
  f.close();
}

}  // namespace

// ---------------------------------------------------------------- C21
void vp_entry_C21_vectors(int a) {
  const int n = 1 + a % 4, d = 1 + a / 4 % 4, stale = a / 16;
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  if (stale) {
    text("f.csv", "5,6,7,8,9\n1,2,3,4,5\n1,2,3,4,5\n1,2,3,4,5\n1,2,3,4,5\n1,2,3,4,5\n");
    t.push_back(4.0);
    v.push_back(Eigen::VectorXd::Zero(3));
  }
  writeTimeVectorCSV("f.csv", times(n), vectors(n, d));
  loadTimeVectorCSV("f.csv", &t, &v);
  vp_check(t.size() == static_cast<size_t>(n), "as many times as were written");
  for (int i = 0; i < n; ++i) vp_eq(t[i], vp_real("t", i), "times survive");
  same(v, n, d);
}
VP_RUN(vp_entry_C21_vectors, 0..31)
void vp_entry_C21_many(int n) {
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  writeTimeVectorCSV("f.csv", times(n), vectors(n, 2));
  loadTimeVectorCSV("f.csv", &t, &v);
  vp_check(t.size() == static_cast<size_t>(n), "as many times as were written");
  for (int i = 0; i < n; ++i) vp_eq(t[i], vp_real("t", i), "times survive");
  same(v, n, 2);
  writeTimeVectorCSV("f.csv", times(2), vectors(2, n));
  loadTimeVectorCSV("f.csv", &t, &v);
  same(v, 2, n);
}
VP_RUN(vp_entry_C21_many, 8, @, 260)

void vp_entry_C21_twoTimes(int a) {
  const int n = 1 + a % 4, d = 1 + a / 4 % 4, stale = a / 16;
  Rows m;
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> r;
    r.push_back(toString<Time>(vp_real("t", i)));
    r.push_back(toString<Time>(vp_real("s", i)));
    for (int j = 0; j < d; ++j) r.push_back(toString<double>(vp_real("v", i, j)));
    m.push_back(r);
  }
  writeCSV("g.csv", m);
  std::vector<double> t0, t1;
  std::vector<Eigen::VectorXd> v;
  if (stale) {
    t0.push_back(4.0);
    t1.push_back(5.0);
    v.push_back(Eigen::VectorXd::Zero(3));
  }
  loadTimeTimeVectorCSV("g.csv", &t0, &t1, &v);
  vp_check(t0.size() == static_cast<size_t>(n) && t1.size() == static_cast<size_t>(n), "as many times as were written");
  for (int i = 0; i < n; ++i) {
    vp_eq(t0[i], vp_real("t", i), "first times survive");
    vp_eq(t1[i], vp_real("s", i), "second times survive");
  }
  same(v, n, d);
}
VP_RUN(vp_entry_C21_twoTimes, 0..31)

// rows of text fields come back as they were
void vp_entry_C21_fields(int a) {
  const int n = 1 + a % 3, d = 1 + a / 3;
  Rows m;
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> r;
    for (int j = 0; j < d; ++j) r.push_back(j % 2 ? std::string("x y") : toString<double>(vp_real("v", i, j)));
    m.push_back(r);
  }
  writeCSV("h.csv", m);
  const Rows b = loadCSV("h.csv");
  vp_check(b.size() == m.size(), "as many rows as were written");
  for (int i = 0; i < n; ++i) {
    vp_check(b[i].size() == m[i].size(), "as many fields as were written");
    for (int j = 0; j < d; ++j) vp_check(b[i][j] == m[i][j], "fields survive");
  }
}
VP_RUN(vp_entry_C21_fields, 0..8)

// files written with different row counts one after the other
void vp_entry_C21_overwrite(int a) {
  const int n = 1 + a % 3, k = 1 + a / 3;
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  writeTimeVectorCSV("f.csv", std::vector<double>(k, 1.0), std::vector<Eigen::VectorXd>(k, Eigen::VectorXd::Zero(2)));
  writeTimeVectorCSV("f.csv", times(n), vectors(n, 3));
  loadTimeVectorCSV("f.csv", &t, &v);
  vp_check(t.size() == static_cast<size_t>(n), "a file holds what was written last");
  same(v, n, 3);
  writeTimeVectorCSV("e.csv", times(1), vectors(1, 1));
  loadTimeVectorCSV("f.csv", &t, &v);
  vp_check(t.size() == static_cast<size_t>(n), "files of other names are left alone");
}
VP_RUN(vp_entry_C21_overwrite, 0..8)

// ---------------------------------------------------------------- C22
void vp_entry_C22_missing(int a) {
  std::vector<double> t, s;
  std::vector<Eigen::VectorXd> v;
  if (a == 1) {
    text("x.csv", "1,2,3\n");
    vp_fault("open_read", true);
  }
  if (a == 2) {
    text("x.csv", "1,2,3\n");
    vp_fault("read", true);
  }
  vp_check(vp_aborts([&] { loadCSV("x.csv"); }), "an unreadable file is reported");
  vp_check(vp_aborts([&] { loadTimeVectorCSV("x.csv", &t, &v); }), "an unreadable file is reported");
  vp_check(vp_aborts([&] { loadTimeTimeVectorCSV("x.csv", &t, &s, &v); }), "an unreadable file is reported");
}
VP_RUN(vp_entry_C22_missing, 0..2)

void vp_entry_C22_write(int a) {
  const int n = 1 + a % 3;
  vp_fault(a / 3 ? "write" : "open_write", true);
  Rows m(n, std::vector<std::string>(2, "a"));
  vp_check(vp_aborts([&] { writeCSV("x.csv", m); }), "a file that cannot be written is reported");
  vp_check(vp_aborts([&] { writeTimeVectorCSV("x.csv", times(n), vectors(n, 2)); }), "a file that cannot be written is reported");
}
VP_RUN(vp_entry_C22_write, 0..5)

// short files: which load calls may succeed
void vp_entry_C22_short(int a) {
  std::vector<double> t, s;
  std::vector<Eigen::VectorXd> v;
  const char* content[] = {"", "1\n", "1,2\n", "1,2,3\n1\n", "1,2,3\n1,2\n", "1,2,3\n\n", "1\n1,2\n", "1,2,3\n4,5,6\n7,8\n", "\n"};
  const bool one[] = {false, false, true, false, false, false, false, false, false};
  text("x.csv", content[a]);
  const bool r1 = vp_aborts([&] { loadTimeVectorCSV("x.csv", &t, &v); });
  vp_check(r1 == !one[a], "a file lacking rows or columns is reported");
  vp_check(vp_aborts([&] { loadTimeTimeVectorCSV("x.csv", &t, &s, &v); }), "a file lacking rows or columns is reported");
}
VP_RUN(vp_entry_C22_short, 0..8)

void vp_entry_C22_lists(int a) {
  const int n = a % 4, k = a / 4;
  const bool refused = vp_aborts([&] { writeTimeVectorCSV("x.csv", times(n), vectors(k, 2)); });
  vp_check(refused == (n != k || n == 0), "empty lists and lists of different length are reported");
}
VP_RUN(vp_entry_C22_lists, 0..15)

void vp_entry_C22_ragged(int a) {
  const int n = 2 + a % 3, odd = a / 3;
  if (odd >= n) return;
  for (int d = 1; d <= 3; ++d) {
    if (d == 2) continue;
    std::vector<Eigen::VectorXd> v = vectors(n, 2);
    v[odd] = Eigen::VectorXd::Zero(d);
    vp_check(vp_aborts([&] { writeTimeVectorCSV("x.csv", times(n), v); }), "vectors of different dimension are reported");
  }
}
VP_RUN(vp_entry_C22_ragged, 0..5, 7, 8, 11)

void vp_entry_C22_matrix(int a) {
  const int n = a % 4, odd = a / 4;
  Rows m(n, std::vector<std::string>(2, "a"));
  if (odd < n) m[odd].clear();
  vp_check(vp_aborts([&] { writeCSV("x.csv", m); }) == (n == 0 || odd < n), "a matrix without rows or with an empty row is reported");
}
VP_RUN(vp_entry_C22_matrix, 0..15)

void vp_entry_C22_outputs(int a) {
  std::vector<double> t, s;
  std::vector<Eigen::VectorXd> v;
  text("x.csv", "1,2,3\n");
  vp_check(vp_aborts([&] { loadTimeVectorCSV("x.csv", a == 0 ? nullptr : &t, a == 1 ? nullptr : &v); }) == (a < 2), "a missing output is reported");
  vp_check(vp_aborts([&] { loadTimeTimeVectorCSV("x.csv", a == 0 ? nullptr : &t, a == 2 ? nullptr : &s, a == 1 ? nullptr : &v); }) == (a < 3), "a missing output is reported");
}
VP_RUN(vp_entry_C22_outputs, 0..3)

// ---------------------------------------------------------------- C18
void vp_entry_C18_csv(int a) {
  std::vector<double> t, s;
  std::vector<Eigen::VectorXd> v;
  const char* content[] = {"", "\n", "1", "1,2", "1,2,3", "1,2,3\n4", "1,2\n3,4,5", "\n1,2,3", ",,,\n,,,", "1,2,3\n4,5\n6"};
  text("x.csv", content[a]);
  vp_aborts([&] { loadTimeVectorCSV("x.csv", &t, &v); });
  vp_aborts([&] { loadTimeTimeVectorCSV("x.csv", &t, &s, &v); });
  const Rows r = loadCSV("x.csv");
  vp_check(r.size() <= 3, "no rows are invented");
  vp_aborts([&] { writeCSV("y.csv", r); });
}
VP_RUN(vp_entry_C18_csv, 0..9)
