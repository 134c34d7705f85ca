// C12: sets of index intervals behave as the sets of integers they denote.
#include <hpp/constraints/matrix-view.hh>
#include <algorithm>
#include <set>

#include "pbt.hh"

using namespace pbt;
typedef Eigen::BlockIndex BI;
typedef BI::segment_t Seg;
typedef BI::segments_t Segs;
typedef std::set<long> Set;

static std::string str(const Segs& s) {
  std::ostringstream o;
  o << "{";
  for (auto& x : s) o << " [" << x.first << "," << x.first + x.second << ")";
  o << " }";
  return o.str();
}
static std::string str(const Set& s) {
  std::ostringstream o;
  o << "{";
  for (long x : s) o << " " << x;
  o << " }";
  return o.str();
}
static Set den(const Segs& s) {
  Set r;
  for (auto& x : s)
    for (long i = 0; i < x.second; ++i) r.insert(x.first + i);
  return r;
}
static Set den(const Seg& s) { return den(Segs(1, s)); }
static std::vector<long> seq(const Segs& s) {
  std::vector<long> r;
  for (auto& x : s)
    for (long i = 0; i < x.second; ++i) r.push_back(x.first + i);
  return r;
}
static long total(const Segs& s) {
  long n = 0;
  for (auto& x : s) n += x.second;
  return n;
}
static bool lessFull(const Seg& a, const Seg& b) {
  return a.first < b.first || (a.first == b.first && a.second < b.second);
}
static bool sorted(const Segs& s) {
  for (std::size_t i = 1; i < s.size(); ++i)
    if (lessFull(s[i], s[i - 1])) return false;
  return true;
}
static Set minus(const Set& a, const Set& b) {
  Set r;
  for (long x : a)
    if (!b.count(x)) r.insert(x);
  return r;
}
static Seg genSeg(Src& s, long maxStart = 14, long maxLen = 7, bool zero = true) {
  long f = s.range(0, maxStart);
  return Seg(f, s.range(zero ? 0 : 1, maxLen));
}
static Segs genSegs(Src& s, std::size_t maxN = 5, bool zero = true) {
  Segs r;
  std::size_t n = s.range(0, maxN);
  for (std::size_t i = 0; i < n; ++i) r.push_back(genSeg(s, 14, 7, zero));
  return r;
}
// sorted, pairwise disjoint, possibly adjacent
static Segs genDisjoint(Src& s, std::size_t maxN = 6) {
  Segs r;
  std::size_t n = s.range(0, maxN);
  long p = 0;
  for (std::size_t i = 0; i < n; ++i) {
    p += s.range(0, 3);
    long l = s.range(1, 4);
    r.push_back(Seg(p, l));
    p += l;
  }
  return r;
}
static void noEmptyExtra(const Segs& in, const Segs& out, const char* op) {
  // no empty interval is invented when the inputs have none
  bool zin = false;
  for (auto& x : in) zin |= x.second == 0;
  if (zin) return;
  for (auto& x : out) PBT_CHECK(x.second > 0, std::string(op) + "-empty", str(in) << " -> " << str(out));
}

static void sortShrink(Src& s) {
  Segs a = genSegs(s);
  s.note() << "a = " << str(a);
  Segs b(a);
  BI::sort(b);
  PBT_CHECK(sorted(b), "sort-order", str(a) << " -> " << str(b));
  {
    Segs c(a);
    std::sort(c.begin(), c.end());
    Segs d(b);
    std::sort(d.begin(), d.end());
    PBT_CHECK(c == d, "sort-perm", str(a) << " -> " << str(b));
  }
  PBT_CHECK(BI::cardinal(a) == total(a), "cardinal", str(a));
  bool ov = total(a) != (long)den(a).size();
  if (ov) s.label("overlapping");
  if (a.size() >= 2 && (ov || a != b)) s.nontrivial();
  Segs c(b);
  BI::shrink(c);
  PBT_CHECK(den(c) == den(a), "shrink-set", str(b) << " -> " << str(c));
  for (std::size_t i = 1; i < c.size(); ++i)
    PBT_CHECK(c[i - 1].first + c[i - 1].second < c[i].first, "shrink-disjoint", str(b) << " -> " << str(c));
  PBT_CHECK(BI::cardinal(c) == (long)den(a).size(), "shrink-card", str(b) << " -> " << str(c));
}

static void overlapSumDiff(Src& s) {
  Seg a = genSeg(s), b = genSeg(s);
  s.note() << "a = " << str(Segs(1, a)) << " b = " << str(Segs(1, b));
  Set A = den(a), B = den(b), I;
  std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::inserter(I, I.end()));
  if (!I.empty()) s.nontrivial();
  if (A.size() && B.size() && (I == A || I == B)) s.label("nested");
  PBT_CHECK(BI::overlap(a, b) == !I.empty(), "overlap", str(Segs(1, a)) << str(Segs(1, b)));
  PBT_CHECK(BI::overlap(b, a) == BI::overlap(a, b), "overlap-sym", str(Segs(1, a)) << str(Segs(1, b)));
  Segs u = BI::sum(a, b);
  Set U(A);
  U.insert(B.begin(), B.end());
  PBT_CHECK(den(u) == U, "sum", str(Segs(1, a)) << str(Segs(1, b)) << " -> " << str(u));
  PBT_CHECK((long)U.size() == total(u) && sorted(u), "sum-form", str(Segs(1, a)) << str(Segs(1, b)) << " -> " << str(u));
  Segs d = BI::difference(a, b);
  PBT_CHECK(den(d) == minus(A, B), "diff", str(Segs(1, a)) << str(Segs(1, b)) << " -> " << str(d));
  PBT_CHECK(total(d) == (long)den(d).size() && sorted(d), "diff-form", str(Segs(1, a)) << str(Segs(1, b)) << " -> " << str(d));
  noEmptyExtra(Segs{a, b}, d, "diff");
}

static void addition(Src& s) {
  Segs a = genSegs(s), b = genSegs(s);
  BI::sort(a);
  BI::sort(b);
  s.note() << "a = " << str(a) << " b = " << str(b);
  if (a.size() && b.size()) s.nontrivial();
  Segs all(a);
  all.insert(all.end(), b.begin(), b.end());
  BI::sort(all);
  Segs c(a);
  BI::add(c, b);
  PBT_CHECK(sorted(c), "add-order", str(a) << " + " << str(b) << " -> " << str(c));
  PBT_CHECK(c == all, "add-content", str(a) << " + " << str(b) << " -> " << str(c));
  Segs d(a);
  for (auto& x : b) {
    BI::add(d, x);
    PBT_CHECK(sorted(d), "add1-order", str(a) << " + " << str(b) << " -> " << str(d));
  }
  PBT_CHECK(d == all, "add1-content", str(a) << " + " << str(b) << " -> " << str(d));
}

static void differences(Src& s) {
  bool disjoint = s.coin();
  Segs a = disjoint ? genDisjoint(s) : genSegs(s);
  Segs b = s.coin() ? genDisjoint(s) : genSegs(s);
  BI::sort(a);
  BI::sort(b);
  Seg x = genSeg(s, 16, 9);
  s.note() << "a = " << str(a) << " b = " << str(b) << " x = " << str(Segs(1, x));
  s.label(disjoint ? "disjoint" : "overlapping");
  const Segs ac(a), bc(b);
  Segs d = BI::difference(ac, x);
  PBT_CHECK(den(d) == minus(den(a), den(x)), "segs-seg", str(a) << " - " << str(Segs(1, x)) << " -> " << str(d));
  Segs e = BI::difference(x, bc);
  PBT_CHECK(den(e) == minus(den(x), den(b)), "seg-segs", str(Segs(1, x)) << " - " << str(b) << " -> " << str(e));
  Segs f = BI::difference(ac, bc);
  PBT_CHECK(den(f) == minus(den(a), den(b)), "segs-segs", str(a) << " - " << str(b) << " -> " << str(f));
  if (disjoint) {
    PBT_CHECK(sorted(d) && total(d) == (long)den(d).size(), "segs-seg-form", str(a) << " - " << str(Segs(1, x)) << " -> " << str(d));
    PBT_CHECK(sorted(f) && total(f) == (long)den(f).size(), "segs-segs-form", str(a) << " - " << str(b) << " -> " << str(f));
  }
  PBT_CHECK(sorted(e) && total(e) == (long)den(e).size(), "seg-segs-form", str(Segs(1, x)) << " - " << str(b) << " -> " << str(e));
  noEmptyExtra(a, d, "segs-seg");
  noEmptyExtra(a, f, "segs-segs");
  if (den(d).size() < den(a).size() && den(f).size() < den(a).size() && a.size() > 1) s.nontrivial();
}

static void splitExtract(Src& s) {
  Segs a = genDisjoint(s);
  if (a.empty()) a.push_back(Seg(s.range(0, 4), s.range(1, 5)));
  if (s.chance(1, 4)) std::reverse(a.begin(), a.end());  // the order of the intervals is kept
  long n = total(a);
  long k = s.range(0, n);
  s.note() << "a = " << str(a) << " split at " << k;
  Segs rest(a);
  Segs head = BI::split(rest, k);
  std::vector<long> S = seq(a), H = seq(head), R = seq(rest);
  PBT_CHECK(std::vector<long>(S.begin(), S.begin() + k) == H, "split-head", str(a) << " split " << k << " -> " << str(head) << " | " << str(rest));
  PBT_CHECK(std::vector<long>(S.begin() + k, S.end()) == R, "split-rest", str(a) << " split " << k << " -> " << str(head) << " | " << str(rest));
  long st = s.range(0, n - 1), c = s.range(1, n - st);
  s.note() << " extract " << st << "," << c;
  Segs x = BI::extract(a, st, c);
  std::vector<long> X = seq(x);
  PBT_CHECK(std::vector<long>(S.begin() + st, S.begin() + st + c) == X, "extract", str(a) << " extract " << st << "," << c << " -> " << str(x));
  if (a.size() >= 2 && k > 0 && k < n) s.nontrivial();
}

static void logical(Src& s) {
  int n = (int)s.range(0, 16);
  Eigen::Array<bool, Eigen::Dynamic, 1> m(n);
  Set M;
  for (int i = 0; i < n; ++i) {
    m[i] = s.coin();
    if (m[i]) M.insert(i);
  }
  Segs r = BI::fromLogicalExpression(m);
  s.note() << "mask " << m.transpose();
  PBT_CHECK(den(r) == M, "logical", m.transpose() << " -> " << str(r));
  for (std::size_t i = 1; i < r.size(); ++i)
    PBT_CHECK(r[i - 1].first + r[i - 1].second < r[i].first, "logical-form", m.transpose() << " -> " << str(r));
  if (r.size() >= 2) s.nontrivial();
}

// random programs over one interval set and its model
static void history(Src& s) {
  Segs a;
  Set A;
  int n = (int)s.range(1, 8);
  int used = 0;
  for (int i = 0; i < n; ++i) {
    switch (s.range(0, 5)) {
      case 0: {
        Seg x = genSeg(s, 20, 6, false);
        s.note() << "add " << str(Segs(1, x)) << "; ";
        BI::add(a, x);
        Set X = den(x);
        A.insert(X.begin(), X.end());
        break;
      }
      case 1: {
        Segs x = genDisjoint(s, 4);
        s.note() << "add " << str(x) << "; ";
        BI::add(a, x);
        Set X = den(x);
        A.insert(X.begin(), X.end());
        break;
      }
      case 2:
        s.note() << "shrink; ";
        BI::shrink(a);
        break;
      case 3: {
        Seg x = genSeg(s, 20, 6, false);
        s.note() << "remove " << str(Segs(1, x)) << "; ";
        BI::shrink(a);
        a = BI::difference(a, x);
        A = minus(A, den(x));
        used |= 1;
        break;
      }
      case 4: {
        Segs x = genDisjoint(s, 4);
        s.note() << "remove " << str(x) << "; ";
        BI::shrink(a);
        a = BI::difference(a, x);
        A = minus(A, den(x));
        used |= 1;
        break;
      }
      case 5: {
        BI::shrink(a);
        long k = s.range(0, total(a));
        s.note() << "split " << k << "; ";
        Segs h = BI::split(a, k);
        A = minus(A, den(h));
        used |= 2;
        break;
      }
    }
    PBT_CHECK(den(a) == A, "set", str(a) << " != " << str(A));
    PBT_CHECK(sorted(a), "order", str(a));
  }
  BI::shrink(a);
  PBT_CHECK(BI::cardinal(a) == (long)A.size(), "card", str(a) << " != " << str(A));
  if (n >= 4 && used && !A.empty()) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C12";
  p.rule =
      "random interval sets (sorted/unsorted, disjoint, adjacent, nested, empty intervals) and random programs of "
      "set operations, compared with std::set<int>; non-trivial: at least two intervals, or a non-empty "
      "intersection, or a program of >= 4 operations that removes something and ends non-empty";
  p.facets = {{"sort-shrink", 1, sortShrink}, {"pair", 2, overlapSumDiff},      {"add", 1, addition},
              {"difference", 3, differences}, {"split-extract", 2, splitExtract}, {"logical", 1, logical},
              {"history", 3, history}};
  p.quick = 200000;
  p.thorough = 4000000;
  return pbt::main(argc, argv, p);
}
