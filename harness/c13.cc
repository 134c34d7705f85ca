// C13: views of matrices through index sets against dense copies.
#include <hpp/constraints/matrix-view.hh>

#include "pbt.hh"
using namespace pbt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef Eigen::BlockIndex BI;
typedef BI::segment_t Seg;
typedef BI::segments_t Segs;
typedef Eigen::MatrixBlocks<false, false> MB;
typedef Eigen::RowBlockIndices RB;
typedef Eigen::ColBlockIndices CB;
typedef std::vector<long> Idx;
typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RowMat;

static std::string str(const Segs& s) {
  std::ostringstream o;
  o << "{";
  for (auto& x : s) o << " [" << x.first << "," << x.first + x.second << ")";
  o << " }";
  return o.str();
}
static Idx seq(const Segs& s) {
  Idx r;
  for (auto& x : s)
    for (long i = 0; i < x.second; ++i) r.push_back(x.first + i);
  return r;
}
static Idx all(long n) {
  Idx r(n);
  for (long i = 0; i < n; ++i) r[i] = i;
  return r;
}
// sorted disjoint segments within [0, n)
static Segs segs(Src& s, long n, bool allowEmpty = true) {
  Segs r;
  long p = 0;
  long k = s.range(allowEmpty ? 0 : 1, 4);
  for (long i = 0; i < k && p < n; ++i) {
    p += s.range(0, 2);
    if (p >= n) break;
    long l = s.range(1, std::min(3l, n - p));
    r.push_back(Seg(p, l));
    p += l;
  }
  if (!allowEmpty && r.empty()) r.push_back(Seg(0, 1));
  return r;
}
// same lengths, different positions (sorted, disjoint, within [0, n)), if possible
static Segs sameShape(Src& s, const Segs& a, long n) {
  long slack = n;
  for (auto& x : a) slack -= x.second;
  Segs r;
  long p = 0;
  for (auto& x : a) {
    long g = s.range(0, slack);
    slack -= g;
    p += g;
    r.push_back(Seg(p, x.second));
    p += x.second;
  }
  return r;
}
static MatrixXd mat(Src& s, long r, long c) {
  // distinct entries, so that any permutation is visible
  MatrixXd m(r, c);
  double base = 1 + (double)s.range(0, 5);
  for (long i = 0; i < r; ++i)
    for (long j = 0; j < c; ++j) m(i, j) = base + 100 * (double)i + (double)j * (1 + .25 * base);
  return m;
}
template <class M>
static MatrixXd dense(const M& m, const Idx& R, const Idx& C) {
  MatrixXd r(R.size(), C.size());
  for (std::size_t i = 0; i < R.size(); ++i)
    for (std::size_t j = 0; j < C.size(); ++j) r(i, j) = m(R[i], C[j]);
  return r;
}
static MatrixXd scattered(MatrixXd m, const Idx& R, const Idx& C, const MatrixXd& v) {
  for (std::size_t i = 0; i < R.size(); ++i)
    for (std::size_t j = 0; j < C.size(); ++j) m(R[i], C[j]) = v(i, j);
  return m;
}
static void eq(const MatrixXd& a, const MatrixXd& b, const char* tag) {
  PBT_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), std::string(tag) + "-size",
            a.rows() << "x" << a.cols() << " instead of " << b.rows() << "x" << b.cols());
  if (a.size()) PBT_CHECK(a == b, tag, "\n" << a << "\ninstead of\n" << b);
}

struct Case {
  long n, m;
  Segs r, c;
  Idx R, C;
  MatrixXd M;
};
static Case make(Src& s, bool allowEmpty = true) {
  Case k;
  k.n = s.range(1, 9);
  k.m = s.range(1, 9);
  k.r = segs(s, k.n, allowEmpty);
  k.c = segs(s, k.m, allowEmpty);
  k.R = seq(k.r);
  k.C = seq(k.c);
  k.M = mat(s, k.n, k.m);
  s.note() << k.n << "x" << k.m << " rows " << str(k.r) << " cols " << str(k.c);
  if (k.r.size() >= 2 || k.c.size() >= 2) s.nontrivial();
  if (k.R.empty() || k.C.empty()) s.label("empty selection");
  return k;
}

template <class B>
static void readAll(const B& b, MatrixXd M, const Idx& R, const Idx& C, const char* tag) {
  MatrixXd D = dense(M, R, C);
  std::string t(tag);
  eq(b.rview(M).eval(), D, (t + "-rview").c_str());
  eq(b.lview(M).eval(), D, (t + "-lview").c_str());
  MatrixXd x = MatrixXd::Constant(2, 3, 7);
  b.rview(M).writeTo(x);
  eq(x, D, (t + "-writeTo").c_str());
  x = MatrixXd::Constant(D.rows(), D.cols(), 7);
  x = b.rview(M);
  eq(x, D, (t + "-assign").c_str());
  x = MatrixXd::Constant(1, 2, 7);
  x = b.rview(M);
  eq(x, D, (t + "-assign-resize").c_str());
  MatrixXd y(b.rview(M));
  eq(y, D, (t + "-construct").c_str());
  x = MatrixXd::Constant(D.rows(), D.cols(), 7);
  MatrixXd e = x + D;
  x += b.rview(M);
  eq(x, e, (t + "-plus-assign").c_str());
  e = x - D;
  x -= b.rview(M);
  eq(x, e, (t + "-minus-assign").c_str());
  // write into a block
  MatrixXd big = MatrixXd::Constant(D.rows() + 2, D.cols() + 2, 7), ebig(big);
  big.block(1, 1, D.rows(), D.cols()) = b.rview(M);
  ebig.block(1, 1, D.rows(), D.cols()) = D;
  eq(big, ebig, (t + "-assign-block").c_str());
  // sources that are expressions
  eq(b.rview(M + M).eval(), D + D, (t + "-expression").c_str());
  MatrixXd T(M.transpose());
  eq(b.rview(T.transpose()).eval(), D, (t + "-transposed").c_str());
  MatrixXd wide(M.rows() + 3, M.cols() + 2);
  wide.setConstant(-3);
  wide.block(2, 1, M.rows(), M.cols()) = M;
  eq(b.rview(wide.block(2, 1, M.rows(), M.cols())).eval(), D, (t + "-of-block").c_str());
  RowMat rm(M);
  eq(b.rview(rm).eval(), D, (t + "-row-major").c_str());
  Eigen::Ref<const MatrixXd> ref(b.rview(M));
  eq(ref, D, (t + "-ref").c_str());
  PBT_CHECK(b.rview(M).rows() == D.rows() && b.rview(M).cols() == D.cols(), t + "-dims", "");
  // isZero looks at the selection only
  MatrixXd Z = scattered(M, R, C, MatrixXd::Zero(R.size(), C.size()));
  PBT_CHECK(b.rview(Z).isZero(), t + "-isZero", "");
  if (D.size()) {
    Z(R.back(), C.back()) = 1;
    PBT_CHECK(!b.rview(Z).isZero(), t + "-isZero-last", "");
    Z(R.back(), C.back()) = 0;
    Z(R[0], C[0]) = 1;
    PBT_CHECK(!b.rview(Z).isZero(), t + "-isZero-first", "");
  }
}
static void read(Src& s) {
  Case k = make(s);
  std::size_t w = s.raw(3);
  s.label(w == 0 ? "blocks" : w == 1 ? "rows" : "cols");
  if (w == 0) readAll(MB(k.r, k.c), k.M, k.R, k.C, "blocks");
  if (w == 1) readAll(RB(k.r), k.M, k.R, all(k.m), "rows");
  if (w == 2) readAll(CB(k.c), k.M, all(k.n), k.C, "cols");
  VectorXd v = k.M.col(0);
  VectorXd d = RB(k.r).rview(v);
  eq(d, dense(v, k.R, all(1)), "vector");
  VectorXd d2 = RB(k.r).rview(k.M.col(k.m - 1)).eval();
  eq(d2, dense(k.M, k.R, Idx(1, k.m - 1)), "vector-col");
}

template <class B>
static void writeAll(Src& s, const B& b, const B& b2, MatrixXd M, const Idx& R, const Idx& C, const Idx& R2,
                     const Idx& C2, const char* tag) {
  std::string t(tag);
  MatrixXd V = -mat(s, R.size(), C.size());
  MatrixXd x(M);
  b.lview(x) = V;
  eq(x, scattered(M, R, C, V), (t + "-write").c_str());
  x = M;
  b.lview(x) = 2 * V + V;
  eq(x, scattered(M, R, C, 2 * V + V), (t + "-write-expr").c_str());
  x = M;
  b.lview(x).setZero();
  eq(x, scattered(M, R, C, 0 * V), (t + "-setZero").c_str());
  x = M;
  b.lview(x).setOnes();
  eq(x, scattered(M, R, C, MatrixXd::Ones(R.size(), C.size())), (t + "-setOnes").c_str());
  // view <- view with other indices of the same shape
  MatrixXd N = 1000 * M;
  x = M;
  b.lview(x) = b2.rview(N);
  eq(x, scattered(M, R, C, dense(N, R2, C2)), (t + "-write-view").c_str());
  // into a block of a larger matrix
  MatrixXd wide(M.rows() + 2, M.cols() + 3);
  wide.setConstant(5);
  wide.block(1, 2, M.rows(), M.cols()) = M;
  MatrixXd e(wide);
  e.block(1, 2, M.rows(), M.cols()) = scattered(M, R, C, V);
  b.lview(wide.block(1, 2, M.rows(), M.cols())) = V;
  eq(wide, e, (t + "-write-block").c_str());
  // round trip: what is written is what is read
  x = M;
  b.lview(x) = V;
  eq(b.rview(x).eval(), V, (t + "-write-read").c_str());
}
static void write(Src& s) {
  Case k = make(s);
  Segs r2 = sameShape(s, k.r, k.n), c2 = sameShape(s, k.c, k.m);
  s.note() << " rows2 " << str(r2) << " cols2 " << str(c2);
  std::size_t w = s.raw(3);
  if (w == 0) writeAll(s, MB(k.r, k.c), MB(r2, c2), k.M, k.R, k.C, seq(r2), seq(c2), "blocks");
  if (w == 1) writeAll(s, RB(k.r), RB(r2), k.M, k.R, all(k.m), seq(r2), all(k.m), "rows");
  if (w == 2) writeAll(s, CB(k.c), CB(c2), k.M, all(k.n), k.C, all(k.n), seq(c2), "cols");
  VectorXd v = k.M.col(0), e(v), a = -VectorXd::LinSpaced(k.R.size(), 1, 2);
  RB(k.r).lview(v) = a;
  for (std::size_t i = 0; i < k.R.size(); ++i) e[k.R[i]] = a[i];
  eq(v, e, "vector-write");
}

template <class B>
static void opAll(const B& b, const B& b2, const MatrixXd& M, const MatrixXd& A, const MatrixXd& N, const MatrixXd& D,
                  const MatrixXd& D2, const char* tag) {
  std::string t(tag);
  MatrixXd x(D.rows(), D.cols());
  x.setConstant(3);
  x = A + b.rview(M);
  eq(x, A + D, (t + "-mat+view").c_str());
  x.setConstant(3);
  x = b.rview(M) + A;
  eq(x, D + A, (t + "-view+mat").c_str());
  x.setConstant(3);
  x = b.rview(M) - A;
  eq(x, D - A, (t + "-view-mat").c_str());
  x.setConstant(3);
  x = A - b.rview(M);
  eq(x, A - D, (t + "-mat-view").c_str());
  x = A;
  x = x - b.rview(M);
  eq(x, A - D, (t + "-alias").c_str());
  x.setConstant(3);
  x = b.rview(M) + b.rview(N);
  eq(x, D + (-3.) * D, (t + "-view+view-same").c_str());
  x.setConstant(3);
  x = b.rview(M) - b2.rview(N);
  eq(x, D - D2, (t + "-view-view").c_str());
  x.setConstant(3);
  x = b2.rview(N) - b.rview(M);
  eq(x, D2 - D, (t + "-view-view-rev").c_str());
  {
    MatrixXd y;
    y = A + b.rview(M);
    eq(y, A + D, (t + "-resize").c_str());
    MatrixXd z(A.rows() + 1, 1);
    z.setConstant(3);
    z = b.rview(M) - b2.rview(N);
    eq(z, D - D2, (t + "-resize2").c_str());
    MatrixXd w(b.rview(M) + A);
    eq(w, D + A, (t + "-construct-op").c_str());
  }
  x = A;
  x += b.rview(M) - A;
  eq(x, A + (D - A), (t + "-plus-assign-op").c_str());
  x = A;
  x -= A + b.rview(M);
  eq(x, A - (A + D), (t + "-minus-assign-op").c_str());
  x = A;
  x += b.rview(M) + b2.rview(N);
  eq(x, A + (D + D2), (t + "-plus-assign-view-op").c_str());
}
static void arithmetic(Src& s) {
  Case k = make(s, false);
  Segs r2 = sameShape(s, k.r, k.n), c2 = sameShape(s, k.c, k.m);
  s.note() << " rows2 " << str(r2) << " cols2 " << str(c2);
  Idx R2 = seq(r2), C2 = seq(c2);
  MatrixXd N = -3 * k.M;
  std::size_t w = s.raw(3);
  if (r2 != k.r || c2 != k.c) s.label("different indices");
  Idx R = k.R, C = k.C;
  if (w == 1) C = C2 = all(k.m);
  if (w == 2) R = R2 = all(k.n);
  MatrixXd D = dense(k.M, R, C), D2 = dense(N, R2, C2);
  MatrixXd A = 5 * mat(s, D.rows(), D.cols());
  if (w == 0) opAll(MB(k.r, k.c), MB(r2, c2), k.M, A, N, D, D2, "blocks");
  if (w == 1) opAll(RB(k.r), RB(r2), k.M, A, N, D, D2, "rows");
  if (w == 2) opAll(CB(k.c), CB(c2), k.M, A, N, D, D2, "cols");
}

static void structure(Src& s) {
  Case k = make(s);
  MB b(k.r, k.c);
  RB rb(k.r);
  CB cb(k.c);
  MatrixXd D = dense(k.M, k.R, k.C);
  PBT_CHECK(b.nbRows() == (long)k.R.size() && b.nbCols() == (long)k.C.size(), "sizes", "");
  PBT_CHECK(rb.nbIndices() == (long)k.R.size() && rb.nbRows() == (long)k.R.size(), "row-sizes", "");
  PBT_CHECK(cb.nbIndices() == (long)k.C.size() && cb.nbCols() == (long)k.C.size(), "col-sizes", "");
  PBT_CHECK(b.rows() == k.r && b.cols() == k.c && rb.indices() == k.r && cb.indices() == k.c, "indices", "");
  MatrixXd T = k.M.transpose();
  eq(b.transpose().rview(T).eval(), D.transpose(), "transpose");
  eq(b.transpose().transpose().rview(k.M).eval(), D, "transpose2");
  eq(rb.transpose().rview(T).eval(), dense(k.M, k.R, all(k.m)).transpose(), "row-transpose");
  eq(cb.transpose().rview(T).eval(), dense(k.M, all(k.n), k.C).transpose(), "col-transpose");
  eq(b.keepRows().rview(k.M).eval(), dense(k.M, k.R, all(k.m)), "keepRows");
  eq(b.keepCols().rview(k.M).eval(), dense(k.M, all(k.n), k.C), "keepCols");
  RB rb2(b.keepRows());
  CB cb2(rb.transpose());
  eq(rb2.rview(k.M).eval(), dense(k.M, k.R, all(k.m)), "keepRows-copy");
  eq(cb2.rview(T).eval(), dense(k.M, k.R, all(k.m)).transpose(), "transpose-copy");
  PBT_CHECK(rb2.nbRows() == (long)k.R.size() && cb2.nbCols() == (long)k.R.size(), "copy-sizes", "");
  MB b3 = b;
  MB b4;
  b4 = b3;
  eq(b4.rview(k.M).eval(), D, "copy");
  // a reference to two one-dimensional sets
  Eigen::MatrixBlocksRef<false, false> ref(rb, cb);
  eq(ref.rview(k.M).eval(), D, "ref-of-two");
  MatrixXd x(k.M);
  ref.lview(x) = -D;
  eq(x, scattered(k.M, k.R, k.C, -D), "ref-write");
  // extraction of a sub-block of the selection
  long i = s.range(0, D.rows()), j = s.range(0, D.cols());
  long ni = s.range(0, D.rows() - i), nj = s.range(0, D.cols() - j);
  s.note() << " block " << i << "," << j << "," << ni << "," << nj;
  if (ni > 0 && nj > 0) {
    eq(b.block(i, j, ni, nj).rview(k.M).eval(), D.block(i, j, ni, nj), "block");
    x = k.M;
    b.block(i, j, ni, nj).lview(x).setZero();
    MatrixXd E(D);
    E.block(i, j, ni, nj).setZero();
    eq(x, scattered(k.M, k.R, k.C, E), "block-write");
  }
  if (ni > 0) eq(b.middleRows(i, ni).rview(k.M).eval(), D.middleRows(i, ni), "middleRows");
  if (nj > 0) eq(b.middleCols(j, nj).rview(k.M).eval(), D.middleCols(j, nj), "middleCols");
}

static void building(Src& s) {
  // incremental construction, in any order, then normalisation
  long n = s.range(1, 12), m = s.range(1, 12);
  MatrixXd M = mat(s, n, m);
  MB b;
  RB rb;
  CB cb;
  std::vector<char> ri(n, 0), ci(m, 0);
  long cnt = s.range(0, 5);
  long sr = 0, sc = 0;
  for (long i = 0; i < cnt; ++i) {
    long f = s.range(0, n - 1), l = s.range(1, n - f);
    long g = s.range(0, m - 1), h = s.range(1, m - g);
    s.note() << " +r[" << f << "," << f + l << ") +c[" << g << "," << g + h << ")";
    b.addRow(f, l);
    rb.addRow(f, l);
    b.addCol(g, h);
    cb.addCol(g, h);
    sr += l;
    sc += h;
    for (long k = 0; k < l; ++k) ri[f + k] = 1;
    for (long k = 0; k < h; ++k) ci[g + k] = 1;
    PBT_CHECK(b.nbRows() == sr && rb.nbRows() == sr && b.nbCols() == sc && cb.nbCols() == sc, "add-sizes", "");
  }
  if (cnt >= 2) s.nontrivial();
  Idx R, C;
  for (long k = 0; k < n; ++k)
    if (ri[k]) R.push_back(k);
  for (long k = 0; k < m; ++k)
    if (ci[k]) C.push_back(k);
  if (s.coin()) {
    b.updateRows<true, true, true>();
    b.updateCols<true, true, true>();
    rb.updateRows<true, true, true>();
    cb.updateCols<true, true, true>();
  } else {
    b.updateRows<true, false, false>();
    b.updateRows<false, true, false>();
    b.updateRows<false, false, true>();
    b.updateCols<true, false, false>();
    b.updateCols<false, true, true>();
    rb.updateIndices<true, true, true>();
    cb.updateIndices<true, true, true>();
  }
  PBT_CHECK(b.nbRows() == (long)R.size() && b.nbCols() == (long)C.size(), "update-sizes", "");
  eq(b.rview(M).eval(), dense(M, R, C), "update");
  eq(rb.rview(M).eval(), dense(M, R, all(m)), "update-rows");
  eq(cb.rview(M).eval(), dense(M, all(n), C), "update-cols");
  // from a logical expression
  Eigen::Array<bool, -1, 1> lr(n);
  for (long k = 0; k < n; ++k) lr[k] = ri[k];
  RB rl(BI::fromLogicalExpression(lr));
  eq(rl.rview(M).eval(), dense(M, R, all(m)), "logical");
  PBT_CHECK(rl.nbRows() == (long)R.size() && rl.rows() == b.rows(), "logical-form", "");
  // constructors of single blocks
  long f = s.range(0, n - 1), l = s.range(1, n - f);
  Idx S;
  for (long k = 0; k < l; ++k) S.push_back(f + k);
  eq(RB(f, l).rview(M).eval(), dense(M, S, all(m)), "single");
  eq(RB(Seg(f, l)).rview(M).eval(), dense(M, S, all(m)), "single-seg");
  MatrixXd sq = mat(s, n, n);
  eq(MB(f, l).rview(sq).eval(), dense(sq, S, S), "single-square");
  eq(MB(Segs(1, Seg(f, l))).rview(sq).eval(), dense(sq, S, S), "single-square-segs");
  b.clearRows();
  b.clearCols();
  PBT_CHECK(b.nbRows() == 0 && b.nbCols() == 0 && b.rows().empty() && b.cols().empty(), "clear", "");
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C13";
  p.rule = "the selection has at least two row or two column intervals (reads, writes, arithmetic, structure), or at "
           "least two incremental additions (building)";
  p.facets = {{"read", 3, read}, {"write", 3, write}, {"arithmetic", 3, arithmetic}, {"structure", 3, structure},
              {"building", 2, building}};
  p.quick = 400000;
  p.thorough = 8000000;
  p.assumptions = {"index sets are sorted and disjoint, as documented for MatrixBlocks",
                   "views combined with each other have blocks of the same sizes (asserted by the library)"};
  return pbt::main(argc, argv, p);
}
