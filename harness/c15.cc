// C15: pseudo-inverses and projectors computed from a singular value
// decomposition, against their defining identities and an independent
// construction of the subspaces.
#include <hpp/constraints/svd.hh>

#include "pbt.hh"
using namespace pbt;
using namespace hpp::constraints;
typedef Eigen::JacobiSVD<matrix_t> SVD;

static matrix_t gauss(Src& s, long r, long c) {
  matrix_t m(r, c);
  for (long i = 0; i < r; ++i)
    for (long j = 0; j < c; ++j) m(i, j) = s.real(-1, 1);
  return m;
}
static matrix_t ortho(Src& s, long n) {
  matrix_t m = gauss(s, n, n) + 1e-3 * matrix_t::Identity(n, n);
  return Eigen::HouseholderQR<matrix_t>(m).householderQ();
}
struct Case {
  matrix_t A, U, V;  // A = U diag(sv) V^T
  vector_t sv;
  long r, c, rank;
  double thr;  // relative threshold (< 0: default)
};
static Case make(Src& s) {
  Case k;
  k.r = s.range(1, 7);
  k.c = s.range(1, 7);
  long m = std::min(k.r, k.c);
  k.U = ortho(s, k.r);
  k.V = ortho(s, k.c);
  k.sv = vector_t::Zero(m);
  double scale = s.pick({1., 1e-5, 1e4});
  long full = s.chance(1, 3) ? m : s.range(0, m);
  k.thr = -1;
  std::size_t mode = s.weighted({3, 2, 2});
  for (long i = 0; i < full; ++i) k.sv[i] = mode == 1 ? std::pow(10., -(double)s.range(0, 5)) : s.real(.2, 2);
  if (mode == 2) {
    // an explicit threshold between large and small singular values
    k.thr = 1e-3;
    for (long i = 0; i < full; ++i)
      k.sv[i] = s.coin() ? s.real(.5, 1) : s.real(1e-7, 1e-5);
    if (full) k.sv[0] = 1;
    s.label("explicit threshold");
  }
  std::sort(k.sv.data(), k.sv.data() + m, std::greater<double>());
  k.rank = 0;
  for (long i = 0; i < m; ++i)
    if (k.sv[i] > (mode == 2 ? 1e-3 : 1e-8)) ++k.rank;
  k.sv *= scale;
  matrix_t S(matrix_t::Zero(k.r, k.c));
  S.diagonal() = k.sv;
  k.A = k.U * S * k.V.transpose();
  if (s.chance(1, 5)) {  // integer matrices: exact rank deficiency
    k.A = matrix_t::Zero(k.r, k.c);
    for (long i = 0; i < k.r; ++i)
      for (long j = 0; j < k.c; ++j) k.A(i, j) = (double)s.range(-1, 1);
    k.rank = -1;
    k.thr = -1;
    s.label("integer");
  }
  s.note() << k.r << "x" << k.c << " singular values " << k.sv.transpose() << " threshold " << k.thr << "\n" << k.A;
  s.label(k.r < k.c ? "wide" : k.r > k.c ? "tall" : "square");
  if (k.rank != m) s.nontrivial();
  return k;
}
static void small(const matrix_t& m, double tol, const char* tag) {
  double e = m.size() ? m.cwiseAbs().maxCoeff() : 0;
  PBT_CHECK(e < tol, tag, "error " << e << " tolerance " << tol);
}
static void projector(const matrix_t& P, long rank, const char* tag) {
  std::string t(tag);
  small(P * P - P, 1e-11, (t + "-idempotent").c_str());
  small(P - P.transpose(), 1e-11, (t + "-symmetric").c_str());
  PBT_CHECK(std::abs(P.trace() - (double)rank) < 1e-9, t + "-rank", P.trace() << " rank " << rank);
}
// pad: the destinations are blocks of larger matrices, filled with garbage
static void decompose(Src& s, bool full) {
  Case k = make(s);
  SVD svd;
  if (k.thr > 0) svd.setThreshold(k.thr);
  svd.compute(k.A, full ? Eigen::ComputeFullU | Eigen::ComputeFullV : Eigen::ComputeThinU | Eigen::ComputeThinV);
  long rank = svd.rank();
  if (k.rank >= 0)
    PBT_CHECK(rank == k.rank, "rank", rank << " instead of " << k.rank);
  else
    PBT_CHECK(rank == Eigen::FullPivLU<matrix_t>(k.A).rank(), "rank-integer", rank);
  double smin = rank ? svd.singularValues()[rank - 1] : 1, smax = svd.singularValues()[0];
  // matrix restricted to the singular values above the threshold
  matrix_t At = matrix_t::Zero(k.r, k.c);
  for (long i = 0; i < rank; ++i) At += svd.singularValues()[i] * svd.matrixU().col(i) * svd.matrixV().col(i).transpose();

  matrix_t big(matrix_t::Constant(k.c + 2, k.r + 2, 11));
  pseudoInverse<SVD>(svd, big.block(1, 1, k.c, k.r));
  matrix_t X = big.block(1, 1, k.c, k.r);
  big.block(1, 1, k.c, k.r).setConstant(11);
  PBT_CHECK(big.isConstant(11), "pinv-outside", big);
  PBT_CHECK(X.allFinite(), "pinv-finite", X);
  double cond = rank ? smax / smin : 1;
  double tol = 1e-11 * cond;
  small(At * X * At - At, tol * (1 + smax), "penrose1");
  small(X * At * X - X, tol * (1 + 1 / smin), "penrose2");
  small(At * X - (At * X).transpose(), tol, "penrose3");
  small(X * At - (X * At).transpose(), tol, "penrose4");
  // with the full matrix when nothing is truncated
  if (k.thr < 0) small(k.A * X * k.A - k.A, tol * (1 + smax), "penrose1-full");

  matrix_t PS(matrix_t::Constant(k.c, k.c, 11)), PK(PS), PSi(matrix_t::Constant(k.r, k.r, 11)), PKi(PSi);
  projectorOnSpan<SVD>(svd, PS);
  projectorOnKernel<SVD>(svd, PK, full);
  projectorOnSpanOfInv<SVD>(svd, PSi);
  projectorOnKernelOfInv<SVD>(svd, PKi, full);
  projector(PS, rank, "span");
  projector(PK, k.c - rank, "kernel");
  projector(PSi, rank, "span-inv");
  projector(PKi, k.r - rank, "kernel-inv");
  small(PS + PK - matrix_t::Identity(k.c, k.c), 1e-11, "complement");
  small(PSi + PKi - matrix_t::Identity(k.r, k.r), 1e-11, "complement-inv");
  small(At * PK, 1e-11 * (1 + smax), "kernel-zero");
  small(At * PS - At, 1e-11 * (1 + smax), "span-id");
  small(PKi * At, 1e-11 * (1 + smax), "kernel-inv-zero");
  small(PSi * At - At, 1e-11 * (1 + smax), "span-inv-id");
  small(X * At - PS, tol, "pinv-span");
  small(At * X - PSi, tol, "pinv-span-inv");
  if (full) {
    matrix_t PK2(matrix_t::Constant(k.c, k.c, 3)), PKi2(matrix_t::Constant(k.r, k.r, 3));
    projectorOnKernel<SVD>(svd, PK2, false);
    projectorOnKernelOfInv<SVD>(svd, PKi2, false);
    small(PK2 - PK, 1e-11, "kernel-forms");
    small(PKi2 - PKi, 1e-11, "kernel-inv-forms");
  }
  // against the subspaces the matrix was built with
  if (k.rank >= 0 && cond < 1e6) {
    matrix_t V1 = k.V.leftCols(rank), U1 = k.U.leftCols(rank);
    small(PS - V1 * V1.transpose(), 1e-8 * cond, "span-ref");
    small(PSi - U1 * U1.transpose(), 1e-8 * cond, "span-inv-ref");
  }
  // bases
  matrix_t U1 = getU1<SVD>(svd, rank), U2 = getU2<SVD>(svd, rank), V1 = getV1<SVD>(svd, rank), V2 = getV2<SVD>(svd, rank);
  PBT_CHECK(U1.cols() == rank && V1.cols() == rank && U1.rows() == k.r && V1.rows() == k.c, "bases-size", "");
  PBT_CHECK(U2.cols() == svd.matrixU().cols() - rank && V2.cols() == svd.matrixV().cols() - rank, "bases-size2", "");
  matrix_t UU(k.r, svd.matrixU().cols()), VV(k.c, svd.matrixV().cols());
  UU << U1, U2;
  VV << V1, V2;
  PBT_CHECK(UU == svd.matrixU() && VV == svd.matrixV(), "bases", "");
  small(At * V2, 1e-11 * (1 + smax), "V2-kernel");
  small(U2.transpose() * At, 1e-11 * (1 + smax), "U2-kernel");
  small(PS * V1 - V1, 1e-11, "V1-span");
  small(PSi * U1 - U1, 1e-11, "U1-span");
}
static void thin(Src& s) { decompose(s, false); }
static void full(Src& s) { decompose(s, true); }

// least squares: the pseudo-inverse gives the minimal norm least squares solution
static void leastSquares(Src& s) {
  Case k = make(s);
  if (k.thr > 0) discard();
  SVD svd(k.A, Eigen::ComputeThinU | Eigen::ComputeThinV);
  long rank = svd.rank();
  double smin = rank ? svd.singularValues()[rank - 1] : 1, smax = svd.singularValues()[0];
  if (rank && smax / smin > 1e4) discard();
  matrix_t X(k.c, k.r);
  pseudoInverse<SVD>(svd, X);
  vector_t b = gauss(s, k.r, 1), x = X * b;
  vector_t ref = Eigen::CompleteOrthogonalDecomposition<matrix_t>(k.A).solve(b);
  PBT_CHECK((x - ref).norm() < 1e-7 * (1 + ref.norm()), "least-squares", x.transpose() << " instead of " << ref.transpose());
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C15";
  p.rule = "the matrix is rank deficient for the threshold in use, or has integer coefficients";
  p.facets = {{"thin", 3, thin}, {"full", 3, full}, {"least-squares", 1, leastSquares}};
  p.quick = 300000;
  p.thorough = 6000000;
  p.assumptions = {"decompositions are computed by Eigen::JacobiSVD, as in the library",
                   "singular values are away from the threshold by two orders of magnitude"};
  return pbt::main(argc, argv, p);
}
