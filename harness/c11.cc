// C11: resolution by substitution: explicit constraints exact, reduced Jacobian, kernel.
#include "sys.hh"
using namespace pbt;
using namespace sys;

static Opts opts() {
  Opts o;
  o.hierarchical = false;
  o.minCons = 1;
  return o;
}
static bool anyExplicit(const System& y) {
  return std::find(y.expl.begin(), y.expl.end(), true) != y.expl.end();
}

static void exact(Src& s) {
  System y = system(s, opts());
  if (!anyExplicit(y)) discard();
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  s.note() << "start " << gen::str(q) << "\n";
  bool optimize = y.levels() && s.chance(1, 6);
  HierarchicalIterative::Status st = y.solve(q, optimize);
  s.label(sys::name(st));
  s.note() << "status " << sys::name(st) << " " << gen::str(q) << "\n";
  if (q.cwiseAbs().maxCoeff() > 1e4) discard();
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    if (!y.expl[i]) continue;
    double e = y.error(i, q).norm();
    PBT_CHECK(e < 1e-7, "explicit", "explicit constraint " << i << " has error " << e);
  }
  if (y.levels()) s.nontrivial();
}

// rows of the derivative of the error of an implicit constraint with respect to the free variables
static bool rowsOf(const System& y, std::size_t i, const Configuration_t& q, matrix_t& J, std::vector<std::vector<bool>>& ok) {
  std::vector<long> fr;
  for (std::size_t k = 0; k < y.free.size(); ++k)
    if (y.free[k]) fr.push_back((long)k);
  const Con& c = y.cons[i];
  vector_t e0 = y.error(i, q);
  // values close to a threshold of inequalities
  if (std::any_of(c.comp.begin(), c.comp.end(), [](ComparisonType t) { return t == Superior || t == Inferior; })) {
    vector_t raw = prob::error([&] {
      Con d(c);
      for (auto& t : d.comp) t = Equality;
      return d;
    }(), q, y.rhs[i], 0);
    for (long k = 0; k < raw.size(); ++k)
      if (std::abs(std::abs(raw[k]) - y.ineq) < .05 || std::abs(raw[k]) < .05) return false;
  }
  LiegroupElement x(q, y.w.space);
  auto f = [&](vectorIn_t v, LiegroupElement& out) {
    vector_t dq = vector_t::Zero(y.w.space->nv());
    for (std::size_t k = 0; k < fr.size(); ++k) dq[fr[k]] = v[(long)k];
    LiegroupElement z(x);
    z += dq;
    Configuration_t p(z.vector());
    y.b()->explicitConstraintSet().solve(p);
    out.vector() = y.error(i, p);
  };
  NumDiff nd = numdiff(LiegroupSpace::Rn((long)fr.size()), LiegroupSpace::Rn(e0.size()), f, vector_t::Zero((long)fr.size()));
  long n = 0;
  for (bool m : c.mask) n += m;
  J.resize(n, (long)fr.size());
  ok.assign((std::size_t)n, std::vector<bool>(fr.size()));
  long r = 0;
  for (std::size_t k = 0; k < c.mask.size(); ++k)
    if (c.mask[k]) {
      J.row(r) = nd.J.row((long)k);
      for (std::size_t j = 0; j < fr.size(); ++j) ok[(std::size_t)r][j] = nd.ok((long)k, (long)j);
      ++r;
    }
  return true;
}
static bool close(const matrix_t& A, const matrix_t& B, const std::vector<std::vector<bool>>& ok) {
  for (long i = 0; i < A.rows(); ++i)
    for (long j = 0; j < A.cols(); ++j)
      if (ok[(std::size_t)i][(std::size_t)j] && !(std::abs(A(i, j) - B(i, j)) < 2e-5 * (1 + std::abs(A(i, j)) + B.row(i).norm()))) return false;
  return true;
}

static matrix_t reduced(const System& y, const Configuration_t& q) {
  y.h->computeValue<true>(q);
  y.b()->updateJacobian(q);
  matrix_t J = matrix_t::Constant(y.h->reducedDimension(), y.h->freeVariables().nbIndices(), 1e30);
  y.h->getReducedJacobian(J);
  return J;
}

static void reducedJacobian(Src& s) {
  System y = system(s, opts());
  if (!y.levels()) discard();
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  if (s.coin()) y.solve(q);  // uses the solver before
  y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q) || q.cwiseAbs().maxCoeff() > 1e2) discard();
  s.note() << "q " << gen::str(q) << "\n";
  matrix_t J = reduced(y, q);
  struct Blk {
    std::size_t i;
    matrix_t J;
    std::vector<std::vector<bool>> ok;
    bool zero;
  };
  std::vector<Blk> blk;
  for (long l = 0; l < y.levels(); ++l)
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (y.expl[i] || (long)y.prio[i] != l) continue;
      Blk b;
      b.i = i;
      if (!rowsOf(y, i, q, b.J, b.ok)) discard();
      b.zero = !b.J.size() || b.J.cwiseAbs().maxCoeff() < 1e-6;
      blk.push_back(b);
    }
  // constraints that do not depend on the free variables may be absent
  std::string why;
  std::function<bool(std::size_t, long)> match = [&](std::size_t k, long row) {
    if (k == blk.size()) return row == J.rows();
    const Blk& b = blk[k];
    if (row + b.J.rows() <= J.rows()) {
      if (close(b.J, J.middleRows(row, b.J.rows()), b.ok)) {
        if (match(k + 1, row + b.J.rows())) return true;
      } else if (why.empty()) {
        std::ostringstream o;
        o << "constraint " << b.i << " rows " << row << "\n" << gen::strM(J.middleRows(row, b.J.rows())) << "\nnumerical\n" << gen::strM(b.J);
        why = o.str();
      }
    }
    return b.zero && match(k + 1, row);
  };
  PBT_CHECK(match(0, 0), "reduced-jacobian", why << "\nreduced Jacobian\n" << gen::strM(J));
  if (anyExplicit(y) && J.size()) s.nontrivial();
  if (J.size()) s.label("non empty");
}

static void kernel(Src& s) {
  System y = system(s, opts());
  if (!y.levels()) discard();
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  if (s.coin()) y.solve(q);
  y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q) || q.cwiseAbs().maxCoeff() > 1e2) discard();
  s.note() << "q " << gen::str(q) << "\n";
  long nv = y.w.space->nv();
  matrix_t J = reduced(y, q);
  vector_t v = gen::velocity(s, nv, 1.), r = vector_t::Constant(nv, 1e30);
  y.b()->projectVectorOnKernel(q, v, r);
  if (J.rows() == 0) {
    PBT_CHECK(r == v, "no-constraint", gen::str(r) << " instead of " << gen::str(v));
    return;
  }
  if (J.cols() == 0) discard();
  Eigen::JacobiSVD<matrix_t> svd(J, Eigen::ComputeThinU | Eigen::ComputeThinV);
  vector_t sv = svd.singularValues();
  long rank = 0;
  for (long i = 0; i < sv.size(); ++i) {
    if (sv[i] > 1e-5 * sv[0] && sv[i] > 0) ++rank;
    else if (sv[i] > 1e-11 * sv[0]) discard();
  }
  matrix_t V = svd.matrixV().leftCols(rank);
  vector_t vf(J.cols()), rf(J.cols());
  long k = 0;
  for (long i = 0; i < nv; ++i) {
    if (y.free[(std::size_t)i]) {
      vf[k] = v[i];
      rf[k++] = r[i];
    } else {
      PBT_CHECK(r[i] == 0, "not-free", "velocity " << i << " is not free: " << gen::str(r));
    }
  }
  vector_t e = vf - V * (V.transpose() * vf);
  PBT_CHECK((e - rf).norm() < 1e-8 * (1 + v.norm()), "kernel", gen::str(rf) << " instead of " << gen::str(e) << "\nJ\n" << gen::strM(J));
  if (rank && rank < J.cols()) s.nontrivial();
}

static void projectConfiguration(Src& s) {
  Opts o = opts();
  System y = system(s, o);
  if (!y.levels()) discard();
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q) || q.cwiseAbs().maxCoeff() > 1e2) discard();
  Configuration_t to = s.coin() ? near(s, y.w, q, .5) : config(s, y.w), r = Configuration_t::Constant(q.size(), 1e30);
  s.note() << "from " << gen::str(q) << "\nto " << gen::str(to) << "\n";
  y.b()->projectOnKernel(q, to, r);
  LiegroupElement a(q, y.w.space), b(to, y.w.space);
  vector_t v = b - a, pv(v.size());
  y.b()->projectVectorOnKernel(q, v, pv);
  LiegroupElement e(a);
  e += pv;
  Configuration_t x(e.vector());
  for (long i = 0; i < x.size(); ++i) x[i] = std::min(std::max(x[i], y.lb[i]), y.ub[i]);
  PBT_CHECK((x - r).norm() < 1e-8, "configuration", gen::str(r) << " instead of " << gen::str(x));
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C11";
  p.rule = "exact: explicit and implicit constraints; reduced: explicit constraints and a non empty reduced Jacobian; kernel: the kernel is neither "
           "{0} nor the whole space";
  p.facets.push_back({"exact", 3, exact});
  p.facets.push_back({"reduced", 4, reducedJacobian});
  p.facets.push_back({"kernel", 3, kernel});
  p.facets.push_back({"project", 1, projectConfiguration});
  p.quick = 60000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
