// C25: descent directions, steps and line searches.
#include <Eigen/Eigenvalues>

#include "state.hh"
using namespace pbt;
using namespace sys;

static Opts opts() {
  Opts o;
  o.hierarchical = false;
  o.minCons = 1;
  o.saturation = false;
  o.guard = false;
  o.twins = true;
  return o;
}
// Jacobians with respect to the free variables and errors of the levels at q, as seen by the solver
struct Lin {
  std::vector<matrix_t> J;
  std::vector<vector_t> e;
  double n2 = 0;  // greatest squared error
};
// velocity variables that a constraint may depend on through the explicit constraints
static bool depends(const System& y, std::size_t i) {
  const ArrayXb& a = y.cons[i].c->function().activeDerivativeParameters();
  std::vector<bool> seen((std::size_t)a.size());
  std::function<bool(long)> go = [&](long v) {
    if (seen[(std::size_t)v]) return false;
    seen[(std::size_t)v] = true;
    if (y.free[(std::size_t)v]) return true;
    for (std::size_t k = 0; k < y.cons.size(); ++k) {
      if (!y.expl[k]) continue;
      auto o = indices(y.cons[k].e->outputVelocity());
      if (std::find(o.begin(), o.end(), v) == o.end()) continue;
      for (long x : indices(y.cons[k].e->inputVelocity()))
        if (go(x)) return true;
    }
    return false;
  };
  for (long v = 0; v < a.size(); ++v)
    if (a[v] && go(v)) return true;
  return false;
}
static Lin linearize(const System& y, const Configuration_t& q) {
  Lin l;
  std::unique_ptr<BySubstitution> h(new BySubstitution(*y.b()));  // the solver under test is not touched
  h->computeValue<true>(q);
  h->updateJacobian(q);
  matrix_t J = matrix_t::Constant(h->reducedDimension(), h->freeVariables().nbIndices(), 1e30);
  h->getReducedJacobian(J);
  long row = 0;
  for (long k = 0; k < y.levels(); ++k) {
    std::vector<double> e;
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (y.expl[i] || (long)y.prio[i] != k) continue;
      vector_t x = y.error(i, q);
      if (!y.isOptional(i)) l.n2 = std::max(l.n2, x.squaredNorm());
      if (!depends(y, i)) continue;
      for (long r = 0; r < x.size(); ++r)
        if (y.cons[i].mask[(std::size_t)r]) e.push_back(x[r]);
    }
    l.e.push_back(Eigen::Map<vector_t>(e.data(), (long)e.size()));
    PBT_CHECK(row + (long)e.size() <= J.rows(), "reduced-dimension", J.rows());
    l.J.push_back(J.middleRows(row, (long)e.size()));
    row += (long)e.size();
  }
  PBT_CHECK(row == J.rows(), "reduced-dimension", J.rows() << " instead of " << row);
  return l;
}
struct Pinv {
  matrix_t P, K;  // pseudo inverse, basis of the kernel
  vector_t sv;
  long rank = 0;
};
// singular values negligible with respect to scale are considered as zero
static Pinv pinv(const matrix_t& A, double scale) {
  Pinv r;
  long n = A.cols();
  // through the symmetric eigenvalue problem of a well scaled augmented matrix [0 A; A^T 0]
  long m = A.rows();
  matrix_t S(matrix_t::Zero(m + n, m + n));
  S.topRightCorner(m, n) = A;
  S.bottomLeftCorner(n, m) = A.transpose();
  Eigen::SelfAdjointEigenSolver<matrix_t> es(S);
  std::vector<double> sv;
  r.P = matrix_t::Zero(n, m);
  matrix_t V(n, std::min(m, n));
  for (long k = m + n - 1; k >= 0 && (long)sv.size() < std::min(m, n); --k) {
    double x = es.eigenvalues()[k];
    if (x > 1e-5 * scale) {
      vector_t u = es.eigenvectors().col(k).head(m) * std::sqrt(2.), v = es.eigenvectors().col(k).tail(n) * std::sqrt(2.);
      r.P += v * u.transpose() / x;
      V.col(r.rank++) = v;
    } else if (x > 1e-11 * scale)
      discard();
    sv.push_back(std::max(x, 0.));
  }
  r.sv = Eigen::Map<vector_t>(sv.data(), (long)sv.size());
  // complement of the row space
  matrix_t B = matrix_t::Identity(n, n) - V.leftCols(r.rank) * V.leftCols(r.rank).transpose();
  Eigen::SelfAdjointEigenSolver<matrix_t> eb((B + B.transpose()) / 2);
  r.K = eb.eigenvectors().rightCols(n - r.rank);
  return r;
}
// lexicographic least squares of minimal norm; first level alone if it is not satisfied and levels are solved one by one
static vector_t step(Src& s, const System& y, const Lin& l, long n, std::vector<std::pair<double, long>>* sv = nullptr) {
  vector_t dq(vector_t::Zero(n));
  matrix_t Z(matrix_t::Identity(n, n));
  bool some = false;
  for (std::size_t k = 0; k < l.J.size(); ++k) {
    if (sv) sv->push_back({0., 0});
    if (l.J[k].rows() == 0) continue;
    if (Z.cols() == 0) break;
    matrix_t A = l.J[k] * Z;
    double scale = l.J[k].norm();
    if (scale < 1e-8 && scale > 0) discard();
    Pinv p = pinv(A, scale);
    if (scale > 0 && p.rank && p.sv[0] < 1e-4 * scale) discard();
    vector_t r = -l.e[k] - l.J[k] * dq;
    dq += Z * (p.P * r);
    if (p.rank && some) s.label("several levels");
    if (some && p.rank < std::min(l.J[k].rows(), n)) s.label("conflict");
    if (p.rank) some = true;
    if (sv && p.rank) sv->back() = {p.sv[p.rank - 1], p.rank};
    if (y.level) {
      double x = r.squaredNorm(), t = y.thr * y.thr;
      if (x > .99 * t && x < 1.01 * t) discard();
      if (x > t) {
        s.label("stopped at a level");
        break;
      }
    }
    Z = (Z * p.K).eval();
  }
  return dq;
}
static vector_t compress(const System& y, vectorIn_t v) {
  std::vector<double> f;
  for (std::size_t k = 0; k < y.free.size(); ++k)
    if (y.free[k]) f.push_back(v[(long)k]);
  return Eigen::Map<vector_t>(f.data(), (long)f.size());
}
static Configuration_t add(const System& y, vectorIn_t q, vectorIn_t v, bool expl = true) {
  LiegroupElement x(Configuration_t(q), y.w.space);
  x += v;
  Configuration_t r(x.vector());
  if (expl) y.b()->explicitConstraintSet().solve(r);
  return r;
}
static bool init(Src& s, const System& y, Configuration_t& q) {
  if (!y.levels()) return false;
  q = y.start(s);
  if (!y.regular(q)) return false;
  y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q) || q.cwiseAbs().maxCoeff() > 1e2) return false;
  return y.h->reducedDimension() > 0 && y.h->freeVariables().nbIndices() > 0;
}
// comparisons of inequalities too close to their threshold
static bool edge(const System& y, const Configuration_t& q) {
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    Con d(y.cons[i]);
    for (auto& t : d.comp) t = Equality;
    vector_t x = prob::error(d, q, y.rhs[i], 0);
    for (long k = 0; k < x.size(); ++k) {
      ComparisonType t = y.cons[i].comp[(std::size_t)k];
      if ((t == Superior || t == Inferior) && std::abs(std::abs(x[k]) - y.ineq) < 1e-9) return true;
    }
  }
  return false;
}

static void direction(Src& s) {
  System y = system(s, opts());
  Configuration_t q;
  if (!init(s, y, q) || edge(y, q)) discard();
  s.note() << "q " << gen::str(q) << "\n";
  long n = y.h->freeVariables().nbIndices();
  std::vector<long> maxRank((std::size_t)y.levels(), 0);
  for (long it = s.range(1, 3); it--;) {
    Lin l = linearize(y, q);
    std::vector<std::pair<double, long>> sv;
    vector_t dq = step(s, y, l, n, &sv);
    Configuration_t q1(q);
    solver::lineSearch::Constant ls;
    y.b()->oneStep(q1, ls);
    vector_t d = y.h->lastStep();
    PBT_CHECK(d.size() == y.w.space->nv(), "size", d.size());
    for (std::size_t k = 0; k < y.free.size(); ++k)
      PBT_CHECK(y.free[k] || d[(long)k] == 0, "not-free", "variable " << k << ": " << gen::str(d));
    vector_t df = compress(y, d);
    // conditioning of the hierarchy
    double tol = 1e-7 * (1 + dq.norm());
    if (!((df - dq).norm() < tol)) {
      std::ostringstream o;
      for (std::size_t k = 0; k < l.J.size(); ++k) o << "\nlevel " << k << " error " << gen::str(l.e[k]) << "\nJ\n" << gen::strM(l.J[k]);
      pbt::fail("direction", gen::str(df) + "\ninstead of " + gen::str(dq) + o.str());
    }
    // configuration reached
    Configuration_t e = add(y, q, d);
    PBT_CHECK((e - q1).norm() < 1e-9 * (1 + e.norm()), "step", gen::str(q1) << " instead of " << gen::str(e));
    // smallest singular value
    if (y.levels() == 1) {
      maxRank[0] = std::max(maxRank[0], sv[0].second);
      if (maxRank[0]) {
        double x = maxRank[0] == sv[0].second ? sv[0].first : 0.;
        PBT_CHECK(std::abs(y.h->sigma() - x) < 1e-8 * (1 + x), "sigma", y.h->sigma() << " instead of " << x);
      }
    }
    if (dq.norm() > 1e-6) s.nontrivial();
    q = q1;
    s.note() << "then " << gen::str(q) << "\n";
    if (!y.regular(q) || !(q.cwiseAbs().maxCoeff() < 1e2) || edge(y, q)) break;
  }
}

static void lineSearches(Src& s) {
  System y = system(s, opts());
  Configuration_t q;
  if (!init(s, y, q) || edge(y, q)) discard();
  s.note() << "q " << gen::str(q) << "\n";
  long n = y.h->freeVariables().nbIndices();
  int kind = (int)s.raw(4);
  solver::lineSearch::Constant ct;
  solver::lineSearch::Backtracking bt;
  solver::lineSearch::FixedSequence fs;
  double alphaMin = s.pick({.2, .05, .5, .9});
  bool three = s.coin();
  double ea = s.pick({1e-3, 1., 1e-1}), eb = s.pick({0., -1., -.2});
  solver::lineSearch::ErrorNormBased en = three ? solver::lineSearch::ErrorNormBased(alphaMin, ea, eb) : solver::lineSearch::ErrorNormBased(alphaMin);
  if (s.chance(1, 3)) {
    fs.alpha = s.real(.01, .9), fs.alphaMax = s.real(.1, 1), fs.K = s.real(0, 1);
    bt.c = s.pick({.001, .3, .9}), bt.tau = s.real(.3, .9), bt.smallAlpha = s.pick({.2, .01, .6});
  }
  // the last evaluation does not matter
  if (s.coin()) {
    Configuration_t x = y.start(s);
    y.b()->explicitConstraintSet().solve(x);
    y.b()->isSatisfied(x);
    s.label("evaluated before");
  }
  double fixed = fs.alpha;
  for (long it = s.range(1, 3); it--;) {
    Lin l = linearize(y, q);
    vector_t dq = step(s, y, l, n);
    if (!(dq.norm() < 1e2)) discard();
    Configuration_t q1(q);
    double alpha = 1;
    switch (kind) {
      case 0: y.b()->oneStep(q1, ct); break;
      case 1: y.b()->oneStep(q1, bt); break;
      case 2:
        y.b()->oneStep(q1, fs);
        alpha = fixed;
        fixed = fs.alphaMax - fs.K * (fs.alphaMax - fixed);
        PBT_CHECK(std::abs(fixed - fs.alpha) < 1e-12, "sequence", fs.alpha << " instead of " << fixed);
        break;
      default: {
        y.b()->oneStep(q1, en);
        double r = l.n2 / (y.thr * y.thr);
        alpha = en.C - en.K * std::tanh(en.a * r + en.b);
        PBT_CHECK(alpha > alphaMin - 1e-9 && alpha < 1 + 1e-9, "bounds", alpha << " minimum " << alphaMin);
        if (!three) {
          double a0 = en.C - en.K * std::tanh(en.b);
          PBT_CHECK(a0 >= alpha - 1e-12 && a0 > .9, "small-errors", a0);
          PBT_CHECK(std::abs(en.C - en.K * std::tanh(en.a * 1e6 + en.b) - (1 + alphaMin) / 2) < 1e-6, "half", alphaMin);
        } else {
          PBT_CHECK(en.a == ea && en.b == eb && std::abs(en.C + en.K - 1) < 1e-12 && std::abs(en.C - en.K - alphaMin) < 1e-12, "parameters", en.a << " " << en.b);
        }
      }
    }
    vector_t d = compress(y, y.h->lastStep());
    if (kind == 1) {
      double t = 0;
      for (std::size_t k = 0; k < l.J.size(); ++k) t += (l.J[k] * dq).dot(l.e[k]);
      t *= 2 * bt.c;
      alpha = bt.smallAlpha;
      if (std::abs(t) < 1e-12 * (1 + l.n2)) discard();
      if (t < 0)
        for (double a = 1; a > bt.smallAlpha; a *= bt.tau) {
          vector_t v(vector_t::Zero(y.w.space->nv()));
          long j = 0;
          for (std::size_t k = 0; k < y.free.size(); ++k)
            if (y.free[k]) v[(long)k] = a * dq[j++];
          Configuration_t x = add(y, q, v);
          if (!y.regular(x) || edge(y, x)) discard();
          double f = y.error2([&] { return x; }()) ;
          double m = 0;
          for (std::size_t i = 0; i < y.cons.size(); ++i)
            if (!y.expl[i] && !y.isOptional(i)) m = std::max(m, y.error(i, x).squaredNorm());
          (void)f;
          double g = l.n2 - m + a * t;
          if (std::abs(g) < 1e-9 * (1 + l.n2 + m)) discard();
          if (std::abs(a - bt.smallAlpha) < 1e-9) discard();
          if (g >= 0) {
            alpha = a;
            break;
          }
          s.label("backtracked");
        }
      else
        s.label("not a descent direction");
    }
    PBT_CHECK((d - alpha * dq).norm() < 1e-7 * (1 + dq.norm()), "step-length",
              "kind " << kind << ": " << gen::str(d) << " instead of " << alpha << " times " << gen::str(dq) << ", error " << l.n2);
    Configuration_t e = add(y, q, y.h->lastStep());
    PBT_CHECK((e - q1).norm() < 1e-9 * (1 + e.norm()), "reached", gen::str(q1) << " instead of " << gen::str(e));
    if (dq.norm() > 1e-6) s.nontrivial();
    static const char* names[] = {"constant", "backtracking", "fixed sequence", "error norm"};
    s.label(names[kind]);
    q = q1;
    s.note() << "then " << gen::str(q) << "\n";
    if (!y.regular(q) || !(q.cwiseAbs().maxCoeff() < 1e2) || edge(y, q)) break;
  }
}

static void integration(Src& s) {
  Opts o = opts();
  o.hierarchical = s.coin();
  o.saturation = true;
  System y = system(s, o);
  Configuration_t q = y.start(s);
  if (y.sub) y.b()->explicitConstraintSet().solve(q);
  if (!(q.cwiseAbs().maxCoeff() < 1e2)) discard();
  vector_t v = gen::velocity(s, y.w.space->nv(), s.pick({.3, 1., 3.}));
  LiegroupElement x(q, y.w.space);
  x += v;
  Configuration_t e(x.vector()), r = Configuration_t::Constant(q.size(), 1e30);
  bool sat = false;
  for (long i = 0; i < e.size(); ++i) {
    if (std::abs(e[i] - y.lb[i]) < 1e-9 || std::abs(e[i] - y.ub[i]) < 1e-9) discard();
    sat |= e[i] < y.lb[i] || e[i] > y.ub[i];
    e[i] = std::min(std::max(e[i], y.lb[i]), y.ub[i]);
  }
  if (y.sub) y.b()->explicitConstraintSet().solve(e);
  bool same = s.coin();
  bool b;
  s.note() << "from " << gen::str(q) << " velocity " << gen::str(v) << (same ? " in place" : "") << "\n";
  if (same) {
    r = q;
    b = y.h->integrate(r, v, r);
  } else
    b = y.h->integrate(q, v, r);
  PBT_CHECK((r - e).norm() < 1e-9 * (1 + e.norm()), "integrate", gen::str(r) << " instead of " << gen::str(e));
  PBT_CHECK(b == sat, "saturated", b << " instead of " << sat);
  if (sat) s.label("saturated");
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C25";
  p.rule = "direction and line-search: a non-zero step; integrate: always";
  p.facets.push_back({"direction", 4, direction});
  p.facets.push_back({"line-search", 3, lineSearches});
  p.facets.push_back({"integrate", 1, integration});
  p.quick = 60000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
