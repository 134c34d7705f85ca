// C08: solvers move only free variables, stay within the bounds and stop.
#include "sys.hh"
using namespace pbt;
using namespace sys;

static std::vector<bool> movable(const System& y, std::vector<bool>& fixedConf) {
  std::vector<bool> out = y.outputs(), m((std::size_t)y.w.space->nv());
  for (std::size_t i = 0; i < m.size(); ++i) m[i] = out[i] || y.free[i];
  fixedConf.assign((std::size_t)y.w.space->nq(), false);
  for (auto& b : y.w.blocks) {
    bool any = false;
    for (long i = 0; i < b.nv; ++i) any |= m[(std::size_t)(b.iv + i)];
    for (long i = 0; i < b.nq; ++i)
      fixedConf[(std::size_t)(b.iq + i)] = b.k == VEC ? !m[(std::size_t)(b.iv + i)] : !any;
  }
  return m;
}

static void check(Src& s, const System& y, const Configuration_t& q0, const Configuration_t& q, const std::string& what) {
  std::vector<bool> fixed, out = y.outputs();
  movable(y, fixed);
  PBT_CHECK(q.allFinite(), "finite", what << " gives " << gen::str(q));
  if (q.size() && q.cwiseAbs().maxCoeff() > 1e8) return;
  PBT_CHECK(normalized(y.w, q, 1e-8), "normalized", what << " gives " << gen::str(q));
  bool anyFixed = false;
  for (long i = 0; i < q.size(); ++i)
    if (fixed[(std::size_t)i]) {
      anyFixed = true;
      PBT_CHECK(std::abs(q[i] - q0[i]) < 1e-9, "fixed", what << " moves coordinate " << i << "\nfrom " << gen::str(q0) << "\nto " << gen::str(q));
    }
  if (anyFixed) s.label("fixed coordinates");
  // bounds
  if (y.sat) {
    bool hit = false;
    for (auto& b : y.w.blocks)
      for (long i = 0; i < b.nq; ++i) {
        bool o = false;  // outputs of explicit constraints are not saturated
        if (b.k == VEC)
          o = out[(std::size_t)(b.iv + i)];
        else
          for (long k = 0; k < b.nv; ++k) o |= out[(std::size_t)(b.iv + k)];
        if (o) continue;
        long j = b.iq + i;
        hit |= q[j] == y.lb[j] || q[j] == y.ub[j];
        PBT_CHECK(q[j] >= y.lb[j] && q[j] <= y.ub[j], "bounds", what << " coordinate " << j << " out of bounds " << gen::str(q));
      }
    if (hit) s.label("bound reached");
  }
}

static std::vector<const Smooth*> counters(const System& y) {
  std::vector<const Smooth*> c;
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (!y.expl[i])
      if (auto* p = dynamic_cast<const Smooth*>(&y.cons[i].c->function())) c.push_back(p);
  return c;
}

static void solve(Src& s) {
  System y = system(s);
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  s.note() << "start " << gen::str(q) << "\n";
  Configuration_t q0(q);
  auto c = counters(y);
  std::vector<long> before;
  for (auto* p : c) before.push_back(p->jacobians);
  bool optimize = y.sub && y.levels() && s.chance(1, 8);
  HierarchicalIterative::Status st = y.solve(q, optimize);
  s.label(sys::name(st));
  s.note() << "status " << sys::name(st) << "\n";
  check(s, y, q0, q, "solve");
  // one evaluation at the start and one per iteration
  for (std::size_t k = 0; k < c.size(); ++k) {
    long n = c[k]->jacobians - before[k];
    PBT_CHECK(n <= y.maxIter + 1, "iterations", n << " evaluations of a Jacobian, " << y.maxIter << " iterations at most");
    s.label("iterations counted");
  }
  if (st == HierarchicalIterative::MAX_ITERATION_REACHED && !optimize)
    for (std::size_t k = 0; k < c.size(); ++k)
      PBT_CHECK(c[k]->jacobians - before[k] >= std::min(1L, y.maxIter), "stopped-early", "status max iteration");
  if ((q - q0).cwiseAbs().maxCoeff() > 1e-6) s.nontrivial();
}

// random sequences of steps keep the invariant as well
static void steps(Src& s) {
  Opts o;
  o.minCons = 1;
  System y = system(s, o);
  if (!y.levels()) discard();
  Configuration_t q = y.start(s), q0(q);
  if (!y.regular(q)) discard();
  if (y.sub) y.b()->explicitConstraintSet().solve(q);
  for (std::size_t l = 0; l < (std::size_t)y.levels(); ++l) {
    bool any = false;
    for (std::size_t i = 0; i < y.cons.size(); ++i) any |= !y.expl[i] && y.prio[i] == l;
    if (!any) discard();
  }
  if (y.h->reducedDimension() == 0) discard();
  long n = s.range(1, 5);
  solver::lineSearch::Constant constant;
  solver::lineSearch::Backtracking back;
  solver::lineSearch::FixedSequence fixed;
  solver::lineSearch::ErrorNormBased norm(.1);
  if (!y.sub) {
    // integration of a velocity of the free variables
    vector_t v = gen::velocity(s, y.w.space->nv(), 1.);
    for (long i = 0; i < v.size(); ++i)
      if (!y.free[(std::size_t)i]) v[i] = 0;
    Configuration_t r(q.size());
    y.h->integrate(q, v, r);
    check(s, y, q0, r, "integrate");
    if (v.norm() > 1e-6) s.nontrivial();
    return;
  }
  for (long k = 0; k < n; ++k) {
    if (q.cwiseAbs().maxCoeff() > 1e4) discard();
    switch (y.ls) {
      case 0: y.b()->oneStep(q, constant); break;
      case 1: y.b()->oneStep(q, back); break;
      case 2: y.b()->oneStep(q, fixed); break;
      default: y.b()->oneStep(q, norm);
    }
    check(s, y, q0, q, "oneStep");
  }
  if ((q - q0).cwiseAbs().maxCoeff() > 1e-6) s.nontrivial();
}

// saturation alone: projection on the box and report of the saturated coordinates
static void saturate(Src& s) {
  System y = system(s, [] {
    Opts o;
    o.maxCons = 0;
    return o;
  }());
  if (!y.sat) discard();
  Configuration_t q = config(s, y.w, 3.);
  if (s.coin())
    for (long i = 0; i < q.size(); ++i)
      if (s.chance(1, 4)) q[i] = s.coin() ? y.lb[i] : y.ub[i];
  for (long i = 0; i < q.size(); ++i)
    if (!std::isfinite(q[i])) q[i] = 0;
  solver::saturation::Base& b = *y.h->saturation();
  Configuration_t r = Configuration_t::Constant(q.size(), 1e30);
  Eigen::VectorXi sat = Eigen::VectorXi::Zero(y.w.space->nv());
  bool any = b.saturate(q, r, sat), expected = false;
  for (auto& bl : y.w.blocks)
    for (long i = 0; i < bl.nq; ++i) {
      long j = bl.iq + i;
      double e = std::min(std::max(q[j], y.lb[j]), y.ub[j]);
      PBT_CHECK(r[j] == e, "saturate", "coordinate " << j << " of " << gen::str(q) << " saturated to " << gen::str(r));
      int f = q[j] <= y.lb[j] ? -1 : q[j] >= y.ub[j] ? 1 : 0;
      expected |= f != 0;
      if (i < bl.nv && (bl.k == VEC || (bl.k != SO3K && i < bl.nv - (bl.k == SE2K ? 1 : 3)))) {
        PBT_CHECK(sat[bl.iv + i] == f, "flag", "velocity " << bl.iv + i << " flag " << sat[bl.iv + i] << " instead of " << f << " for " << gen::str(q));
        if (f) s.nontrivial();
      }
    }
  PBT_CHECK(any == expected, "any", "saturate returns " << any);
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C08";
  p.rule = "solve, steps: the configuration changes by more than 1e-6; saturate: at least one coordinate is saturated";
  p.facets.push_back({"solve", 6, solve});
  p.facets.push_back({"steps", 2, steps});
  p.facets.push_back({"saturate", 1, saturate});
  p.quick = 100000;
  p.thorough = 1000000;
  return pbt::main(argc, argv, p);
}
