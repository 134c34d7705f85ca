// C07: a solver that reports success has solved the problem; satisfaction tests are right.
#include "sys.hh"
using namespace pbt;
using namespace sys;

static void success(Src& s) {
  System y = system(s);
  Configuration_t q = y.start(s), q0(q);
  if (!y.regular(q)) discard();
  s.note() << "start " << gen::str(q) << "\n";
  double before = y.error2(q);
  HierarchicalIterative::Status st = y.solve(q);
  s.note() << "status " << sys::name(st) << "\nresult " << gen::str(q) << "\n";
  s.label(sys::name(st));
  if (q.size() && q.cwiseAbs().maxCoeff() > 1e4) discard();
  if (st != HierarchicalIterative::SUCCESS) return;
  double after = y.error2(q), t2 = y.thr * y.thr;
  PBT_CHECK(after <= t2 * (1 + 1e-6), "success", "squared error " << after << " above " << t2);
  if (after < t2 * (1 - 1e-6)) PBT_CHECK(y.isSatisfied(q), "not-satisfied", "success, but isSatisfied returns false");
  if (before > t2 && !y.cons.empty()) s.nontrivial();
}

// configurations close to the boundary of satisfaction
static Configuration_t atBoundary(Src& s, const System& y, Configuration_t a, Configuration_t b) {
  // bisection along the path between a configuration that satisfies and another
  double lo = 0, hi = 1;
  auto at = [&](double x) {
    LiegroupElement e(a, y.w.space), f(b, y.w.space);
    vector_t v = (f - e) * x;
    e += v;
    return Configuration_t(e.vector());
  };
  double f = s.pick({1., 1.01, .99, 1.5});
  for (int k = 0; k < 40; ++k) {
    double m = (lo + hi) / 2;
    (y.error2(at(m)) < y.thr * y.thr * f ? lo : hi) = m;
  }
  return at(s.coin() ? lo : hi);
}

static void verdict(Src& s) {
  System y = system(s);
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  if (s.coin()) y.solve(q);
  if (s.coin() && y.error2(q) < y.thr * y.thr) {
    q = atBoundary(s, y, q, near(s, y.w, q, .3));
    s.label("boundary");
  }
  s.note() << "q " << gen::str(q) << "\n";
  if (q.size() && q.cwiseAbs().maxCoeff() > 1e4) discard();
  if (!y.regular(q)) discard();
  double t2 = y.thr * y.thr, e2 = y.error2(q);
  if (std::isnan(e2)) discard();
  bool clear = std::abs(e2 - t2) > 1e-6 * t2 + 1e-14;
  if (clear) PBT_CHECK(y.isSatisfied(q) == (e2 < t2), "isSatisfied", "squared error " << e2 << " threshold " << t2);
  double t = s.pick({1e-5, 1e-2, .3, 1.});
  if (std::abs(e2 - t * t) > 1e-6 * t * t + 1e-14)
    PBT_CHECK(y.isSatisfied(q, t) == (e2 < t * t), "isSatisfied-threshold", "squared error " << e2 << " threshold " << t * t);
  if (y.sub && clear) {
    vector_t all(y.b()->dimension() + y.b()->explicitConstraintSet().errorSize());
    PBT_CHECK(y.b()->isSatisfied(q, vectorOut_t(all)) == (e2 < t2), "isSatisfied-error", "squared error " << e2);
    // head: implicit constraints by increasing priorities, tail: explicit ones
    long row = 0;
    for (long l = 0; l < y.levels(); ++l)
      for (std::size_t i = 0; i < y.cons.size(); ++i) {
        if (y.expl[i] || (long)y.prio[i] != l) continue;
        vector_t e = y.error(i, q);
        PBT_CHECK((all.segment(row, e.size()) - e).norm() < 1e-9, "error-vector", "constraint " << i << "\n"
                  << gen::str(all.segment(row, e.size())) << "\ninstead of " << gen::str(e));
        row += e.size();
      }
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (!y.expl[i]) continue;
      vector_t e = y.error(i, q);
      PBT_CHECK((all.segment(row, e.size()) - e).norm() < 1e-8, "error-vector", "explicit constraint " << i << "\n"
                << gen::str(all.segment(row, e.size())) << "\ninstead of " << gen::str(e));
      row += e.size();
    }
    PBT_CHECK(row == all.size(), "error-size", row << " " << all.size());
  }
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    vector_t e = y.error(i, q), g(e.size());
    bool found = false;
    double n = e.squaredNorm();
    bool r = y.isSatisfied(i, q, g, found);
    PBT_CHECK(found, "found", "constraint " << i);
    PBT_CHECK((g - e).norm() < 1e-8, "constraint-error", "constraint " << i << "\n" << gen::str(g) << "\ninstead of " << gen::str(e));
    if (std::abs(n - t2) > 1e-6 * t2 + 1e-14)
      PBT_CHECK(r == (n < t2), "constraint-satisfied", "constraint " << i << " squared error " << n << " threshold " << t2);
  }
  // a constraint that is not in the solver
  Con other = implicit(s, y.w, 1000);
  bool found = true;
  vector_t g(other.c->function().outputDerivativeSize());
  if (!y.h->contains(other.c)) {
    bool r = y.sub ? y.b()->isConstraintSatisfied(other.c, q, g, found) : y.h->isConstraintSatisfied(other.c, q, g, found);
    bool same = false;
    for (auto& c : y.cons) same |= c.c->function() == other.c->function();
    if (!same) PBT_CHECK(!found && !r, "not-found", "constraint that is not in the solver");
  }
  if (!y.cons.empty()) s.nontrivial();
}

// optimization of the last level from a configuration that satisfies the others
static void optimize(Src& s) {
  Opts o;
  o.hierarchical = false;
  o.minCons = 1;
  System y = system(s, o);
  y.optional = true;
  y.h->lastIsOptional(true);
  Configuration_t q = y.start(s);
  if (!y.regular(q)) discard();
  y.optional = false;
  y.b()->explicitConstraintSet().solve(q);
  y.optional = true;
  double t2 = y.thr * y.thr;
  if (!y.levels() || !(y.error2(q) < .2 * t2)) discard();
  auto cost = [&](vectorIn_t x) {
    double c = 0;
    for (std::size_t i = 0; i < y.cons.size(); ++i)
      if (y.isOptional(i)) c += y.error(i, x).squaredNorm();
    return c;
  };
  double c0 = cost(q);
  s.note() << "start " << gen::str(q) << " cost " << c0 << "\n";
  Configuration_t q1(q);
  HierarchicalIterative::Status st = y.solve(q1, true);
  s.label(std::string("optimize: ") + sys::name(st));
  // rounding errors of the translations of far away bodies are above the threshold
  if (q1.cwiseAbs().maxCoeff() > 1e4) discard();
  double e = y.error2(q1), c1 = cost(q1);
  PBT_CHECK(e < t2 * (1 + 1e-6), "optimize-error", "squared error " << e << " above " << t2 << " at " << gen::str(q1));
  PBT_CHECK(c1 <= c0 * (1 + 1e-9) + 1e-15, "optimize-cost", "cost " << c0 << " -> " << c1 << " at " << gen::str(q1));
  if (c1 < .99 * c0) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C07";
  p.rule = "success: the start does not satisfy the constraints and the solver succeeds; verdict: the solver contains constraints; "
           "optimize: the cost decreases";
  p.facets.push_back({"success", 5, success});
  p.facets.push_back({"verdict", 4, verdict});
  p.facets.push_back({"optimize", 1, optimize});
  p.quick = 100000;
  p.thorough = 150000;
  return pbt::main(argc, argv, p);
}
