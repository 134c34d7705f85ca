#include "sys.hh"

namespace sys {
const char* name(HierarchicalIterative::Status s) {
  switch (s) {
    case HierarchicalIterative::SUCCESS: return "success";
    case HierarchicalIterative::INFEASIBLE: return "infeasible";
    case HierarchicalIterative::MAX_ITERATION_REACHED: return "max iteration";
    default: return "error increased";
  }
}
vector_t rhsFrom(const Con& c, vectorIn_t q) {
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  LiegroupElement y(sp);
  c.c->function().value(y, q);
  vector_t v = y - LiegroupElement(sp->neutral());
  for (std::size_t i = 0; i < c.comp.size(); ++i)
    if (c.comp[i] != Equality) v[(long)i] = 0;
  LiegroupElement e(sp->neutral());
  e += v;
  return e.vector();
}
long System::levels() const {
  long n = 0;
  for (std::size_t i = 0; i < cons.size(); ++i)
    if (!expl[i]) n = std::max(n, (long)prio[i] + 1);
  return n;
}
bool System::isOptional(std::size_t i) const { return optional && !expl[i] && (long)prio[i] + 1 == levels(); }
vector_t System::error(std::size_t i, vectorIn_t q) const { return prob::error(cons[i], q, rhs[i], ineq); }
double System::error2(vectorIn_t q) const {
  double e = 0;
  for (std::size_t i = 0; i < cons.size(); ++i) {
    if (isOptional(i)) continue;
    double x = error(i, q).squaredNorm();
    if (!(x <= e)) e = x;  // keeps NaN
    if (std::isnan(x)) return x;
  }
  return e;
}
template <class LS>
static HierarchicalIterative::Status run(const System& y, vectorOut_t q, bool optimize, LS ls) {
  if (!y.sub) return y.h->solve(q, ls);
  return y.b()->solve(q, optimize, ls);
}
HierarchicalIterative::Status System::solve(vectorOut_t q, bool optimize) const {
  switch (ls) {
    case 0: return run(*this, q, optimize, solver::lineSearch::Constant());
    case 1: return run(*this, q, optimize, solver::lineSearch::Backtracking());
    case 2: return run(*this, q, optimize, solver::lineSearch::FixedSequence());
    default: return run(*this, q, optimize, solver::lineSearch::ErrorNormBased(.1));
  }
}
std::vector<bool> System::outputs() const {
  std::vector<bool> o((std::size_t)w.space->nv(), false);
  for (std::size_t i = 0; i < cons.size(); ++i)
    if (expl[i])
      for (long k : indices(cons[i].e->outputVelocity())) o[(std::size_t)k] = true;
  return o;
}
bool System::regular(vectorIn_t q) const {
  for (auto& c : cons)
    if (c.regular && !c.regular(q)) return false;
  return true;
}
// Abandons cases that diverge: rounding errors of huge coordinates exceed the thresholds, then coordinates overflow.
struct Guard : solver::saturation::Base {
  HierarchicalIterative::Saturation_t in;
  explicit Guard(HierarchicalIterative::Saturation_t i) : in(i) {}
  bool saturate(vectorIn_t q, vectorOut_t r, Eigen::VectorXi& sat) {
    for (long i = 0; i < q.size(); ++i)
      if (std::abs(q[i]) > 1e8) pbt::discard();
    return in->saturate(q, r, sat);
  }
};
static void clampTo(const World& w, const vector_t& lb, const vector_t& ub, Configuration_t& q) {
  for (auto& b : w.blocks) {
    long n = b.k == VEC ? b.nq : b.k == SE2K ? 2 : b.k == SE3K || b.k == R3SO3K ? 3 : 0;
    for (long i = b.iq; i < b.iq + n; ++i) q[i] = std::min(std::max(q[i], lb[i]), ub[i]);
  }
}
Configuration_t System::start(Src& s) const {
  Configuration_t q;
  switch (s.weighted({2, 4, 1})) {
    case 0: q = config(s, w, 1.5); break;
    case 1: q = near(s, w, target, s.pick({.3, .1, .01, 1e-4})); break;
    default: q = target;
  }
  clampTo(w, lb, ub, q);
  return q;
}

System system(Src& s, const Opts& o) {
  System y;
  if (s.coin()) {
    y.w = abstractWorld(s, 1, 5);
  } else {
    RobotOpts ro;
    ro.freeflyers = (int)s.range(0, 2);
    y.w = robotWorld(s, ro);
  }
  const World& w = y.w;
  s.note() << w.desc;
  y.target = config(s, w, 1.2);
  y.sub = o.bySubstitution && (!o.hierarchical || s.chance(3, 5));
  if (y.sub)
    y.h = std::shared_ptr<HierarchicalIterative>(new BySubstitution(w.space));
  else
    y.h = std::shared_ptr<HierarchicalIterative>(new HierarchicalIterative(w.space));
  y.thr = s.pick({1e-4, 1e-3, 1e-6, 1e-2, .1});
  y.ineq = o.inequalities && s.chance(1, 3) ? s.pick({1e-3, 1e-1}) : 0;
  y.maxIter = s.pick({40L, 20L, 5L, 1L, 0L, 2L, 100L});
  y.ls = (int)s.raw(4);
  y.optional = o.levels && s.chance(1, 5);
  y.level = o.levels && s.chance(1, 5);
  if (y.sub)
    y.b()->errorThreshold(y.thr);
  else
    y.h->errorThreshold(y.thr);
  y.h->inequalityThreshold(y.ineq);
  y.h->maxIterations(y.maxIter);
  y.h->lastIsOptional(y.optional);
  y.h->solveLevelByLevel(y.level);
  s.note() << (y.sub ? "by substitution" : "hierarchical") << " threshold " << y.thr << " inequality threshold " << y.ineq
           << " max iterations " << y.maxIter << " line search " << y.ls << (y.optional ? " last is optional" : "")
           << (y.level ? " level by level" : "") << "\ntarget " << gen::str(y.target) << "\n";
  long n = s.range(o.minCons, o.maxCons);
  for (long i = 0; i < n; ++i) {
    Con c;
    if (o.explicitCons && s.chance(2, 5)) {
      c = explicitCon(s, w, (int)i, o.masks);
    } else {
      c = implicit(s, w, (int)i, o.inequalities, o.masks, s.chance(2, 3) ? &y.target : nullptr);
      if (o.twins && !y.cons.empty() && s.chance(1, 3)) {
        Con t = s.pick(y.cons);
        if (!t.e && t.g && t.g->outputSpace()->isVectorSpace()) {
          double k = s.pick({2., -1., .1});
          t.g = Smooth::create(w.blocks, t.g->outputSpace(), t.g->A, t.g->b, k * t.g->amp, "t" + std::to_string(i));
          std::ostringstream d;
          d << t.desc << " times " << k;
          t.desc = d.str();
          t.c = Implicit::create(t.g, t.comp, t.mask);
          c = t;
          s.label("twin");
        }
      }
    }
    std::size_t p = 0;
    if (o.levels && s.chance(2, 5)) p = (std::size_t)s.range(0, y.levels());
    bool ok = true;
    try {
      ok = y.h->add(c.c, p);
    } catch (const std::logic_error&) {
      ok = false;
    }
    if (!ok) {
      s.label("duplicate");
      continue;
    }
    bool e = y.sub && c.e && y.b()->explicitConstraintSet().contains(c.e);
    y.cons.push_back(c);
    y.prio.push_back(p);
    y.expl.push_back(e);
    s.note() << y.cons.size() - 1 << (e ? " (explicit)" : "") << " priority " << p << ": " << c.desc << "\n";
    s.label(e ? "explicit" : "implicit");
  }
  // free variables
  y.free.assign((std::size_t)w.space->nv(), true);
  std::vector<bool> out = y.outputs();
  for (std::size_t i = 0; i < out.size(); ++i)
    if (out[i]) y.free[i] = false;
  if (o.restrictFree && s.chance(1, 3)) {
    for (auto& b : w.blocks) {
      bool all = s.coin();
      for (long i = b.iv; i < b.iv + b.nv; ++i)
        if (b.k == VEC ? s.chance(1, 4) : all) y.free[(std::size_t)i] = false;
    }
    segments_t seg;
    for (std::size_t i = 0; i < out.size(); ++i)
      if (y.free[i]) seg.push_back(segment_t((long)i, 1));
    y.h->freeVariables(seg);
    s.note() << "free " << gen::str(y.free) << "\n";
    s.label("restricted free variables");
  }
  // bounds
  const double inf = std::numeric_limits<double>::infinity();
  y.lb = vector_t::Constant(w.space->nq(), -inf);
  y.ub = vector_t::Constant(w.space->nq(), inf);
  if (o.saturation && s.chance(2, 5)) {
    if (w.r && s.coin()) {
      y.sat = 1;
      y.h->saturation(HierarchicalIterative::Saturation_t(new solver::saturation::Device(w.r)));
      const auto& m = w.r->model();
      y.lb.head(m.nq) = m.lowerPositionLimit;
      y.ub.head(m.nq) = m.upperPositionLimit;
      for (long k = 0; k < w.r->extraConfigSpace().dimension(); ++k) {
        y.lb[m.nq + k] = w.r->extraConfigSpace().lower(k);
        y.ub[m.nq + k] = w.r->extraConfigSpace().upper(k);
      }
    } else {
      y.sat = 2;
      Eigen::VectorXi map(w.space->nq());
      for (auto& b : w.blocks) {
        long k = b.k == VEC ? b.nq : b.k == SE2K ? 2 : b.k == SE3K || b.k == R3SO3K ? 3 : 0;
        for (long i = 0; i < b.nq; ++i) {
          map[b.iq + i] = (int)(b.iv + std::min(i, b.nv - 1));
          if (i < k && s.chance(2, 3)) {
            // bounds around the target, once in a while excluding it
            double c = y.target[b.iq + i], d = s.chance(1, 8) ? s.real(-.5, .5) : 0;
            y.lb[b.iq + i] = c + d - s.real(0, 1);
            y.ub[b.iq + i] = c + d + s.real(0, 1);
          }
        }
      }
      y.h->saturation(HierarchicalIterative::Saturation_t(
          w.space->nq() == w.space->nv() && s.coin() ? new solver::saturation::Bounds(y.lb, y.ub)
                                                     : new solver::saturation::Bounds(y.lb, y.ub, map)));
    }
    s.note() << "bounds " << gen::str(y.lb) << " " << gen::str(y.ub) << "\n";
    s.label("bounds");
  }
  if (o.guard) y.h->saturation(HierarchicalIterative::Saturation_t(new Guard(y.h->saturation())));
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    vector_t v(y.cons[i].c->function().outputSpace()->neutral().vector());
    if (o.rhs && !s.chance(1, 6)) {
      v = s.chance(1, 6) ? rightHandSide(s, y.cons[i], .5) : rhsFrom(y.cons[i], y.target);
      PBT_CHECK(y.cons[i].c->checkRightHandSide(LiegroupElement(v, y.cons[i].c->function().outputSpace())), "check-rhs",
                "right hand side refused: constraint " << i << " " << gen::str(v));
      y.setRhs(i, v);
    }
    y.rhs.push_back(v);
    s.note() << "rhs " << i << ": " << gen::str(v) << "\n";
  }
  return y;
}
}  // namespace sys
