// C20: comparison types decide satisfaction as documented.
#include <hpp/constraints/comparison-types.hh>
#include <hpp/constraints/implicit-constraint-set.hh>

#include "sys.hh"
using namespace pbt;
using namespace sys;

static ComparisonType type(Src& s) { return s.pick({Equality, EqualToZero, Superior, Inferior}); }
static std::string text(const ComparisonTypes_t& v) {
  std::string o = "(";
  for (std::size_t i = 0; i < v.size(); ++i)
    o += std::string(i ? ", " : "") + (v[i] == Equality      ? "Equality"
                                       : v[i] == EqualToZero ? "EqualToZero"
                                       : v[i] == Superior    ? "Superior"
                                                             : "Inferior");
  return o + ")";
}

// programs of operators << and *
static void builders(Src& s) {
  ComparisonTypes_t model, v;
  auto rep = [&](int n, ComparisonType t) { model.insert(model.end(), (std::size_t)n, t); };
  int n = (int)s.range(0, 4), m = (int)s.range(0, 4);
  ComparisonType a = type(s), b = type(s);
  switch (s.raw(7)) {
    case 0: v = a << b; rep(1, a); rep(1, b); break;
    case 1: v = n * a << b; rep(n, a); rep(1, b); break;
    case 2: v = a << n * b; rep(1, a); rep(n, b); break;
    case 3: v = n * a << m * b; rep(n, a); rep(m, b); break;
    case 4: v = n * a; rep(n, a); break;
    case 5: v = ComparisonTypes_t(1, a) << m * b; rep(1, a); rep(m, b); break;
    default: {
      ComparisonType c = type(s), d = type(s);
      int k = (int)s.range(0, 3);
      switch (s.raw(4)) {
        case 0: v = n * a << b << m * c << d; rep(n, a); rep(1, b); rep(m, c); rep(1, d); break;
        case 1: v = a << b << m * c << k * d; rep(1, a); rep(1, b); rep(m, c); rep(k, d); break;
        case 2: v = a << n * b << c << d; rep(1, a); rep(n, b); rep(1, c); rep(1, d); break;
        default: v = n * a << m * b << c << k * d; rep(n, a); rep(m, b); rep(1, c); rep(k, d);
      }
    }
  }
  s.note() << "built " << text(model) << "\n";
  PBT_CHECK(v == model, "build", text(v) << " instead of " << text(model));
  long ops = s.range(0, 5);
  for (long i = 0; i < ops; ++i) {
    ComparisonType t = type(s);
    int k = (int)s.range(0, 3);
    ComparisonTypes_t before(model);
    switch (s.raw(6)) {
      case 0: {
        ComparisonTypes_t& r = v << t;
        rep(1, t);
        PBT_CHECK(&r == &v, "in-place", "");
        break;
      }
      case 1: {
        ComparisonTypes_t& r = v << k * t;
        rep(k, t);
        PBT_CHECK(&r == &v, "in-place", "");
        break;
      }
      case 2: {
        const ComparisonTypes_t& c = v;
        ComparisonTypes_t w = c << t;
        PBT_CHECK(v == before, "const", "operand modified");
        rep(1, t);
        v = w;
        break;
      }
      case 3: {
        const ComparisonTypes_t& c = v;
        ComparisonTypes_t w = c << k * t;
        PBT_CHECK(v == before, "const", "operand modified");
        rep(k, t);
        v = w;
        break;
      }
      case 4: v << t << k * t; rep(1 + k, t); break;
      default: v << k * t << t; rep(1 + k, t);
    }
    PBT_CHECK(v == model, "append", text(v) << " instead of " << text(model));
  }
  int k = s.coin() ? (int)model.size() : (int)s.range(0, 6);
  ComparisonType t = !model.empty() && s.coin() ? s.pick(model) : type(s);
  PBT_CHECK((v == k * t) == (model == ComparisonTypes_t((std::size_t)k, t)), "equal", text(v) << " == " << k << " * " << text({t}));
  std::ostringstream o;
  o << v;
  PBT_CHECK(o.str() == text(model), "print", o.str() << " instead of " << text(model));
  if (model.size() > 2) s.nontrivial();
}

// function with a given value
class Given : public DifferentiableFunction {
 public:
  Given(const LiegroupElement& v, long nq, long nv, const std::string& name)
      : DifferentiableFunction(nq, nv, v.space(), name), v_(v) {}

 protected:
  void impl_compute(LiegroupElementRef r, vectorIn_t) const { r = v_; }
  void impl_jacobian(matrixOut_t J, vectorIn_t) const { J.setZero(); }
  LiegroupElement v_;
};

static ComparisonTypes_t types(Src& s, std::size_t n, bool all = true) {
  ComparisonTypes_t c;
  for (std::size_t i = 0; i < n; ++i) c.push_back(all ? type(s) : s.pick({Equality, EqualToZero}));
  return c;
}

/// difference that gives an error of a given norm; returns the norm that can be reached
static vector_t delta(Src& s, const ComparisonTypes_t& comp, const std::vector<bool>& mask, double ineq, double norm, double big,
                      double& got) {
  const long n = (long)comp.size();
  vector_t e = vector_t::Zero(n), d(n);
  for (long i = 0; i < n; ++i)
    if (mask[(std::size_t)i]) {
      ComparisonType t = comp[(std::size_t)i];
      double x = s.real(0, 1);
      if (t == Superior)
        x = s.coin() ? -x : 0;
      else if (t == Inferior)
        x = s.coin() ? x : 0;
      else
        x = s.chance(1, 3) ? 0 : s.coin() ? x : -x;
      e[i] = x;
    }
  if (e.norm() > 0) e *= norm / e.norm();
  got = e.norm();
  for (long i = 0; i < n; ++i) {
    ComparisonType t = comp[(std::size_t)i];
    if (!mask[(std::size_t)i])
      d[i] = s.real(-big, big);
    else if (t == Superior)
      d[i] = e[i] < 0 ? ineq + e[i] : ineq + s.pick({0., 1e-9, 1e-3, .1, 1.}) * big;
    else if (t == Inferior)
      d[i] = e[i] > 0 ? -ineq + e[i] : -ineq - s.pick({0., 1e-9, 1e-3, .1, 1.}) * big;
    else
      d[i] = e[i];
  }
  return d;
}
static double big(const LiegroupSpacePtr_t& sp) { return sp->isVectorSpace() ? 10. : 1.; }
static LiegroupElement plus(const LiegroupElement& x, const vector_t& v) {
  LiegroupElement e(x);
  e += v;
  return e;
}
static LiegroupElement rhsOf(Src& s, const LiegroupSpacePtr_t& sp, const ComparisonTypes_t& comp) {
  vector_t v = vec(s, sp->nv(), s.pick({0., .1, 1.}));
  for (std::size_t i = 0; i < comp.size(); ++i)
    if (comp[i] != Equality) v[(long)i] = 0;
  return plus(sp->neutral(), v);
}
static const double factors[] = {0, .5, .999, 1.001, 2, 50};

struct Item {
  ImplicitPtr_t c;
  LiegroupElement rhs;
  bool ok;
  double err;
  vector_t e;
};

// implicit constraints with any output
static void verdict(Src& s) {
  LiegroupSpacePtr_t space = LiegroupSpace::Rn(s.range(1, 3));
  bool sub = s.coin();
  std::shared_ptr<HierarchicalIterative> h(sub ? new BySubstitution(space) : new HierarchicalIterative(space));
  double thr = s.pick({1e-4, 1e-2, 1.}), ineq = s.chance(1, 3) ? s.pick({1e-3, .1}) : 0;
  if (sub)
    static_cast<BySubstitution*>(h.get())->errorThreshold(thr);
  else
    h->errorThreshold(thr);
  h->inequalityThreshold(ineq);
  s.note() << "threshold " << thr << " inequality threshold " << ineq << "\n";
  long n = s.range(1, 4), level = 0;
  std::vector<Item> it;
  bool all = true, inequality = false, masked = false;
  for (long i = 0; i < n; ++i) {
    LiegroupSpacePtr_t sp = outSpace(s);
    Item x;
    ComparisonTypes_t comp = types(s, (std::size_t)sp->nv());
    std::vector<bool> mk = s.coin() ? std::vector<bool>(comp.size(), true) : mask(s, comp.size());
    x.rhs = rhsOf(s, sp, comp);
    double got;
    double norm = thr * factors[s.raw(6)];
    if (!sp->isVectorSpace()) norm = std::min(norm, 2.);  // rotations smaller than pi
    vector_t d = delta(s, comp, mk, ineq, norm, big(sp), got);
    LiegroupElement y = plus(x.rhs, d);
    DifferentiableFunctionPtr_t f(new Given(y, space->nq(), space->nv(), "f" + std::to_string(i)));
    bool later = s.coin();
    x.c = Implicit::create(f, later ? types(s, comp.size()) : comp, mk);
    if (later) x.c->comparisonType(comp);
    x.e = d;
    for (long k = 0; k < d.size(); ++k) {
      ComparisonType t = comp[(std::size_t)k];
      if (t == Superior || t == Inferior) inequality = true;
      if (!mk[(std::size_t)k]) {
        x.e[k] = 0;
        masked = true;
      } else if (t == Superior)
        x.e[k] = std::min(0., d[k] - ineq);
      else if (t == Inferior)
        x.e[k] = std::max(0., d[k] + ineq);
    }
    x.err = x.e.norm();
    x.ok = x.err < thr;
    s.note() << i << ": " << sp->name() << " " << text(comp) << " mask " << gen::str(mk) << " difference " << gen::str(d) << "\n";
    all &= x.ok;
    // sizes and rows of the constraint
    long eq = std::count(comp.begin(), comp.end(), Equality);
    PBT_CHECK(x.c->comparisonType() == comp, "comparisonType", "");
    PBT_CHECK(x.c->parameterSize() == eq, "parameterSize", x.c->parameterSize() << " instead of " << eq);
    std::vector<long> rows, act;
    for (std::size_t k = 0; k < comp.size(); ++k) {
      if (comp[k] == Equality) rows.push_back((long)k);
      if (mk[k]) act.push_back((long)k);
    }
    PBT_CHECK(indices(x.c->equalityIndices().rows()) == rows, "equalityIndices", "");
    PBT_CHECK(indices(x.c->activeRows()) == act, "activeRows", "");
    PBT_CHECK(x.c->checkAllRowsActive() == (act.size() == comp.size()), "checkAllRowsActive", "");
    vector_t z = vector_t::Constant(d.size(), 3.);
    x.c->setInactiveRowsToZero(z);
    for (long k = 0; k < z.size(); ++k) PBT_CHECK(z[k] == (mk[(std::size_t)k] ? 3 : 0), "setInactiveRowsToZero", gen::str(z));
    PBT_CHECK(x.c->checkRightHandSide(x.rhs), "checkRightHandSide", gen::str(x.rhs.vector()));
    h->add(x.c, (std::size_t)s.range(0, level));
    level = std::max(level, (long)h->numberStacks());
    it.push_back(x);
  }
  for (auto& x : it) {
    if (sub)
      static_cast<BySubstitution*>(h.get())->rightHandSide(x.c, x.rhs.vector());
    else
      h->rightHandSide(x.c, x.rhs.vector());
  }
  vector_t q = vec(s, space->nq(), 1);
  auto sat = [&](double t) {
    return sub ? static_cast<BySubstitution*>(h.get())->isSatisfied(q, t) : h->isSatisfied(q, t);
  };
  bool v = sub ? static_cast<BySubstitution*>(h.get())->isSatisfied(q) : h->isSatisfied(q);
  PBT_CHECK(v == all, "isSatisfied", (v ? "accepted" : "refused"));
  double t = s.pick({1e-3, .05, 3.});
  bool clear = true, allT = true;
  for (auto& x : it) {
    clear &= std::abs(x.err - t) > 1e-6 * t;
    allT &= x.err < t;
  }
  if (clear) PBT_CHECK(sat(t) == allT, "isSatisfied-threshold", t);
  for (std::size_t i = 0; i < it.size(); ++i) {
    Item& x = it[i];
    bool found = false;
    vector_t e(x.e.size());
    bool r = sub ? static_cast<BySubstitution*>(h.get())->isConstraintSatisfied(x.c, q, e, found)
                 : h->isConstraintSatisfied(x.c, q, e, found);
    PBT_CHECK(found, "found", i);
    PBT_CHECK(r == x.ok, "isConstraintSatisfied", i << (r ? " accepted" : " refused"));
    PBT_CHECK((e - x.e).norm() < 1e-6 * (1 + x.e.norm()), "error", i << ": " << gen::str(e) << " instead of " << gen::str(x.e));
  }
  s.label(all ? "satisfied" : "not satisfied");
  if (inequality && masked) s.nontrivial();
}

// explicit constraints: alone in a set, and in a solver
static void explicits(Src& s) {
  World w = prob::world(s);
  double thr = s.pick({1e-4, 1e-2, .3});
  long n = s.range(1, 4);
  ExplicitConstraintSet set(w.space);
  BySubstitution b(w.space);
  set.errorThreshold(thr);
  b.errorThreshold(thr);
  s.note() << w.desc << "threshold " << thr << "\n";
  std::vector<Con> cons;
  for (long i = 0; i < n; ++i) {
    Con c = explicitCon(s, w, (int)i, true);
    if (set.add(c.e) < 0) continue;
    if (!b.add(c.c)) discard();  // equal to another one: not accepted by the set
    s.note() << i << ": " << c.desc << "\n";
    cons.push_back(c);
  }
  Configuration_t q = prob::config(s, w, 1.2);
  bool all = true, partial = false;
  std::vector<vector_t> rhs, err;
  for (auto& c : cons) {
    LiegroupSpacePtr_t sp = c.c->function().outputSpace();
    LiegroupElement r = rhsOf(s, sp, c.comp);
    set.rightHandSide(c.e, r.vector());
    b.rightHandSide(c.c, r.vector());
    rhs.push_back(r.vector());
    err.push_back(vector_t());
  }
  // in the order of resolution: outputs at a given distance of their values
  std::vector<std::vector<long>> outs;
  std::vector<bool> done(cons.size(), false);
  for (auto& c : cons) outs.push_back(indices(c.e->outputConf()));
  for (std::size_t k = 0; k < cons.size(); ++k)
    for (std::size_t i = 0; i < cons.size(); ++i) {
      if (done[i]) continue;
      bool ready = true;
      for (long j : indices(cons[i].e->inputConf()))
        for (std::size_t l = 0; l < cons.size(); ++l)
          if (!done[l] && l != i && std::find(outs[l].begin(), outs[l].end(), j) != outs[l].end()) ready = false;
      if (!ready) continue;
      done[i] = true;
      const Con& c = cons[i];
      LiegroupSpacePtr_t sp = c.c->function().outputSpace();
      double got;
      vector_t d = delta(s, c.comp, c.mask, 0, thr * factors[s.raw(5)], .5, got);
      s.note() << "difference " << i << ": " << gen::str(d) << "\n";
      for (bool m : c.mask) partial |= !m;
      LiegroupElement y = plus(LiegroupElement(rhs[i], sp), d);
      vector_t v = outputRef(w, c, q, y.vector());
      for (std::size_t k2 = 0; k2 < outs[i].size(); ++k2) q[outs[i][k2]] = v[(long)k2];
      err[i] = d;
      for (long k2 = 0; k2 < d.size(); ++k2)
        if (!c.mask[(std::size_t)k2]) err[i][k2] = 0;
    }
  // differences of rotations bigger than pi have another error
  for (std::size_t i = 0; i < cons.size(); ++i) {
    Con c(cons[i]);
    vector_t e = prob::error(c, q, rhs[i]);
    if ((e - err[i]).norm() > .5) discard();
    if (std::abs(err[i].norm() - thr) < 1e-7) discard();
    all &= err[i].norm() < thr;
  }
  PBT_CHECK(set.isSatisfied(q) == all, "set", "");
  PBT_CHECK(b.isSatisfied(q) == all, "solver", "");
  vector_t e(set.errorSize());
  PBT_CHECK(set.isSatisfied(q, vectorOut_t(e)) == all, "set-error", "");
  long row = 0;
  for (std::size_t i = 0; i < cons.size(); ++i) {
    PBT_CHECK((e.segment(row, err[i].size()) - err[i]).norm() < 1e-6, "error",
              i << ": " << gen::str(e.segment(row, err[i].size())) << " instead of " << gen::str(err[i]));
    row += err[i].size();
    vector_t f(err[i].size());
    bool found = false, ok = err[i].norm() < thr;
    PBT_CHECK(set.isConstraintSatisfied(cons[i].c, q, f, found) == ok && found, "set-constraint", i << " " << gen::str(f));
    PBT_CHECK((f - err[i]).norm() < 1e-6, "set-constraint-error", i << " " << gen::str(f));
    PBT_CHECK(b.isConstraintSatisfied(cons[i].c, q, f, found) == ok && found, "solver-constraint", i << " " << gen::str(f));
    PBT_CHECK((f - err[i]).norm() < 1e-6, "solver-constraint-error", i << " " << gen::str(f));
  }
  s.label(all ? "satisfied" : "not satisfied");
  if (cons.size() > 1 && partial) s.nontrivial();
}

// the ranks of the Jacobians of the levels are not a matter of rounding errors
static bool wellPosed(const System& y, const Configuration_t& q) {
  y.h->computeValue<true>(q);
  if (y.sub) y.b()->updateJacobian(q);
  long cols = 0;
  for (bool f : y.free) cols += f;
  matrix_t J(y.h->reducedDimension(), cols);
  y.h->getReducedJacobian(J);
  if (!J.size()) return true;
  auto rank = [&](const matrix_t& M, bool& ok) {
    if (!M.size()) return 0l;
    vector_t sv = Eigen::JacobiSVD<matrix_t>(M).singularValues();
    long r = 0;
    for (long i = 0; i < sv.size(); ++i) {
      if (sv[i] > 1e-4)
        ++r;
      else if (sv[i] != 0 && (sv[0] <= 1e-4 || sv[i] > 1e-11 * sv[0]))
        ok = false;  // ranks are relative to the greatest singular value, even if it is a rounding error
    }
    return r;
  };
  bool ok = true;
  long row = 0, total = 0;
  for (long l = 0; l < y.levels(); ++l) {
    long n = 0;
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (y.expl[i] || (long)y.prio[i] != l) continue;
      bool dep = y.sub;
      for (std::size_t k = 0; k < y.free.size(); ++k)
        dep |= y.free[k] && y.cons[i].c->function().activeDerivativeParameters()[(long)k];
      if (dep) n += std::count(y.cons[i].mask.begin(), y.cons[i].mask.end(), true);
    }
    if (y.levels() == 1) n = J.rows();
    if (row + n > J.rows()) return false;
    total += rank(J.middleRows(row, n), ok);
    row += n;
    if (rank(J.topRows(row), ok) != total || !ok) return false;
  }
  return row == J.rows();
}

// steps do not depend on inequalities that are satisfied
static void push(Src& s) {
  Opts o;
  o.minCons = 1;
  o.saturation = false;  // saturated columns change ranks
  System y = system(s, o);
  Configuration_t q = y.start(s);
  if (y.sub) y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q)) discard();
  // same system where the satisfied inequalities are masked
  std::shared_ptr<HierarchicalIterative> h(y.sub ? new BySubstitution(y.w.space) : new HierarchicalIterative(y.w.space));
  long removed = 0, kept = 0;
  std::vector<ImplicitPtr_t> cs;
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    const Con& c = y.cons[i];
    ImplicitPtr_t n = c.c;
    if (!c.e) {
      Con raw(c);
      for (auto& t : raw.comp) t = Equality;
      vector_t d = prob::error(raw, q, y.rhs[i]);
      std::vector<bool> mk(c.mask);
      for (std::size_t k = 0; k < mk.size(); ++k) {
        bool ok = false;
        if (!mk[k]) continue;
        if (c.comp[k] == Superior) {
          if (std::abs(d[(long)k] - y.ineq) < 1e-7) discard();
          ok = d[(long)k] > y.ineq;
        }
        if (c.comp[k] == Inferior) {
          if (std::abs(d[(long)k] + y.ineq) < 1e-7) discard();
          ok = d[(long)k] < -y.ineq;
        }
        if (ok) {
          mk[k] = false;
          ++removed;
        }
      }
      for (bool m : mk) kept += m;
      n = Implicit::create(c.c->functionPtr(), c.comp, mk);
    }
    cs.push_back(n);
    h->add(n, y.prio[i]);
  }
  if (!removed) discard();
  if (y.sub)
    static_cast<BySubstitution*>(h.get())->errorThreshold(y.thr);
  else
    h->errorThreshold(y.thr);
  h->inequalityThreshold(y.ineq);
  h->lastIsOptional(y.optional);
  h->solveLevelByLevel(y.level);
  segments_t seg;
  for (std::size_t i = 0; i < y.free.size(); ++i)
    if (y.free[i]) seg.push_back(segment_t((long)i, 1));
  h->freeVariables(seg);
  h->saturation(y.h->saturation());
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    if (y.sub)
      static_cast<BySubstitution*>(h.get())->rightHandSide(cs[i], y.rhs[i]);
    else
      h->rightHandSide(cs[i], y.rhs[i]);
  }
  if (!wellPosed(y, q)) discard();
  // steps that increase the error of a configuration that satisfies the constraints are cancelled
  if (y.error2(q) < y.thr * y.thr * (1 + 1e-6)) discard();
  y.h->maxIterations(1);
  h->maxIterations(1);
  y.ls = s.coin() ? 0 : 2;
  Configuration_t p(q), r(q);
  auto sp = y.solve(p);
  std::swap(y.h, h);
  auto sr = y.solve(r);
  std::swap(y.h, h);
  s.note() << "start " << gen::str(q) << "\n";
  if (std::max((p - q).cwiseAbs().maxCoeff(), (r - q).cwiseAbs().maxCoeff()) > 1e2) discard();
  // integration of a planar motion with a tiny rotation is not accurate in pinocchio
  vector_t pr(p - r);
  for (auto& b : y.w.blocks)
    if (b.k == SE2K && ((p - q).segment(b.iq + 2, 2).norm() < 1e-6 || (r - q).segment(b.iq + 2, 2).norm() < 1e-6))
      pr.segment(b.iq, 2).setZero();
  PBT_CHECK(pr.cwiseAbs().maxCoeff() < 1e-6 * (1 + (p - q).norm()), "step",
            "step with satisfied inequalities\n" << gen::str(p) << "\nwithout\n" << gen::str(r) << "\nfrom\n" << gen::str(q));
  s.label(std::string("with ") + sys::name(sp));
  (void)sr;
  if (kept && (p - q).norm() > 1e-6) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C20";
  p.rule =
      "vectors of more than two types; constraints with inequalities and masked rows; several explicit constraints with masks; "
      "steps that move with remaining active rows";
  p.facets.push_back({"builders", 2, builders});
  p.facets.push_back({"verdict", 4, verdict});
  p.facets.push_back({"explicits", 3, explicits});
  p.facets.push_back({"push", 3, push});
  p.quick = 60000;
  p.thorough = 2000000;
  p.assumptions = {"inequality components have a zero right hand side, as documented"};
  return pbt::main(argc, argv, p);
}
