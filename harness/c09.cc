// C09: right hand sides are stored, read back and initialised consistently.
#include <hpp/constraints/implicit-constraint-set.hh>

#include "sys.hh"
using namespace pbt;
using namespace sys;

static bool same(const LiegroupSpacePtr_t& sp, vectorIn_t a, vectorIn_t b, double tol = 1e-8) {
  if (a.size() != b.size() || a.size() != sp->nq()) return false;
  if (!a.allFinite() || !b.allFinite()) return false;
  if ((a - b).norm() < tol) return true;
  LiegroupElement x(a, sp), y(b, sp);
  return (x - y).norm() < tol;
}
static bool allEquality(const Con& c) {
  return std::all_of(c.comp.begin(), c.comp.end(), [](ComparisonType t) { return t == Equality; });
}
// function of time
static Smooth::Ptr timeFunction(Src& s, const LiegroupSpacePtr_t& out, const std::string& name) {
  World t;
  t.space = LiegroupSpace::Rn(1);
  Block b;
  b.iq = b.iv = 0;
  b.nq = b.nv = 1;
  b.k = VEC;
  b.sp = t.space;
  t.blocks.push_back(b);
  return smooth(s, t, name, out);
}
static vector_t at(const DifferentiableFunction& f, double t) {
  LiegroupElement y(f.outputSpace());
  f.value(y, vector_t::Constant(1, t));
  return y.vector();
}

// positions of the constraints in the stacked right hand side
static std::vector<std::size_t> stackOrder(const System& y) {
  std::vector<std::size_t> o;
  for (long l = 0; l < y.levels(); ++l)
    for (std::size_t i = 0; i < y.cons.size(); ++i)
      if (!y.expl[i] && (long)y.prio[i] == l) o.push_back(i);
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (y.expl[i]) o.push_back(i);
  return o;
}
static vector_t whole(const System& y) { return y.sub ? y.b()->rightHandSide() : y.h->rightHandSide(); }

static void checkAll(const System& y, const std::vector<std::size_t>& order, const std::string& what) {
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    LiegroupSpacePtr_t sp = y.cons[i].c->function().outputSpace();
    vector_t v = vector_t::Constant(sp->nq(), 1e30);
    PBT_CHECK(y.getRhs(i, v), "get-found", what << ": right hand side of constraint " << i << " not found");
    PBT_CHECK(same(sp, v, y.rhs[i]), "get", what << ": right hand side of constraint " << i << " is " << gen::str(v) << " instead of "
                                              << gen::str(y.rhs[i]));
  }
  vector_t all = whole(y);
  long n = y.sub ? y.b()->rightHandSideSize() : y.h->rightHandSideSize();
  PBT_CHECK(all.size() == n, "size", what << ": " << n);
  long row = 0;
  for (std::size_t i : order) {
    LiegroupSpacePtr_t sp = y.cons[i].c->function().outputSpace();
    PBT_CHECK(row + sp->nq() <= n, "size", what << ": " << n);
    PBT_CHECK(same(sp, all.segment(row, sp->nq()), y.rhs[i]), "get-all", what << ": constraint " << i << " in the stacked right hand side "
                                                                      << gen::str(all) << " instead of " << gen::str(y.rhs[i]));
    row += sp->nq();
  }
  PBT_CHECK(row == n, "size", what << ": " << n << " instead of " << row);
}

static void satisfiedBy(const System& y, std::size_t i, vectorIn_t q, const std::string& what) {
  const Con& c = y.cons[i];
  if (!allEquality(c) && !c.c->function().outputSpace()->isVectorSpace()) return;
  vector_t v(c.c->function().outputSpace()->nq());
  y.getRhs(i, v);
  vector_t e = prob::error(c, q, v);
  for (std::size_t k = 0; k < c.comp.size(); ++k)
    if (c.comp[k] == Equality)
      PBT_CHECK(std::abs(e[(long)k]) < 1e-7, "from-config-satisfied", what << ": error of constraint " << i << " " << gen::str(e));
}

static void store(Src& s) {
  Opts o;
  o.minCons = 1;
  System y = system(s, o);
  std::vector<std::size_t> order = stackOrder(y);
  checkAll(y, order, "initially");
  std::vector<Smooth::Ptr> tf(y.cons.size());
  long ops = s.range(1, 8);
  std::set<int> kinds;
  for (long k = 0; k < ops && !y.cons.empty(); ++k) {
    std::size_t i = (std::size_t)s.raw(y.cons.size());
    int op = s.weighted({4, 3, 3, 2, 1, 2, 1});
    std::ostringstream what;
    what << "operation " << k << ": ";
    switch (op) {
      case 0: {
        vector_t v = rightHandSide(s, y.cons[i], .7);
        what << "set constraint " << i << " to " << gen::str(v);
        s.note() << what.str() << "\n";
        bool r = y.sub ? y.b()->rightHandSide(y.cons[i].c, v) : y.h->rightHandSide(y.cons[i].c, v);
        PBT_CHECK(r, "set-found", what.str());
        y.rhs[i] = v;
        break;
      }
      case 1: {
        vector_t all(whole(y).size());
        long row = 0;
        for (std::size_t j : order) {
          y.rhs[j] = rightHandSide(s, y.cons[j], .7);
          all.segment(row, y.rhs[j].size()) = y.rhs[j];
          row += y.rhs[j].size();
        }
        what << "set all to " << gen::str(all);
        s.note() << what.str() << "\n";
        if (y.sub)
          y.b()->rightHandSide(all);
        else
          y.h->rightHandSide(all);
        break;
      }
      case 2: {
        Configuration_t q = near(s, y.w, y.target, .5);
        if (!y.regular(q)) break;
        what << "set constraint " << i << " from " << gen::str(q);
        s.note() << what.str() << "\n";
        bool r = y.sub ? y.b()->rightHandSideFromConfig(y.cons[i].c, q) : y.h->rightHandSideFromConfig(y.cons[i].c, q);
        PBT_CHECK(r, "set-found", what.str());
        y.rhs[i] = rhsFrom(y.cons[i], q);
        satisfiedBy(y, i, q, what.str());
        break;
      }
      case 3: {
        Configuration_t q = near(s, y.w, y.target, .5);
        if (!y.regular(q)) break;
        what << "set all from " << gen::str(q);
        s.note() << what.str() << "\n";
        vector_t r = y.sub ? y.b()->rightHandSideFromConfig(q) : y.h->rightHandSideFromConfig(q);
        for (std::size_t j = 0; j < y.cons.size(); ++j) {
          y.rhs[j] = rhsFrom(y.cons[j], q);
          satisfiedBy(y, j, q, what.str());
        }
        PBT_CHECK(r.size() == whole(y).size() && (r - whole(y)).norm() < 1e-12, "from-config-result", what.str());
        break;
      }
      case 4: {  // a constraint that is not in the solver
        Con c = implicit(s, y.w, 2000);
        bool in = false;
        for (auto& d : y.cons) in |= d.c->function() == c.c->function();
        if (in) break;
        what << "set another constraint";
        s.note() << what.str() << "\n";
        vector_t v = rightHandSide(s, c, .7);
        bool r = y.sub ? y.b()->rightHandSide(c.c, v) : y.h->rightHandSide(c.c, v);
        vector_t g(v.size());
        bool r2 = y.sub ? y.b()->getRightHandSide(c.c, g) : y.h->getRightHandSide(c.c, g);
        bool r3 = y.sub ? y.b()->rightHandSideFromConfig(c.c, y.target) : y.h->rightHandSideFromConfig(c.c, y.target);
        PBT_CHECK(!r && !r2 && !r3, "foreign", what.str() << " succeeds");
        break;
      }
      case 5: {  // time varying right hand sides
        if (allEquality(y.cons[i]) && !tf[i]) {
          tf[i] = timeFunction(s, y.cons[i].c->function().outputSpace(), "time" + std::to_string(i));
          y.cons[i].c->rightHandSideFunction(tf[i]);
        }
        double t = s.real(-1, 1);
        what << "right hand sides at " << t;
        s.note() << what.str() << "\n";
        y.h->rightHandSideAt(t);
        for (std::size_t j = 0; j < y.cons.size(); ++j)
          if (tf[j]) {
            y.rhs[j] = at(*tf[j], t);
            s.label(y.expl[j] ? "time varying explicit" : "time varying implicit");
          }
        break;
      }
      default: {  // evaluations do not change right hand sides
        Configuration_t q = y.start(s);
        if (!y.regular(q)) break;
        what << "solve from " << gen::str(q);
        s.note() << what.str() << "\n";
        y.solve(q);
        y.isSatisfied(q);
      }
    }
    kinds.insert(op);
    checkAll(y, order, what.str());
  }
  if (kinds.size() >= 2 && y.cons.size() >= 2) s.nontrivial();
}

// one constraint
static void single(Src& s) {
  World w = world(s);
  s.note() << w.desc;
  Con c = s.chance(1, 3) ? explicitCon(s, w, 0, true) : implicit(s, w, 0);
  s.note() << c.desc << "\n";
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  long eq = 0;
  for (auto t : c.comp) eq += t == Equality;
  PBT_CHECK(c.c->parameterSize() == eq, "parameter-size", c.c->parameterSize() << " " << eq);
  PBT_CHECK(c.c->rightHandSideSize() == sp->nq(), "rhs-size", c.c->rightHandSideSize());
  PBT_CHECK(c.c->comparisonType() == c.comp, "comparison", str(c.c->comparisonType()));
  Configuration_t q = config(s, w);
  if (c.regular && !c.regular(q)) discard();
  LiegroupElement r(sp);
  c.c->rightHandSideFromConfig(q, LiegroupElementRef(r));
  PBT_CHECK(same(sp, r.vector(), rhsFrom(c, q)), "from-config", gen::str(r.vector()) << " instead of " << gen::str(rhsFrom(c, q)));
  PBT_CHECK(c.c->checkRightHandSide(r), "check-from-config", gen::str(r.vector()));
  // any perturbation of a component that is not of equality type is refused, of an equality component accepted
  for (long k = 0; k < sp->nv(); ++k) {
    LiegroupElement x(LiegroupElement(sp->neutral()) + [&] {
      vector_t v = vector_t::Zero(sp->nv());
      v[k] = .1;
      return v;
    }());
    bool ok = c.comp[(std::size_t)k] == Equality;
    PBT_CHECK(c.c->checkRightHandSide(x) == ok, "check", "component " << k << " " << gen::str(x.vector()) << " expected " << ok);
  }
  // change of comparison type
  if (s.coin()) {
    ComparisonTypes_t comp = comparisons(s, sp->nv(), true);
    c.c->comparisonType(comp);
    c.comp = comp;
    eq = 0;
    for (auto t : comp) eq += t == Equality;
    PBT_CHECK(c.c->parameterSize() == eq, "parameter-size", c.c->parameterSize() << " " << eq);
    c.c->rightHandSideFromConfig(q, LiegroupElementRef(r));
    PBT_CHECK(same(sp, r.vector(), rhsFrom(c, q)), "from-config-changed", gen::str(r.vector()) << " instead of " << gen::str(rhsFrom(c, q)));
    s.label("comparison changed");
  }
  // time
  Smooth::Ptr f = timeFunction(s, sp, "time");
  bool thrown = false;
  try {
    c.c->rightHandSideFunction(f);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  PBT_CHECK(thrown == !allEquality(c), "time-function", "accepted: " << !thrown);
  if (!thrown) {
    double t = s.real(-2, 2);
    vector_t v = c.c->rightHandSideAt(t);
    PBT_CHECK(same(sp, v, at(*f, t)), "time", gen::str(v) << " instead of " << gen::str(at(*f, t)));
  }
  s.nontrivial();
}

// sets of implicit constraints
static void sets(Src& s) {
  World w = world(s);
  s.note() << w.desc;
  ImplicitConstraintSetPtr_t set = ImplicitConstraintSet::create("set");
  std::vector<Con> cons;
  long n = s.range(1, 4);
  LiegroupSpacePtr_t sp = LiegroupSpace::empty();
  ComparisonTypes_t comp;
  std::vector<bool> mask;
  for (long i = 0; i < n; ++i) {
    Con c = s.chance(1, 3) ? explicitCon(s, w, (int)i, true) : implicit(s, w, (int)i);
    s.note() << c.desc << "\n";
    set->add(c.c);
    cons.push_back(c);
    comp.insert(comp.end(), c.comp.begin(), c.comp.end());
    mask.insert(mask.end(), c.mask.begin(), c.mask.end());
  }
  Configuration_t q = config(s, w);
  for (auto& c : cons)
    if (c.regular && !c.regular(q)) discard();
  PBT_CHECK(set->comparisonType() == comp, "set-comparison", str(set->comparisonType()));
  long eq = 0, nq = 0, nv = 0;
  for (auto t : comp) eq += t == Equality;
  for (auto& c : cons) nq += c.c->function().outputSize(), nv += c.c->function().outputDerivativeSize();
  PBT_CHECK(set->parameterSize() == eq, "set-parameter-size", set->parameterSize() << " instead of " << eq);
  PBT_CHECK(set->rightHandSideSize() == nq, "set-rhs-size", set->rightHandSideSize());
  std::vector<long> act = indices(set->activeRows()), exp;
  for (std::size_t k = 0; k < mask.size(); ++k)
    if (mask[k]) exp.push_back((long)k);
  PBT_CHECK(act == exp, "set-active-rows", [&] {
    std::ostringstream os;
    for (long i : act) os << i << " ";
    return os.str();
  }());
  PBT_CHECK(set->checkAllRowsActive() == (exp.size() == mask.size()), "set-all-active", set->checkAllRowsActive());
  vector_t e = vector_t::Constant(nv, 1.);
  set->setInactiveRowsToZero(e);
  for (long k = 0; k < nv; ++k) PBT_CHECK(e[k] == (mask[(std::size_t)k] ? 1. : 0.), "set-inactive", gen::str(e));
  LiegroupElement r(set->function().outputSpace());
  set->rightHandSideFromConfig(q, LiegroupElementRef(r));
  long row = 0;
  for (auto& c : cons) {
    LiegroupSpacePtr_t o = c.c->function().outputSpace();
    PBT_CHECK(same(o, r.vector().segment(row, o->nq()), rhsFrom(c, q)), "set-from-config", gen::str(r.vector()) << " " << c.desc << " "
                                                                              << gen::str(rhsFrom(c, q)));
    row += o->nq();
  }
  PBT_CHECK(set->checkRightHandSide(r), "set-check", gen::str(r.vector()));
  if (n > 1) s.nontrivial();
}

// restriction to an interval of time
static void extract(Src& s) {
  Opts o;
  o.minCons = 1;
  o.inequalities = false;
  System y = system(s, o);
  std::vector<Smooth::Ptr> tf(y.cons.size());
  bool any = false;
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (allEquality(y.cons[i]) && s.chance(3, 4)) {
      tf[i] = timeFunction(s, y.cons[i].c->function().outputSpace(), "time" + std::to_string(i));
      y.cons[i].c->rightHandSideFunction(tf[i]);
      any = true;
    }
  if (!any) discard();
  std::vector<vector_t> rhs0 = y.rhs;
  double a = s.pick({0., .25, 1., 2.}), b = s.pick({0., .5, 1., 3.});
  if (a == b) b += .5;
  double t = s.real(0, 1) * std::abs(b - a), t0 = a <= b ? a + t : a - t;
  s.note() << "interval [" << a << "," << b << "] time " << t << "\n";
  System z = y;
  if (y.sub)
    z.h = std::shared_ptr<HierarchicalIterative>(new BySubstitution(y.b()->extract(interval_t(a, b))));
  else
    z.h = std::shared_ptr<HierarchicalIterative>(new HierarchicalIterative(y.h->extract(interval_t(a, b))));
  std::vector<std::size_t> order = stackOrder(y);
  checkAll(y, order, "initial after extraction");
  checkAll(z, order, "extraction");
  z.h->rightHandSideAt(t);
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (tf[i]) z.rhs[i] = at(*tf[i], t0);
  checkAll(z, order, "extraction at time");
  checkAll(y, order, "initial after setting the extraction");
  y.h->rightHandSideAt(t);
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (tf[i]) y.rhs[i] = at(*tf[i], t);
  checkAll(y, order, "initial at time");
  checkAll(z, order, "extraction after setting the initial one");
  // Jacobian of the extracted function
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (tf[i]) {
      DifferentiableFunctionPtr_t f = DifferentiableFunction::extract(tf[i], interval_t(a, b));
      matrix_t J = gen::jacobian(*f, vector_t::Constant(1, t)), K = gen::jacobian(*tf[i], vector_t::Constant(1, t0));
      if (a > b) K = -K;
      PBT_CHECK((J - K).norm() < 1e-9, "extract-jacobian", gen::strM(J) << "\ninstead of\n" << gen::strM(K));
    }
  if (a) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C09";
  p.rule = "store: at least two constraints and two kinds of operations; single: always; sets: several constraints; extract: the interval does not start at 0";
  p.facets.push_back({"store", 5, store});
  p.facets.push_back({"single", 2, single});
  p.facets.push_back({"sets", 2, sets});
  p.facets.push_back({"extract", 2, extract});
  p.quick = 80000;
  p.thorough = 800000;
  return pbt::main(argc, argv, p);
}
