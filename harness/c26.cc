// C26: malformed requests are refused by the documented exception and change nothing; undefined explicit functions.
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>

#include <hpp/pinocchio/body.hh>
#include <hpp/pinocchio/collision-object.hh>

#include "state.hh"
using namespace pbt;
using namespace sys;

template <class E, class F>
static bool throws(F f) {
  try {
    f();
  } catch (const E&) {
    return true;
  }
  return false;
}
// 0 nothing, 1 the exception, 2 another one
#define REFUSED(E, tag, stream, ...)                                                  \
  do {                                                                                \
    bool ok = false;                                                                  \
    std::string other;                                                                \
    try {                                                                             \
      __VA_ARGS__;                                                                    \
    } catch (const E&) {                                                              \
      ok = true;                                                                      \
    } catch (const std::exception& e) {                                               \
      other = e.what();                                                               \
    }                                                                                 \
    PBT_CHECK(ok, tag, stream << (other.empty() ? ": accepted" : ": other exception ") << other); \
  } while (0)

// functions of time and constraints
static void constraint(Src& s) {
  World w = world(s);
  Con c = s.coin() ? explicitCon(s, w, 0) : implicit(s, w, 0);
  s.note() << w.desc << c.desc << "\n";
  std::vector<Configuration_t> qs{config(s, w), config(s, w)};
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  bool eq = allEquality(c.c), set = false;
  if (eq && s.coin()) {
    c.c->rightHandSideFunction(timeFunction(s, sp, "time"));
    set = true;
  }
  DifferentiableFunctionPtr_t before = c.c->rightHandSideFunction();
  std::string text = observe(c.c, qs);
  for (long n = s.range(1, 4); n--;) {
    switch (s.raw(3)) {
      case 0: {  // several inputs
        World v = abstractWorld(s, 1, 3);
        if (v.space->nq() == 1 && v.space->nv() == 1) discard();
        Smooth::Ptr f = smooth(s, v, "several", sp);
        s.note() << "function of " << v.desc;
        REFUSED(std::invalid_argument, "inputs", v.desc, c.c->rightHandSideFunction(f));
        if (v.space->nv() != 1) REFUSED(std::logic_error, "extract", v.desc, DifferentiableFunction::extract(f, interval_t(s.pick({-.5, .3, 1.}), s.pick({1., 0., -2.}))));
        s.label("inputs");
        break;
      }
      case 1: {  // another space
        LiegroupSpacePtr_t o = outSpace(s);
        if (*o == *sp) discard();
        s.note() << "function in " << o->name() << "\n";
        REFUSED(std::invalid_argument, "space", o->name() << " instead of " << sp->name(), c.c->rightHandSideFunction(timeFunction(s, o, "other")));
        s.label("space");
        break;
      }
      default:
        if (eq) {
          auto f = timeFunction(s, sp, "new");
          c.c->rightHandSideFunction(f);
          PBT_CHECK(c.c->rightHandSideFunction() == f, "accepted", "");
          c.c->rightHandSideFunction(before);
          if (!before) c.c->rightHandSideFunction(DifferentiableFunctionPtr_t());
          s.label("accepted");
        } else {
          REFUSED(std::invalid_argument, "comparison", prob::str(c.c->comparisonType()), c.c->rightHandSideFunction(timeFunction(s, sp, "time")));
          s.label("comparison");
        }
    }
    PBT_CHECK(c.c->rightHandSideFunction() == before, "function-changed", "");
    std::string now = observe(c.c, qs);
    PBT_CHECK(now == text, "changed", now << "\ninstead of\n" << text);
  }
  (void)set;
  s.nontrivial();
}

// functions and shapes
static void functions(Src& s) {
  RobotOpts ro;
  ro.freeflyers = (int)s.range(0, 2);
  ro.geometry = true;
  World w = robotWorld(s, ro);
  s.note() << w.desc;
  const DevicePtr_t& r = w.r;
  Configuration_t q = config(s, w), goal = config(s, w);
  switch (s.raw(4)) {
    case 0: {
      vector_t ws = vec(s, r->numberDof(), 1.).cwiseAbs();
      auto f = ConfigurationConstraint::create("f", r, goal, ws);
      vector_t v = zoo::value(*f, q);
      matrix_t J = gen::jacobian(*f, q);
      long n = s.range(0, r->numberDof() + 3);
      if (n == r->numberDof()) ++n;
      s.note() << "weights of size " << n << "\n";
      REFUSED(std::invalid_argument, "weights", n, f->weights(vector_t::Ones(n)));
      REFUSED(std::invalid_argument, "weights", n, ConfigurationConstraint::create("g", r, goal, vector_t::Ones(n)));
      PBT_CHECK(f->weights() == ws && zoo::value(*f, q) == v && gen::jacobian(*f, q) == J, "changed", gen::str(f->weights()));
      s.label("weights");
      s.nontrivial();
      break;
    }
    case 1: {
      auto& gm = r->geomModel();
      JointPtr_t j1 = gen::joint(s, r, false), j2 = gen::joint(s, r, false);
      auto count = [](const JointPtr_t& j) { return j->linkedBody() ? (long)j->linkedBody()->nbInnerObjects() : 0; };
      if (!count(j1) || !count(j2)) discard();
      bool all = true;
      for (long a = 0; a < count(j1); ++a)
        for (long b = 0; b < count(j2); ++b) {
          auto x = j1->linkedBody()->innerObjectAt(a)->indexInModel(), y = j2->linkedBody()->innerObjectAt(b)->indexInModel();
          bool found = false;
          for (auto& p : gm.collisionPairs) found = found || (p.first == x && p.second == y) || (p.first == y && p.second == x);
          all = all && found;
        }
      s.note() << j1->name() << " " << j2->name() << (all ? " known pairs" : " unknown pairs") << "\n";
      bool t = throws<std::invalid_argument>([&] { DistanceBetweenBodies::create("f", r, j1, j2); });
      PBT_CHECK(t == !all, "pairs", "refused: " << t);
      s.label(all ? "known pairs" : "unknown pairs");
      s.nontrivial();
      break;
    }
    case 2: {
      JointPtr_t j = gen::joint(s, r, true), o = gen::joint(s, r, false);
      if (j && o && j->index() == o->index()) discard();
      std::vector<vector3_t> good = zoo::polygon(s, 1.), flat = zoo::polygon(s, .3), few(good.begin(), good.begin() + s.range(0, 2));
      s.note() << "floor of " << few.size() << " points\n";
      if (few.empty()) {
        REFUSED(std::logic_error, "empty-shape", "", ConvexShape(few, j));
        REFUSED(std::logic_error, "empty-shape", "contact", ConvexShapeContact::create("f", r, {JointAndShape_t(j, few)}, {JointAndShape_t(o, flat)}));
      } else {
        auto f = ConvexShapeContact::create("f", r, {JointAndShape_t(j, few)}, {JointAndShape_t(o, flat)});
        REFUSED(std::logic_error, "floor", few.size(), zoo::value(*f, q));
        REFUSED(std::logic_error, "floor", few.size(), gen::jacobian(*f, q));
        if (few.size() == 2) {
          auto g = ConvexShapeContact::create("g", r, {JointAndShape_t(j, good)}, {JointAndShape_t(o, few)});
          REFUSED(std::logic_error, "line", "", gen::jacobian(*g, q));
        }
      }
      s.label("shapes");
      s.nontrivial();
      break;
    }
    default: {
      // explicit contacts of objects that are not one free-flyer
      std::vector<JointPtr_t> any;
      for (auto& b : w.blocks)
        if (b.joint && b.nv) any.push_back(b.joint);
      JointPtr_t o = s.pick(any);
      JointAndShapes_t ob{JointAndShape_t(o, zoo::polygon(s, .3))};
      bool ok = *o->configurationSpace() == *LiegroupSpace::SE3() || *o->configurationSpace() == *LiegroupSpace::R3xSO3();
      s.note() << "object " << o->name();
      if (s.coin()) {
        JointPtr_t p = s.pick(any);
        ob.push_back(JointAndShape_t(p, zoo::polygon(s, .3)));
        ok = ok && p->index() == o->index();
        s.note() << " and " << p->name();
      }
      s.note() << "\n";
      JointAndShapes_t fl{JointAndShape_t(JointPtr_t(), zoo::polygon(s, 2.))};
      if (ok) {
        auto e = explicit_::ConvexShapeContact::create("h", r, fl, ob, 0.);
        PBT_CHECK(e->outputVelocity().size() == 1 && e->outputVelocity()[0] == segment_t(o->rankInVelocity(), 6), "contact-output", "");
      } else {
        REFUSED(std::logic_error, "contact", o->name(), explicit_::ConvexShapeContact::create("h", r, fl, ob, 0.));
        REFUSED(std::logic_error, "contact", o->name(), explicit_::ConvexShapeContact::createConstraintAndComplement("h", r, fl, ob, 0.));
        s.nontrivial();
      }
      s.label(ok ? "contact" : "refused contact");
    }
  }
}

// malformed explicit constraints
static void malformed(Src& s) {
  Opts o;
  o.hierarchical = false;
  o.minCons = 1;
  System y = system(s, o);
  std::vector<Configuration_t> qs{y.start(s)};
  if (!y.regular(qs[0])) discard();
  std::vector<const Block*> v;
  for (auto& b : y.w.blocks)
    if (b.k == VEC && b.nq > 1) v.push_back(&b);
  if (v.empty()) discard();
  const Block& b = *s.pick(v);
  long n = s.range(1, b.nq), a = s.range(0, b.nq - n), k = s.range(1, b.nq), c = s.range(0, b.nq - k);
  if (c + k <= a || a + n <= c || k + n > y.w.space->nq() || k + n > y.w.space->nv()) discard();
  Block ib(b);
  ib.nq = ib.nv = k;
  ib.sp = LiegroupSpace::Rn(k);
  segments_t inC{segment_t(b.iq + c, k)}, outC{segment_t(b.iq + a, n)}, inV{segment_t(b.iv + c, k)}, outV{segment_t(b.iv + a, n)};
  auto g = Smooth::create({ib}, LiegroupSpace::Rn(n), matrix_t::Ones(n, k), vector_t::Zero(n), 1, "bad");
  ExplicitPtr_t e = Explicit::create(y.w.space, g, inC, outC, inV, outV);
  State before = state(y, qs);
  System z = copyOf(y);
  REFUSED(std::logic_error, "malformed", "", y.h->add(e, s.raw(2)));
  PBT_CHECK(!y.h->contains(e), "contains", "");
  sameState(state(y, qs), before, "changed", 1);
  // the solver is still usable
  Con c2 = explicitCon(s, y.w, 99);
  bool b1 = false, b2 = false;
  bool t1 = throws<std::logic_error>([&] { b1 = y.h->add(c2.c, 0); });
  bool t2 = throws<std::logic_error>([&] { b2 = z.h->add(c2.c, 0); });
  PBT_CHECK(b1 == b2 && t1 == t2, "next", b1 << b2 << t1 << t2);
  sameState(state(y, qs), state(z, qs), "next", -1);
  s.nontrivial();
}

// explicit functions that are not defined everywhere
class Partial : public DifferentiableFunction {
 public:
  Smooth::Ptr f;
  double limit = std::numeric_limits<double>::infinity();
  mutable long refused = 0;
  Partial(const Smooth::Ptr& g) : DifferentiableFunction(g->inputSize(), g->inputDerivativeSize(), g->outputSpace(), "partial"), f(g) {
    activeParameters_ = g->activeParameters();
    activeDerivativeParameters_ = g->activeDerivativeParameters();
  }
  void check(vectorIn_t q) const {
    if (!(q[0] <= limit)) {
      ++refused;
      throw FunctionNotDefinedForThisValue();
    }
  }
  void impl_compute(LiegroupElementRef y, vectorIn_t q) const {
    check(q);
    f->value(y, q);
  }
  void impl_jacobian(matrixOut_t J, vectorIn_t q) const {
    check(q);
    f->jacobian(J, q);
  }
};
static void undefined(Src& s) {
  System y;
  y.w = world(s);
  const World& w = y.w;
  s.note() << w.desc;
  y.target = config(s, w, 1.2);
  Con c = customExplicit(s, w, 0);
  auto p = std::make_shared<Partial>(c.g);
  if (p->inputSize() == 0) discard();
  c.e = Explicit::create(w.space, p, c.e->inputConf(), c.e->outputConf(), c.e->inputVelocity(), c.e->outputVelocity(), c.comp);
  c.c = c.e;
  y.sub = true;
  y.h = std::shared_ptr<HierarchicalIterative>(new BySubstitution(w.space));
  y.thr = 1e-4;
  y.b()->errorThreshold(y.thr);
  y.maxIter = 40;
  y.h->maxIterations(40);
  y.ls = (int)s.raw(4);
  bool optional = s.chance(1, 4);
  y.h->lastIsOptional(optional);
  s.note() << c.desc << " line search " << y.ls << (optional ? " last is optional" : "") << "\n";
  y.h->add(c.c, 0);
  y.cons.push_back(c);
  y.prio.push_back(0);
  y.expl.push_back(true);
  long n = s.range(0, 3);
  for (long i = 0; i < n; ++i) {
    Con d = s.chance(1, 4) ? explicitCon(s, w, (int)i + 1) : implicit(s, w, (int)i + 1, false, true, &y.target);
    std::size_t pr = s.chance(1, 3) ? (std::size_t)y.levels() : 0;
    bool ok = false;
    try {
      ok = y.h->add(d.c, pr);
    } catch (const std::logic_error&) {
    }
    if (!ok) continue;
    y.cons.push_back(d);
    y.prio.push_back(pr);
    y.expl.push_back(d.e && y.b()->explicitConstraintSet().contains(d.e));
    s.note() << d.desc << " priority " << pr << (y.expl.back() ? " explicit" : "") << "\n";
  }
  bool opt = optional && y.levels() && s.coin();
  for (long it = s.range(1, 4); it--;) {
    Configuration_t q = config(s, w, 1.5);
    if (!y.regular(q)) discard();
    std::vector<long> in = indices(c.e->inputConf());
    double x = q[in[0]];
    double limit = x + s.pick({-.1, .1, .01, .5, 1e-3});
    s.note() << "from " << gen::str(q) << " limit " << limit << (opt ? " optimize" : "") << "\n";
    // reference: the function is defined everywhere
    Configuration_t a(q), b(q);
    p->limit = std::numeric_limits<double>::infinity();
    auto sa = copyOf(y).solve(a, opt);
    p->limit = limit;
    p->refused = 0;
    HierarchicalIterative::Status sb;
    try {
      sb = y.solve(b, opt);
    } catch (const FunctionNotDefinedForThisValue&) {
      pbt::fail("exception", "solve throws");
    }
    PBT_CHECK(b.allFinite(), "nan", gen::str(b));
    if (p->refused) {
      PBT_CHECK(sb == HierarchicalIterative::INFEASIBLE, "status", sys::name(sb));
      s.label(x > limit ? "undefined at the start" : "undefined later");
      s.nontrivial();
    } else {
      PBT_CHECK(x <= limit || std::find(y.expl.begin() + 1, y.expl.end(), true) != y.expl.end(), "not-evaluated", "");
      PBT_CHECK(sa == sb && a == b, "other-result", sys::name(sb) << " " << gen::str(b) << " instead of " << sys::name(sa) << " " << gen::str(a));
      s.label("defined");
    }
  }
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C26";
  p.rule = "constraint, malformed, functions: a malformed request is submitted; undefined: an explicit function is evaluated where it is not defined";
  p.facets.push_back({"constraint", 2, constraint});
  p.facets.push_back({"functions", 2, functions});
  p.facets.push_back({"malformed", 2, malformed});
  p.facets.push_back({"undefined", 3, undefined});
  p.quick = 30000;
  p.thorough = 300000;
  return pbt::main(argc, argv, p);
}
