// C22: copies are independent and equality is an equivalence.
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/manipulability.hh>

#include <pinocchio/multibody/geometry.hpp>

#include "state.hh"
using namespace pbt;
using namespace sys;

typedef std::vector<std::pair<uint64_t, uint64_t>> Trace;

// ---- builders: same choices, same parameters ------------------------------
struct Obj {
  DifferentiableFunctionPtr_t f;
  std::string kind, desc;
  bool byValue = false;  // built twice with the same parameters gives equal objects
};
struct Ctx {
  World w;
  std::vector<DifferentiableFunctionPtr_t> shared;  // functions other ones refer to
};
static Obj makeFunction(Src& s, const Ctx& c) {
  Obj o;
  const World& w = c.w;
  long nq = w.space->nq(), nv = w.space->nv();
  std::size_t k = s.weighted({w.r ? 12u : 0u, 3, nq == nv ? 2u : 0u, 2, 1, 2, 2, 2, w.r ? 1u : 0u, 2, w.r ? 2u : 0u, w.r && w.r->geomModel().ngeoms ? 6u : 0u});
  switch (k) {
    case 0: {
      zoo::Fun F = s.chance(1, 4) ? zoo::contact(s, w.r, (int)s.raw(3)) : zoo::any(s, w.r);
      if (F.kind == "Manipulability") discard();  // below, on a shared function
      o.f = F.f;
      o.kind = F.kind;
      o.desc = F.desc;
      o.byValue = F.kind != "RelativeCom" && F.kind != "ComBetweenFeet" && F.kind != "StaticStability" &&
                  F.kind != "QPStaticStability" && F.kind != "ConvexShapeContactHold";  // these ones compare pointers
      break;
    }
    case 1: {
      auto f = smooth(s, w, "f");
      o.f = f;
      o.kind = "smooth";
      break;
    }
    case 2: {
      long m = s.range(1, 3);
      matrix_t A(matrix_t::Zero(m, nv));
      for (long i = 0; i < m; ++i)
        for (long j = 0; j < nv; ++j)
          if (s.coin()) A(i, j) = s.real(-2, 2);
      vector_t b(vec(s, m, 2.));
      o.f = AffineFunction::create(A, b, "f");
      o.kind = "affine";
      o.byValue = true;
      break;
    }
    case 3: {
      LiegroupElement e = element(s, outSpace(s));
      o.f = ConstantFunction::create(e, nq, nv, "f");
      o.kind = "constant";
      o.desc = gen::str(vector_t(e.vector()));
      o.byValue = true;
      break;
    }
    case 4:
      o.f = Identity::create(w.space, "f");
      o.kind = "identity";
      o.byValue = true;
      break;
    case 5: {
      auto fs = DifferentiableFunctionSet::create("f");
      long n = s.range(1, 3);
      for (long i = 0; i < n; ++i) fs->add(s.pick(c.shared));
      o.f = fs;
      o.kind = "set";
      o.byValue = true;
      break;
    }
    case 6: {
      // defined on a subset of the parameters of a larger space
      DifferentiableFunctionPtr_t g = s.pick(c.shared);
      long a = s.range(0, 1);
      o.f = function::OfParameterSubset::create(g, 2 * nq, 2 * nv, {segment_t(a * nq, nq)}, {segment_t(a * nv, nv)});
      o.kind = "subset";
      o.desc = " from " + std::to_string(a);
      o.byValue = true;
      break;
    }
    case 7: {
      DifferentiableFunctionPtr_t g = s.pick(c.shared);
      long a = s.range(0, 1), b = s.range(0, 1);
      o.f = DifferentiableFunctionPtr_t(new function::Difference(g, 2 * nq, 2 * nv, segment_t(a * nq, nq), segment_t(a * nv, nv),
                                                                 segment_t(b * nq, nq), segment_t(b * nv, nv)));
      o.kind = "difference";
      o.desc = " from " + std::to_string(a) + " and " + std::to_string(b);
      o.byValue = true;
      break;
    }
    case 9: {
      segments_t seg;
      long n = s.range(0, 2);
      for (long i = 0; i < n; ++i) {
        long a = s.range(0, nv - 1);
        seg.push_back(segment_t(a, s.range(1, nv - a)));
        o.desc += " " + std::to_string(seg.back().first) + "+" + std::to_string(seg.back().second);
      }
      o.f = DifferentiableFunctionPtr_t(new ActiveSetDifferentiableFunction(s.pick(c.shared), seg));
      o.kind = "active set";
      o.byValue = true;
      break;
    }
    case 10: {
      std::vector<JointPtr_t> ff, all;
      for (auto& b : w.blocks)
        if (b.joint) {
          all.push_back(b.joint);
          if (b.k == SE3K) ff.push_back(b.joint);
        }
      if (ff.empty()) discard();
      JointPtr_t j2 = s.pick(ff), j1;
      if (s.chance(3, 4)) j1 = s.pick(all);
      for (JointIndex i = j1 ? j1->index() : 0; i > 0; i = w.r->model().parents[i])
        if (i == j2->index()) discard();
      Transform3s F1 = transform(s), F2 = transform(s);
      o.f = explicit_::RelativeTransformation::create("f", w.r, j1, j2, F1, F2);
      o.kind = "explicit relative transformation";
      o.desc = (j1 ? j1->name() : std::string("world")) + " " + j2->name() + gen::str(F1) + gen::str(F2);  // compares pointers
      break;
    }
    case 11: {
      zoo::Fun F = zoo::distanceBodies(s, w.r);
      o.f = F.f;
      o.kind = F.kind;
      o.desc = F.desc;
      break;
    }
    default: {
      DifferentiableFunctionPtr_t g = s.pick(c.shared);
      if (!g->activeDerivativeParameters().any()) discard();
      o.f = Manipulability::create(g, w.r, "f");
      o.kind = "Manipulability";
      o.byValue = true;
    }
  }
  return o;
}
static Con constraint(Src& s, const Ctx& c) {
  const World& w = c.w;
  if (s.chance(1, 3)) {
    // on a shared function: only the comparison and the mask differ
    Con k;
    DifferentiableFunctionPtr_t f = s.pick(c.shared);
    k.kind = "shared";
    k.comp = comparisons(s, f->outputDerivativeSize(), f->outputSpace()->isVectorSpace());
    k.mask = gen::mask(s, (std::size_t)f->outputDerivativeSize());
    k.c = Implicit::create(f, k.comp, k.mask);
    k.desc = "shared comparison " + prob::str(k.comp) + " mask " + gen::str(k.mask);
    return k;
  }
  return s.coin() ? implicit(s, w, 0) : explicitCon(s, w, 0, true);
}

static Trace mutate(Src& s, const Trace& t) {
  Trace m(t);
  if (m.empty()) return m;
  long n = s.weighted({4, 1}) == 0 ? 1 : 3;
  for (long i = 0; i < n; ++i) {
    auto& x = m[s.raw(m.size())];
    x.first = s.raw(x.second);
  }
  return m;
}
static Src replay(const Trace& t) {
  std::vector<uint64_t> v;
  for (auto& x : t) v.push_back(x.first);
  return Src(v, nullptr);
}
static Ctx context(Src& s) {
  Ctx c;
  if (s.chance(3, 4)) {
    RobotOpts o;
    o.freeflyers = (int)s.range(0, 1);
    o.maxJoints = 4;
    o.geometry = s.chance(1, 5);
    c.w = robotWorld(s, o);
  } else
    c.w = abstractWorld(s, 1, 4);
  long n = s.range(1, 3);
  for (long i = 0; i < n; ++i) {
    if (c.w.r && s.coin())
      c.shared.push_back(zoo::pose(s, c.w.r).f);
    else
      c.shared.push_back(smooth(s, c.w, "shared" + std::to_string(i)));
  }
  return c;
}

static Configuration_t input(Src& s, const Ctx& c, const DifferentiableFunction& f) {
  if (f.inputSize() == c.w.space->nq()) return config(s, c.w);
  if (f.inputSize() != 2 * c.w.space->nq()) {
    // explicit function of some joints
    auto* e = dynamic_cast<const explicit_::RelativeTransformation*>(&f);
    if (!e) throw std::logic_error("harness: input");
    Configuration_t q = config(s, c.w), x(f.inputSize());
    std::vector<bool> in((std::size_t)q.size(), false);
    auto up = [&](JointConstPtr_t j) {
      for (; j && j->index() > 0; j = j->parentJoint())
        for (long i = 0; i < j->configSize(); ++i) {
          auto b = in[(std::size_t)(j->rankInConfiguration() + i)];
          b = !b;
        }
    };
    up(e->joint1());
    up(e->joint2()->parentJoint());
    long k = 0;
    for (long i = 0; i < q.size(); ++i)
      if (in[(std::size_t)i]) x[k++] = q[i];
    return x;
  }
  Configuration_t x(f.inputSize());
  x << config(s, c.w), config(s, c.w);
  return x;
}
// equality of two functions, checked both ways and against their values
static bool equal(const Obj& a, const Obj& b, const std::vector<Configuration_t>& qs) {
  bool e = *a.f == *b.f, e2 = *b.f == *a.f;
  PBT_CHECK(e == e2, "symmetric", a.kind << " " << b.kind << ": " << e << " " << e2);
  PBT_CHECK((*a.f != *b.f) == !e, "different", a.kind << " " << b.kind);
  if (!e) return e;
  PBT_CHECK(a.f->inputSize() == b.f->inputSize() && a.f->inputDerivativeSize() == b.f->inputDerivativeSize() &&
                *a.f->outputSpace() == *b.f->outputSpace(),
            "sizes", a.kind << " equal to " << b.kind << " of other sizes");
  for (auto& q : qs) {
    vector_t u = zoo::value(*a.f, q), v = zoo::value(*b.f, q);
    PBT_CHECK(same(u, v), "equal-values-" + a.kind,
              "equal functions have values " << gen::str(u) << " and " << gen::str(v) << "\n"
                                             << a.desc << "\n"
                                             << b.desc);
  }
  return e;
}
static std::vector<Configuration_t> inputs(Src& s, const Ctx& c, const DifferentiableFunction& f) {
  std::vector<Configuration_t> qs;
  for (int i = 0; i < 3; ++i) qs.push_back(input(s, c, f));
  return qs;
}

static void functions(Src& s) {
  Ctx c = context(s);
  s.note() << c.w.desc;
  zoo::ComPool pool;
  struct Reset {
    ~Reset() { zoo::comPool = nullptr; }
  } reset;
  zoo::comPool = &pool;
  Trace t;
  s.trace = &t;
  Obj a;
  try {
    a = makeFunction(s, c);
  } catch (...) {
    s.trace = nullptr;
    throw;
  }
  s.trace = nullptr;
  s.note() << "a: " << a.kind << " " << a.desc << "\n";
  s.label(a.kind);
  PBT_CHECK(*a.f == *a.f, "reflexive-" + a.kind, "function different from itself");
  PBT_CHECK(!(*a.f != *a.f), "reflexive-" + a.kind, "function different from itself");
  std::vector<Configuration_t> qs = inputs(s, c, *a.f);
  Src rs = replay(t);
  Obj b = makeFunction(rs, c);
  if (s.coin()) {
    // equality does not depend on the evaluations
    zoo::value(*a.f, qs[0]);
    if (s.coin()) gen::jacobian(*a.f, qs[1]);
    s.label("evaluated");
  }
  bool eb = equal(a, b, qs);
  PBT_CHECK(eb || !b.byValue, "rebuilt-" + a.kind, "functions built with the same arguments are different");
  bool eb2 = equal(a, b, qs);
  PBT_CHECK(eb == eb2, "stable-" + a.kind, "equality is " << eb << " before evaluating the functions, " << eb2 << " after");
  PBT_CHECK(*a.f == *a.f, "reflexive-" + a.kind, "function different from itself after evaluation");
  long n = s.range(1, 4);
  std::vector<Obj> m;
  for (long i = 0; i < n; ++i) {
    Src ms = replay(mutate(s, t));
    try {
      m.push_back(makeFunction(ms, c));
    } catch (const Discard&) {
      continue;
    }
    Obj& x = m.back();
    s.note() << "mutated: " << x.kind << " " << x.desc << "\n";
    if (x.kind == a.kind && x.desc != a.desc) s.nontrivial();
    bool ex = equal(a, x, qs);
    if (eb) PBT_CHECK(equal(b, x, qs) == ex, "transitive", x.kind);
    for (Obj& y : m)
      if (ex) PBT_CHECK(equal(x, y, qs) == equal(a, y, qs), "transitive", y.kind);
  }
}

// ---- constraints -----------------------------------------------------------
static bool equal(const Con& a, const Con& b, const std::vector<Configuration_t>& qs) {
  bool e = *a.c == *b.c, e2 = *b.c == *a.c;
  PBT_CHECK(e == e2, "symmetric-constraint", a.desc << "\n" << b.desc << ": " << e << " " << e2);
  if (!e) return e;
  std::string u = observe(a.c, qs), v = observe(b.c, qs);
  PBT_CHECK(u == v, "equal-constraints-" + a.kind, "equal constraints behave as\n" << u << "and\n" << v << a.desc << "\n" << b.desc);
  return e;
}
static void constraints(Src& s) {
  Ctx c = context(s);
  s.note() << c.w.desc;
  Trace t;
  s.trace = &t;
  Con a;
  try {
    a = constraint(s, c);
  } catch (...) {
    s.trace = nullptr;
    throw;
  }
  s.trace = nullptr;
  s.label(a.kind);
  s.note() << "a: " << a.desc << "\n";
  std::vector<Configuration_t> qs;
  for (int i = 0; i < 3; ++i) qs.push_back(config(s, c.w));
  PBT_CHECK(*a.c == *a.c, "reflexive-constraint", a.desc);
  Src rs = replay(t);
  Con b = constraint(rs, c);
  bool eb = equal(a, b, qs);
  PBT_CHECK(eb || a.kind != "shared", "rebuilt-" + a.kind, "constraints built with the same arguments are different");
  std::vector<Con> m;
  long n = s.range(1, 4);
  for (long i = 0; i < n; ++i) {
    Src ms = replay(mutate(s, t));
    try {
      m.push_back(constraint(ms, c));
    } catch (const Discard&) {
      continue;
    }
    Con& x = m.back();
    s.note() << "mutated: " << x.desc << "\n";
    if (x.kind == a.kind && x.desc != a.desc) s.nontrivial();
    bool ex = equal(a, x, qs);
    if (eb) PBT_CHECK(equal(b, x, qs) == ex, "transitive-constraint", x.kind);
  }
  // copies
  if (allEquality(a.c) && s.coin()) a.c->rightHandSideFunction(timeFunction(s, a.c->function().outputSpace(), "time"));
  ImplicitPtr_t k = a.c->copy();
  PBT_CHECK(k && k != a.c, "copy", "copy is the same object");
  PBT_CHECK(*k == *a.c && *a.c == *k, "copy-equal-" + a.kind, "copy different from the original");
  std::string o = observe(a.c, qs);
  PBT_CHECK(observe(k, qs) == o, "copy-behaves-" + a.kind, observe(k, qs) << "instead of\n" << o);
  PBT_CHECK(!HPP_DYNAMIC_PTR_CAST(LockedJoint, k) == !HPP_DYNAMIC_PTR_CAST(LockedJoint, a.c) &&
                !HPP_DYNAMIC_PTR_CAST(Explicit, k) == !HPP_DYNAMIC_PTR_CAST(Explicit, a.c),
            "copy-type", "copy of another type");
  ImplicitPtr_t x = a.c, y = k;
  if (s.coin()) std::swap(x, y);
  if (y->rightHandSideFunction() ? s.chance(1, 4) : true) {
    ComparisonTypes_t ct = comparisons(s, y->function().outputDerivativeSize(), y->function().outputSpace()->isVectorSpace());
    y->comparisonType(ct);
    s.label("comparison changed");
    ImplicitPtr_t z = y->copy();
    PBT_CHECK(prob::str(z->comparisonType()) == prob::str(ct), "copy-comparison", prob::str(z->comparisonType()));
    PBT_CHECK((*x == *y) == (ct == a.comp), "comparison-differs", prob::str(ct) << " " << prob::str(a.comp));
  } else {
    y->rightHandSideFunction(timeFunction(s, y->function().outputSpace(), "other"));
    s.label("time function changed");
  }
  PBT_CHECK(observe(x, qs) == o, "copy-independent-" + a.kind, observe(x, qs) << "instead of\n" << o);
  // assignment
  if (typeid(*x) != typeid(Implicit)) return;
  Con d = implicit(s, c.w, 7);
  s.note() << "assigned to " << d.desc << "\n";
  if (s.coin()) observe(d.c, qs);
  *d.c = *x;
  s.label("assigned");
  PBT_CHECK(*d.c == *x && *x == *d.c, "assigned-equal", d.desc);
  PBT_CHECK(observe(d.c, qs) == o, "assigned-behaves-" + a.kind, observe(d.c, qs) << "instead of\n" << o);
  d.c->comparisonType(ComparisonTypes_t((std::size_t)d.c->function().outputDerivativeSize(), EqualToZero));
  PBT_CHECK(observe(x, qs) == o, "assigned-independent-" + a.kind, observe(x, qs) << "instead of\n" << o);
}

// ---- solvers -----------------------------------------------------------------
// one change of a solver
static void change(Src& s, System& y, int i) {
  std::size_t k = s.weighted({4, 1, 1, 1, 1, 1, 3, 1, 1, 2, 1});
  static const char* names[] = {"right hand side", "error threshold", "iterations",     "optional", "level by level", "inequality threshold",
                                "add",             "free",            "from config", "constraint", "saturation"};
  s.note() << "change: " << names[k] << "\n";
  s.label(std::string("change ") + names[k]);
  switch (k) {
    case 0: {
      if (y.cons.empty()) return;
      std::size_t c = s.raw(y.cons.size());
      y.setRhs(c, rightHandSide(s, y.cons[c], .7));
      break;
    }
    case 1: {
      double t = s.pick({1e-4, 1e-2, .1, 1e-6, 1.});
      if (y.sub)
        y.b()->errorThreshold(t);
      else
        y.h->errorThreshold(t);
      break;
    }
    case 2: y.h->maxIterations(s.pick({0L, 1L, 3L, 40L})); break;
    case 3: y.h->lastIsOptional(!y.h->lastIsOptional()); break;
    case 4: y.h->solveLevelByLevel(!y.h->solveLevelByLevel()); break;
    case 5: y.h->inequalityThreshold(s.pick({0., 1e-3, .2})); break;
    case 6: {
      Con c = s.coin() ? implicit(s, y.w, 100 + i) : explicitCon(s, y.w, 100 + i);
      s.note() << c.desc << "\n";
      try {
        y.h->add(c.c, 0);
      } catch (const std::logic_error&) {
      }
      break;
    }
    case 7: {
      segments_t seg;
      std::vector<bool> out = y.outputs();
      for (std::size_t j = 0; j < out.size(); ++j)
        if (!out[j] && s.chance(3, 4)) seg.push_back(segment_t((long)j, 1));
      y.h->freeVariables(seg);
      break;
    }
    case 8: {
      Configuration_t q = config(s, y.w, 1.);
      if (y.sub)
        y.b()->rightHandSideFromConfig(q);
      else
        y.h->rightHandSideFromConfig(q);
      break;
    }
    case 9: {
      // through the constraints of the solver
      if (list(y).empty()) return;
      ImplicitPtr_t c = s.pick(list(y));
      if (!allEquality(c)) return;
      c->rightHandSideFunction(timeFunction(s, c->function().outputSpace(), "new"));
      y.h->rightHandSideAt(.2);
      break;
    }
    default:
      y.h->saturation(HierarchicalIterative::Saturation_t(new solver::saturation::Base));
  }
}

static void copies(Src& s) {
  Opts o;
  o.minCons = 1;
  o.maxCons = 4;
  System y = system(s, o);
  if (y.cons.empty()) discard();
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (allEquality(y.cons[i].c) && s.chance(1, 3))
      y.cons[i].c->rightHandSideFunction(timeFunction(s, y.cons[i].c->function().outputSpace(), "time"));
  std::vector<Configuration_t> qs{y.start(s), y.start(s)};
  State a = state(y, qs);
  System z = copyOf(y);
  sameState(state(y, qs), a, "repeated", true);
  sameState(state(z, qs), a, "copy-behaves", false);
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    PBT_CHECK(z.h->contains(y.cons[i].c), "copy-contains", "constraint " << i);
  sameState(state(y, qs), a, "original-after-copy", true);
  bool first = s.coin();
  System &u = first ? y : z, &v = first ? z : y;
  State b = state(v, qs);
  long n = s.range(1, 5);
  for (long i = 0; i < n; ++i) change(s, u, (int)i);
  if (s.coin()) {
    Configuration_t p(config(s, y.w, 1.));
    u.solve(p);
  }
  sameState(state(v, qs), b, "independent", true);
  if (s.coin()) {
    // the original may disappear
    u.h.reset();
    sameState(state(v, qs), b, "independent", true);
  }
  s.nontrivial();
}

// ---- merge --------------------------------------------------------------------
static void merged(Src& s) {
  World w = s.coin() ? abstractWorld(s, 1, 5) : robotWorld(s);
  bool sub = s.chance(3, 5);
  s.note() << w.desc << (sub ? "by substitution\n" : "hierarchical\n");
  auto make = [&]() {
    return std::shared_ptr<HierarchicalIterative>(sub ? new BySubstitution(w.space) : new HierarchicalIterative(w.space));
  };
  Configuration_t target = config(s, w, 1.2);
  long n = s.range(2, 6);
  std::vector<Con> cons;
  for (long i = 0; i < n; ++i) {
    cons.push_back(s.chance(2, 5) ? explicitCon(s, w, (int)i) : implicit(s, w, (int)i, true, true, &target));
    s.note() << i << ": " << cons.back().desc << "\n";
  }
  typedef std::vector<std::pair<ImplicitPtr_t, std::size_t>> List;
  List l1, l2;
  auto h1 = make(), h2 = make(), d = make(), m = make();
  auto add = [&](const std::shared_ptr<HierarchicalIterative>& h, const ImplicitPtr_t& c, std::size_t p) {
    try {
      return h->add(c, p);
    } catch (const std::logic_error&) {
      return false;
    }
  };
  auto isExplicit = [&](const std::shared_ptr<HierarchicalIterative>& h, const ImplicitPtr_t& c) {
    ExplicitPtr_t e = HPP_DYNAMIC_PTR_CAST(Explicit, c);
    return sub && e && static_cast<BySubstitution*>(h.get())->explicitConstraintSet().contains(e);
  };
  bool base = false;
  for (auto& c : cons) {
    std::size_t k = s.raw(3);
    if (k != 1 && add(h1, c.c, 0)) {
      l1.emplace_back(c.c, 0);
      base |= !isExplicit(h1, c.c);
    }
  }
  for (auto& c : cons) {
    if (!s.chance(2, 3)) continue;
    ImplicitPtr_t x = s.coin() ? c.c : c.c->copy();
    std::size_t p = base && s.chance(1, 3) ? (std::size_t)s.range(0, (long)h2->numberStacks()) : 0;
    if (add(h2, x, p)) l2.emplace_back(x, isExplicit(h2, x) ? 0 : p);
  }
  s.note() << "first " << l1.size() << " second " << l2.size() << "\n";
  State none;
  // by copy or from scratch
  if (s.coin())
    m = std::shared_ptr<HierarchicalIterative>(sub ? new BySubstitution(*static_cast<BySubstitution*>(h1.get()))
                                                   : new HierarchicalIterative(*h1));
  else
    m->merge(*h1);
  // reference
  List ref(l1);
  for (auto& x : l1) add(d, x.first, x.second);
  auto has = [](const List& l, const ImplicitPtr_t& c) {
    for (auto& x : l)
      if (*x.first == *c) return true;
    return false;
  };
  long extra = 0;
  for (auto& x : l2)
    if (!has(l1, x.first)) {
      ref.push_back(x);
      ++extra;
    }
  // empty levels are not supported
  std::vector<bool> used(8, false);
  used[0] = base;
  for (auto& x : ref)
    if (!has(l1, x.first)) {
      for (std::size_t j = 0; j < x.second; ++j)
        if (!used[j]) discard();
      if (!add(d, x.first, x.second)) discard();  // same function, other comparison or mask
      if (!isExplicit(d, x.first)) used[x.second] = true;
    }
  std::vector<ImplicitPtr_t> before2(h2->constraints());
  long dim2 = h2->dimension();
  m->merge(*h2);
  PBT_CHECK(h2->constraints() == before2 && h2->dimension() == dim2, "merge-other", "the merged solver is changed");
  PBT_CHECK(m->constraints().size() == ref.size(), "merge-size", m->constraints().size() << " constraints instead of " << ref.size());
  for (std::size_t i = 0; i < ref.size(); ++i) {
    PBT_CHECK(*m->constraints()[i] == *ref[i].first, "merge-order", "constraint " << i);
    PBT_CHECK(m->contains(ref[i].first), "merge-contains", "constraint " << i);
  }
  for (auto& c : cons)
    PBT_CHECK(m->contains(c.c) == (has(l1, c.c) || has(l2, c.c)), "merge-contains", c.desc);
  PBT_CHECK(m->definesSubmanifoldOf(*h1) && m->definesSubmanifoldOf(*h2), "submanifold", "merged solver");
  PBT_CHECK(h1->definesSubmanifoldOf(*m) == (extra == 0), "submanifold", "first solver, " << extra << " other constraints");
  bool all = true;
  for (auto& x : l1) all &= has(l2, x.first);
  PBT_CHECK(h2->definesSubmanifoldOf(*h1) == all, "submanifold", "second solver of the first " << all);
  // merging again changes nothing
  m->merge(*h2);
  m->merge(*h1);
  PBT_CHECK(m->constraints().size() == ref.size(), "merge-again", m->constraints().size());
  System a, b;
  a.w = b.w = w;
  a.sub = b.sub = sub;
  a.h = m;
  b.h = d;
  for (System* x : {&a, &b}) {
    if (sub)
      x->b()->errorThreshold(1e-4);
    else
      x->h->errorThreshold(1e-4);
    x->h->maxIterations(10);
  }
  std::vector<Configuration_t> qs{near(s, w, target, .3), config(s, w, 1.)};
  sameState(state(a, qs), state(b, qs), "merge-behaves", false);
  if (extra && !l1.empty()) s.nontrivial();
}

// extraction leaves the original as it was
static void extraction(Src& s) {
  Opts o;
  o.minCons = 1;
  o.maxCons = 4;
  o.inequalities = false;
  System y = system(s, o);
  bool any = false;
  for (std::size_t i = 0; i < y.cons.size(); ++i)
    if (allEquality(y.cons[i].c) && s.chance(3, 4)) {
      y.cons[i].c->rightHandSideFunction(timeFunction(s, y.cons[i].c->function().outputSpace(), "time"));
      any = true;
    }
  if (!any) discard();
  std::vector<Configuration_t> qs{y.start(s), y.start(s)};
  State a = state(y, qs);
  interval_t in(s.pick({0., .5, 2.}), s.pick({1., .25, 3.}));
  System z(y);
  if (y.sub)
    z.h = std::shared_ptr<HierarchicalIterative>(new BySubstitution(y.b()->extract(in)));
  else
    z.h = std::shared_ptr<HierarchicalIterative>(new HierarchicalIterative(y.h->extract(in)));
  sameState(state(y, qs), a, "extract-original", true);
  System u = copyOf(y);
  u.h->rightHandSideAt(in.first);
  z.h->rightHandSideAt(0);
  State b = state(z, qs), c = state(u, qs);
  for (State* x : {&b, &c})
    for (auto& k : x->cons)
      if (k->rightHandSideFunction()) x->num.pop_back();
  sameState(b, c, "extract-behaves", false, 1e-9);
  sameState(state(y, qs), a, "extract-original", true);
  for (int i = 0; i < 2; ++i) change(s, z, i);
  sameState(state(y, qs), a, "extract-independent", true);
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C22";
  p.rule =
      "functions, constraints: an object that differs from the first one by few parameters was compared with it; copies, "
      "extraction: always; merge: both solvers have constraints the other one does not have";
  p.facets.push_back({"functions", 5, functions});
  p.facets.push_back({"constraints", 5, constraints});
  p.facets.push_back({"copies", 4, copies});
  p.facets.push_back({"merge", 3, merged});
  p.facets.push_back({"extraction", 2, extraction});
  p.quick = 60000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
