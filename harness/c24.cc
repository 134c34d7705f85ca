// C24: what a solver tells about its content.
#include <hpp/constraints/explicit/convex-shape-contact.hh>

#include <set>

#include "state.hh"
using namespace pbt;
using namespace sys;

typedef std::set<long> Set;
static Set setOf(const segments_t& s) {
  auto v = indices(s);
  return Set(v.begin(), v.end());
}
static std::string str(const Set& s) {
  std::ostringstream o;
  o << "{";
  for (long i : s) o << " " << i;
  o << " }";
  return o.str();
}
static std::string str(const ArrayXb& a) {
  std::ostringstream o;
  for (long i = 0; i < a.size(); ++i) o << (a[i] ? 1 : 0);
  return o.str();
}

// velocity variables, not computed by explicit constraints, that the variables depend on
static Set closure(const System& y, const Set& vars) {
  Set res, seen, todo(vars);
  while (!todo.empty()) {
    long v = *todo.begin();
    todo.erase(todo.begin());
    if (!seen.insert(v).second) continue;
    bool out = false;
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (!y.expl[i] || !setOf(y.cons[i].e->outputVelocity()).count(v)) continue;
      out = true;
      for (long k : setOf(y.cons[i].e->inputVelocity())) todo.insert(k);
    }
    if (!out) res.insert(v);
  }
  return res;
}
static Set active(const ArrayXb& a) {
  Set s;
  for (long i = 0; i < a.size(); ++i)
    if (a[i]) s.insert(i);
  return s;
}

// order of the implicit constraints in the solver
static std::vector<std::size_t> order(const System& y) {
  std::vector<std::size_t> o;
  for (long l = 0; l < y.levels(); ++l)
    for (std::size_t i = 0; i < y.cons.size(); ++i)
      if (!y.expl[i] && (long)y.prio[i] == l) o.push_back(i);
  return o;
}

static void queries(Src& s, const System& y, const std::string& when) {
  const World& w = y.w;
  const HierarchicalIterative& h = *y.h;
  const NumericalConstraints_t& all = y.sub ? y.b()->numericalConstraints() : h.constraints();
  PBT_CHECK(all.size() == y.cons.size() && h.constraints().size() == all.size(), "constraints", when << ": " << all.size() << " instead of " << y.cons.size());
  for (std::size_t i = 0; i < all.size(); ++i) {
    PBT_CHECK(all[i] == y.cons[i].c && h.constraints()[i] == all[i], "constraints", when << ": constraint " << i);
    PBT_CHECK(h.contains(y.cons[i].c) && h.contains(y.cons[i].c->copy()), "contains", when << ": constraint " << i);
  }
  PBT_CHECK(h.configSpace() == w.space, "space", when);
  // levels
  PBT_CHECK((long)h.numberStacks() == y.levels(), "levels", when << ": " << h.numberStacks() << " instead of " << y.levels());
  std::vector<std::size_t> o = order(y);
  std::size_t k = 0;
  long dim = 0, nq = 0, reduced = 0;
  for (long l = 0; l < y.levels(); ++l) {
    auto& c = y.h->constraints((std::size_t)l).constraints();
    for (std::size_t j = 0; j < c.size(); ++j, ++k)
      PBT_CHECK(k < o.size() && y.prio[o[k]] == (std::size_t)l && c[j] == y.cons[o[k]].c, "level-content",
                when << ": constraint " << j << " of level " << l);
    PBT_CHECK(k == o.size() || (long)y.prio[o[k]] > l, "level-content", when << ": level " << l << " has " << c.size());
  }
  ArrayXb ap(ArrayXb::Constant(w.space->nq(), false)), adp(ArrayXb::Constant(w.space->nv(), false));
  for (std::size_t i : o) {
    const DifferentiableFunction& f = y.cons[i].c->function();
    dim += f.outputDerivativeSize();
    nq += f.outputSize();
    ap = ap || f.activeParameters();
    adp = adp || f.activeDerivativeParameters();
    bool dep = false;
    for (long v : closure(y, active(f.activeDerivativeParameters()))) dep = dep || y.free[(std::size_t)v];
    if (!dep) {
      s.label("independent of the free variables");
      continue;
    }
    for (bool m : y.cons[i].mask) reduced += m;
  }
  PBT_CHECK(h.dimension() == dim, "dimension", when << ": " << h.dimension() << " instead of " << dim);
  PBT_CHECK(h.reducedDimension() == reduced, "reduced-dimension", when << ": " << h.reducedDimension() << " instead of " << reduced);
  PBT_CHECK((h.activeParameters() == ap).all() && (h.activeDerivativeParameters() == adp).all(), "active",
            when << ": " << str(h.activeParameters()) << " " << str(h.activeDerivativeParameters()) << "\ninstead of " << str(ap) << " " << str(adp));
  Set fr;
  for (std::size_t i = 0; i < y.free.size(); ++i)
    if (y.free[i]) fr.insert((long)i);
  Set hf = setOf(h.freeVariables().rows());
  PBT_CHECK(hf == fr, "free", when << ": " << str(hf) << " instead of " << str(fr));
  // right hand side
  long rs = 0;
  if (y.sub) {
    long es = 0;
    Set out;
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (!y.expl[i]) continue;
      es += y.cons[i].c->function().outputDerivativeSize();
      rs += y.cons[i].c->function().outputSize();
      for (long v : setOf(y.cons[i].e->outputVelocity())) out.insert(v);
    }
    PBT_CHECK(y.b()->errorSize() == dim + es, "error-size", when << ": " << y.b()->errorSize() << " instead of " << dim + es);
    PBT_CHECK(y.b()->numberFreeVariables() == w.space->nv() - (long)out.size(), "number-free",
              when << ": " << y.b()->numberFreeVariables() << " instead of " << w.space->nv() - (long)out.size());
    Set imp = setOf(y.b()->implicitDof()), e = closure(y, active(adp));
    PBT_CHECK(imp == e, "implicit-dof", when << ": " << str(imp) << " instead of " << str(e));
    PBT_CHECK(y.b()->rightHandSideSize() == nq + rs, "rhs-size", when << ": " << y.b()->rightHandSideSize());
  } else {
    PBT_CHECK(h.rightHandSideSize() == nq, "rhs-size", when << ": " << h.rightHandSideSize());
  }
}

static void evaluation(Src& s, const System& y) {
  const World& w = y.w;
  const HierarchicalIterative& h = *y.h;
  std::vector<std::size_t> o = order(y);
  Configuration_t q = y.start(s);
  if (y.sub && s.coin()) y.b()->explicitConstraintSet().solve(q);
  if (!y.regular(q) || q.cwiseAbs().maxCoeff() > 1e4) discard();
  s.note() << "q " << gen::str(q) << "\n";
  std::vector<double> val, err;
  double n2 = 0;
  for (std::size_t i : o) {
    vector_t v = zoo::value(y.cons[i].c->function(), q), e = y.error(i, q);
    val.insert(val.end(), v.data(), v.data() + v.size());
    err.insert(err.end(), e.data(), e.data() + e.size());
    if (!y.isOptional(i)) n2 = std::max(n2, e.squaredNorm());
  }
  Eigen::Map<vector_t> V(val.data(), (long)val.size()), E(err.data(), (long)err.size());
  vector_t v = vector_t::Constant((long)val.size(), 1e30), e = vector_t::Constant(h.dimension(), 1e30);
  if (s.coin())
    h.computeValue<true>(q);
  else
    h.computeValue<false>(q);
  if (s.coin()) h.computeError();
  h.getValue(v);
  PBT_CHECK(same(v, V, 1e-9), "value", gen::str(v) << " instead of " << gen::str(V));
  h.residualError(e);
  PBT_CHECK(same(e, E, 1e-8), "error", gen::str(e) << " instead of " << gen::str(E));
  h.computeError();
  PBT_CHECK(std::abs(h.residualError() - n2) <= 1e-8 * (1 + n2), "squared-norm", h.residualError() << " instead of " << n2);
  for (auto& c : y.cons)  // orientations
    if (!c.regular && c.kind.empty()) s.label("unnamed");
  if (y.sub) {
    std::vector<double> tail;
    double m2 = 0;
    for (std::size_t i = 0; i < y.cons.size(); ++i) {
      if (!y.expl[i]) continue;
      vector_t x = y.error(i, q);
      tail.insert(tail.end(), x.data(), x.data() + x.size());
      m2 = std::max(m2, x.squaredNorm());
    }
    Eigen::Map<vector_t> T(tail.data(), (long)tail.size());
    vector_t a = vector_t::Constant(y.b()->errorSize(), 1e30);
    PBT_CHECK(a.size() == E.size() + T.size(), "error-size", a.size() << " instead of " << E.size() + T.size());
    bool sat = y.b()->isSatisfied(q, a);
    PBT_CHECK(same(vector_t(a.head(E.size())), E, 1e-8), "error-head", gen::str(a) << " instead of " << gen::str(E));
    PBT_CHECK(same(vector_t(a.tail(T.size())), T, 1e-8), "error-tail", gen::str(a) << " instead of " << gen::str(T));
    PBT_CHECK(sat == y.b()->isSatisfied(q), "satisfied", sat);
    double m = std::sqrt(std::max(n2, m2));
    if (m < .99 * y.thr) PBT_CHECK(sat || m2 > 0, "satisfied", m);
    if (n2 > 1.01 * y.thr * y.thr) PBT_CHECK(!sat, "satisfied", m);
  }
  (void)w;
}

static void run(Src& s) {
  Opts o;
  o.minCons = 1;
  o.saturation = false;
  System y = system(s, o);
  if (y.cons.empty()) discard();
  queries(s, y, "once built");
  evaluation(s, y);
  if (s.coin()) {
    Configuration_t q = y.start(s);
    if (y.regular(q)) {
      y.solve(q);
      queries(s, y, "after solving");
    }
  }
  if (y.cons.size() > 1 && y.levels()) s.nontrivial();
}

// constraints refused by a solver leave it unchanged
static void refused(Src& s) {
  Opts o;
  o.minCons = 1;
  o.saturation = false;
  System y = system(s, o);
  if (y.cons.empty()) discard();
  bool done = false;
  for (long n = s.range(1, 3); n--;) {
    std::size_t i = s.raw(y.cons.size());
    std::size_t p = (std::size_t)s.range(0, y.levels() + 1);
    ImplicitPtr_t c = s.coin() ? y.cons[i].c : y.cons[i].c->copy();
    bool twin = !y.expl[i] && !y.cons[i].e && s.chance(1, 3);
    // same function, another constraint
    if (twin) {
      ComparisonTypes_t t(y.cons[i].comp.size(), EqualToZero);
      t[0] = y.cons[i].comp[0] == EqualToZero ? Equality : EqualToZero;
      c = Implicit::create(y.cons[i].c->functionPtr(), t);
      s.label("same function");
    }
    s.note() << "adding again " << i << (twin ? " (function)" : "") << " priority " << p << "\n";
    bool thrown = false, added = false;
    try {
      added = y.h->add(c, p);
    } catch (const std::logic_error&) {
      thrown = true;
    }
    PBT_CHECK(!added, "added-twice", "constraint " << i << " of " << y.cons.size());
    PBT_CHECK(y.sub && !twin ? !thrown : thrown, "refused", "constraint " << i << (thrown ? " threw" : " did not throw"));
    queries(s, y, "after a refusal");
    done = true;
  }
  // right hand sides
  for (std::size_t i = 0; i < y.cons.size(); ++i) {
    vector_t v = vector_t::Constant(y.rhs[i].size(), 1e30);
    PBT_CHECK(y.getRhs(i, v) && same(v, y.rhs[i], 1e-8), "rhs", "constraint " << i << ": " << gen::str(v) << " instead of " << gen::str(y.rhs[i]));
  }
  evaluation(s, y);
  if (done && y.levels()) s.nontrivial();
}

// inclusion of the sets of solutions
static void inclusion(Src& s) {
  World w;
  if (s.coin())
    w = abstractWorld(s, 2, 5);
  else {
    RobotOpts ro;
    ro.freeflyers = (int)s.range(0, 2);
    w = robotWorld(s, ro);
  }
  std::vector<Con> pool;
  long n = s.range(1, 5);
  for (long i = 0; i < n; ++i) pool.push_back(s.coin() ? explicitCon(s, w, (int)i, false) : implicit(s, w, (int)i, false, false));
  std::vector<std::shared_ptr<HierarchicalIterative>> h;
  std::vector<std::vector<std::size_t>> in;
  for (int k = 0; k < 2; ++k) {
    bool sub = s.coin();
    h.push_back(std::shared_ptr<HierarchicalIterative>(sub ? new BySubstitution(w.space) : new HierarchicalIterative(w.space)));
    in.push_back({});
    for (std::size_t i = 0; i < pool.size(); ++i) {
      if (!s.chance(2, 3)) continue;
      bool ok = false;
      try {
        ok = h.back()->add(s.coin() ? pool[i].c : pool[i].c->copy(), 0);
      } catch (const std::logic_error&) {
      }
      if (ok) in.back().push_back(i);
    }
    s.note() << (sub ? "by substitution" : "hierarchical");
    for (auto i : in.back()) s.note() << " " << i;
    s.note() << "\n";
  }
  for (int k = 0; k < 2; ++k) {
    bool e = true;
    for (auto i : in[1 - k]) {
      bool found = false;
      for (auto j : in[k]) found = found || pool[i].c->function() == pool[j].c->function();
      e = e && found;
    }
    bool r = h[k]->definesSubmanifoldOf(*h[1 - k]);
    PBT_CHECK(r == e, "submanifold", "solver " << k << ": " << r << " instead of " << e);
    for (std::size_t i = 0; i < pool.size(); ++i) {
      bool found = false;
      for (auto j : in[k]) found = found || *pool[i].c == *pool[j].c;
      PBT_CHECK(h[k]->contains(pool[i].c) == found, "contains", "solver " << k << " constraint " << i << " instead of " << found);
    }
    s.label(e ? "included" : "not included");
  }
  if (in[0].size() && in[1].size() && in[0] != in[1]) s.nontrivial();
}

// explicit constraints whose error is bigger than the output
static void contact(Src& s) {
  RobotOpts ro;
  ro.freeflyers = 1;
  World w = robotWorld(s, ro);
  JointPtr_t obj;
  for (auto& b : w.blocks)
    if (b.k == SE3K && b.joint) obj = b.joint;
  if (!obj) discard();
  JointAndShapes_t fl{JointAndShape_t(JointPtr_t(), zoo::polygon(s, 2.))}, ob{JointAndShape_t(obj, zoo::polygon(s, .3))};
  ExplicitPtr_t hold = explicit_::ConvexShapeContact::create("hold", w.r, fl, ob, s.pick({0., 1e-2}));
  BySubstitution h(w.space);
  h.errorThreshold(1e-4);
  Con c = implicit(s, w, 0, false, false);
  bool imp = s.coin();
  if (imp) h.add(c.c, 0);
  h.add(hold, 0);
  if (!h.explicitConstraintSet().contains(hold)) discard();
  long es = (imp ? c.c->function().outputDerivativeSize() : 0);
  PBT_CHECK(h.dimension() == es, "dimension", h.dimension());
  es += hold->function().outputDerivativeSize();
  PBT_CHECK(h.errorSize() == es, "error-size", h.errorSize() << " instead of " << es);
  Configuration_t q = config(s, w, 1.);
  vector_t a = vector_t::Constant(es, 1e30);
  bool sat = h.isSatisfied(q, a);
  PBT_CHECK(a.allFinite() && a.cwiseAbs().maxCoeff() < 1e20, "error", gen::str(a));
  PBT_CHECK(sat == h.isSatisfied(q), "satisfied", sat);
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C24";
  p.rule = "queries and refused: several constraints, at least one implicit; inclusion: two different non empty sets; contact: an explicit contact";
  p.facets.push_back({"queries", 4, run});
  p.facets.push_back({"refused", 2, refused});
  p.facets.push_back({"inclusion", 2, inclusion});
  p.facets.push_back({"contact", 1, contact});
  p.quick = 60000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
