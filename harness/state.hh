// What functions, constraints and solvers do, for comparisons between an object and a copy.
#pragma once
#include "sys.hh"
namespace sys {
inline bool same(const vector_t& a, const vector_t& b, double tol = 1e-12) {
  if (a.size() != b.size()) return false;
  for (long i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(a[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}

inline vector_t pick(vectorIn_t q, const segments_t& s) {
  std::vector<long> in = indices(s);
  vector_t x((long)in.size());
  for (std::size_t k = 0; k < in.size(); ++k) x[(long)k] = q[in[k]];
  return x;
}
// what a constraint does
inline std::string observe(const ImplicitPtr_t& c, const std::vector<Configuration_t>& qs, double amp = .3) {
  std::ostringstream o;
  o.precision(12);
  o << prob::str(c->comparisonType()) << " rows";
  for (auto& x : c->activeRows()) o << " " << x.first << "," << x.second;
  o << " parameters " << c->parameterSize() << " rhs " << c->rightHandSideSize() << " " << c->checkAllRowsActive() << "\n";
  LiegroupSpacePtr_t sp = c->function().outputSpace();
  o << "eq";
  for (auto i : indices(c->equalityIndices().rows())) o << " " << i;
  o << "\n";
  auto put = [&](vectorIn_t v) {
    for (long i = 0; i < v.size(); ++i) o << " " << (double)(std::abs(v[i]) < 1e-11 ? 0. : v[i]);
    o << "\n";
  };
  for (auto& q : qs) {
    put(zoo::value(c->function(), q));
    LiegroupElement r(sp);
    c->rightHandSideFromConfig(q, r);
    put(r.vector());
  }
  if (c->rightHandSideFunction())
    for (double t : {0., .4}) put(vector_t(c->rightHandSideAt(t)));
  if (ExplicitPtr_t e = HPP_DYNAMIC_PTR_CAST(Explicit, c)) {
    for (auto* g : {&e->inputConf(), &e->outputConf(), &e->inputVelocity(), &e->outputVelocity()}) {
      o << "[";
      for (auto i : indices(*g)) o << " " << i;
      o << " ]";
    }
    for (auto& q : qs) {
      LiegroupElement r(sp->neutral()), y(e->explicitFunction()->outputSpace());
      r += vector_t::Constant(sp->nv(), amp);
      e->outputValue(y, pick(q, e->inputConf()), r);
      put(y.vector());
    }
    LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, c);
    if (l) o << l->jointName() << " " << l->rankInConfiguration() << " " << l->configSpace()->name();
  }
  return o.str();
}
inline bool allEquality(const ImplicitPtr_t& c) {
  for (auto t : c->comparisonType())
    if (t != Equality) return false;
  return true;
}
inline DifferentiableFunctionPtr_t timeFunction(Src& s, const LiegroupSpacePtr_t& out, const std::string& name) {
  Block b;
  b.k = VEC;
  b.iq = b.iv = 0;
  b.nq = b.nv = 1;
  b.sp = LiegroupSpace::Rn(1);
  matrix_t A(out->nv(), 1);
  for (long i = 0; i < A.rows(); ++i) A(i, 0) = s.real(-1, 1);
  return Smooth::create({b}, out, A, vec(s, A.rows(), 1.), .7, name);
}

struct State {
  std::vector<ImplicitPtr_t> cons;
  vector_t rhs;
  std::string text;
  std::vector<vector_t> num;
  System y;
  std::vector<Configuration_t> qs;
  std::vector<std::pair<HierarchicalIterative::Status, Configuration_t>> sol;
};
inline const NumericalConstraints_t& list(const System& y) { return y.h->constraints(); }
// these members are not virtual
inline vector_t rhsOf(const System& y) { return y.sub ? y.b()->rightHandSide() : y.h->rightHandSide(); }
inline State state(const System& y, const std::vector<Configuration_t>& qs) {
  State x;
  for (auto& c : list(y)) x.cons.push_back(c);
  std::ostringstream o;
  o << "dimension " << y.h->dimension() << " reduced " << y.h->reducedDimension() << " stacks " << y.h->numberStacks()
    << " threshold " << y.h->errorThreshold() << " inequality " << y.h->inequalityThreshold() << " iterations "
    << y.h->maxIterations() << " optional " << y.h->lastIsOptional() << " levels " << y.h->solveLevelByLevel() << " free";
  for (auto i : indices(y.h->freeVariables().rows())) o << " " << i;
  o << " constraints";
  for (auto& c : x.cons) o << " " << c->function().name() << prob::str(c->comparisonType());
  if (y.sub) {
    o << " explicit threshold " << y.b()->explicitConstraintSet().errorThreshold() << " out";
    for (auto i : indices(y.b()->explicitConstraintSet().outDers().rows())) o << " " << i;
  }
  x.rhs = rhsOf(y);
  x.num.push_back(x.rhs);
  for (auto& q : qs) {
    o << " satisfied " << y.isSatisfied(q);
    vector_t e;
    if (y.sub) {
      e = vector_t(y.b()->errorSize());
      o << y.b()->isSatisfied(q, e);
      x.num.push_back(e);
    }
    for (auto& c : x.cons) {
      vector_t f(c->function().outputDerivativeSize());
      bool found = false;
      o << (y.sub ? y.b()->isConstraintSatisfied(c, q, f, found) : y.h->isConstraintSatisfied(c, q, f, found)) << found;
      x.num.push_back(f);
    }
  }
  x.y = y;
  x.qs = qs;
  for (auto& q : qs) {
    Configuration_t p(q);
    auto st = y.solve(p);
    x.sol.emplace_back(st, p);
  }
  for (auto& c : x.cons)
    if (c->rightHandSideFunction()) x.num.push_back(vector_t(c->rightHandSideAt(.4)));
  x.text = o.str();
  return x;
}
inline bool near(const Configuration_t& p, const Configuration_t& q) {
  return (p - q).norm() <= 1e-5 * (1 + p.norm()) || (!p.allFinite() && !q.allFinite());
}
// the solver is run from configurations that differ by rounding errors
inline bool stable(const State& x, std::size_t k) {
  for (int i = 1; i <= 60; ++i) {
    vector_t d(x.y.w.space->nv());
    for (long j = 0; j < d.size(); ++j) d[j] = std::sin(1. * i * (j + 1)) * std::pow(10., -15 + i % 6);
    Configuration_t p((LiegroupElement(x.qs[k], x.y.w.space) + d).vector());
    auto st = x.y.solve(p);
    if (st != x.sol[k].first || !near(p, x.sol[k].second)) return false;
  }
  return true;
}
// pointers: 1 same constraints, 0 equal ones, -1 constraints that may compare pointers
inline void sameState(const State& a, const State& b, const std::string& tag, int pointers, double tol = 1e-9) {
  PBT_CHECK(a.text == b.text, tag, a.text << "\ninstead of\n" << b.text);
  PBT_CHECK(a.cons.size() == b.cons.size(), tag, "number of constraints");
  for (std::size_t i = 0; i < a.cons.size(); ++i) {
    if (pointers == 1) PBT_CHECK(a.cons[i] == b.cons[i], tag, "constraint " << i << " replaced");
    if (pointers >= 0) PBT_CHECK(*a.cons[i] == *b.cons[i], tag, "constraint " << i << " differs");
  }
  for (std::size_t i = 0; i < b.num.size(); ++i)
    PBT_CHECK(same(a.num[i], b.num[i], tol), tag, "item " << i << " " << gen::str(a.num[i]) << "\ninstead of\n" << gen::str(b.num[i]));
  for (std::size_t i = 0; i < b.sol.size(); ++i)
    if (a.sol[i].first != b.sol[i].first || !near(a.sol[i].second, b.sol[i].second)) {
      if (!stable(a, i)) pbt::discard();  // chaotic
      PBT_CHECK(false, tag, "solve from " << gen::str(a.qs[i]) << ": " << name(a.sol[i].first) << " " << gen::str(a.sol[i].second) << "\ninstead of "
                                          << name(b.sol[i].first) << " " << gen::str(b.sol[i].second));
    }
}
inline System copyOf(const System& y) {
  System z(y);
  if (y.sub)
    z.h = std::shared_ptr<HierarchicalIterative>(new BySubstitution(*y.b()));
  else
    z.h = std::shared_ptr<HierarchicalIterative>(new HierarchicalIterative(*y.h));
  return z;
}
}
