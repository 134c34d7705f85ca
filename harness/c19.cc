// C19: locked joints lock exactly the requested coordinates.
#include <hpp/constraints/explicit-constraint-set.hh>

#include "sys.hh"
using namespace pbt;
using namespace sys;

struct Lock {
  LockedJointPtr_t lj;
  int kind = 0;  // 0 joint, 1 partial, 2 extra
  JointPtr_t joint;
  std::string name;
  long iq = 0, nq = 0, iv = 0, nv = 0, index = 0;
  LiegroupSpacePtr_t sp;
  vector_t value;
};
static RobotOpts robots() {
  RobotOpts o;
  o.maxJoints = 4;
  o.freeflyers = 1;
  o.maxExtra = 4;
  return o;
}
static Lock lock(Src& s, const World& w) {
  Lock l;
  std::size_t o = s.raw(w.blocks.size());
  const Block& b = w.blocks[o];
  l.sp = b.sp;
  l.iq = b.iq;
  l.nq = b.nq;
  l.iv = b.iv;
  l.nv = b.nv;
  l.joint = b.joint;
  if (!b.joint || (b.k == VEC && s.chance(1, 3))) {
    l.kind = b.joint ? 1 : 2;
    l.index = s.range(0, b.nq - 1);
    l.nq = l.nv = s.range(1, b.nq - l.index);
    l.iq += l.index;
    l.iv += l.index;
    l.sp = LiegroupSpace::Rn(l.nq);
    l.value = vec(s, l.nq, 2);
    if (b.joint) {
      l.lj = LockedJoint::create(b.joint, l.index, l.value);
      l.name = "partial_" + b.joint->name();
    } else {
      l.lj = LockedJoint::create(w.r, l.index, l.value);
      l.name = w.r->name() + "_extraDof" + std::to_string(l.index);
    }
  } else {
    LiegroupElement v = element(s, b.sp, 1.5);
    l.value = v.vector();
    l.lj = LockedJoint::create(b.joint, v);
    l.name = b.joint->name();
  }
  s.note() << "lock " << l.name << " at " << l.iq << "+" << l.nq << " velocity " << l.iv << "+" << l.nv << " value "
           << gen::str(l.value) << "\n";
  s.label(l.kind == 0 ? "whole joint " + l.sp->name() : l.kind == 1 ? "partial" : "extra");
  return l;
}
static vector_t add(const LiegroupSpacePtr_t& sp, vectorIn_t x, vectorIn_t v) {
  LiegroupElement e(x, sp);
  e += v;
  return e.vector();
}
static double dist(const LiegroupSpacePtr_t& sp, vectorIn_t x, vectorIn_t y) {
  return (LiegroupElement(x, sp) - LiegroupElement(y, sp)).cwiseAbs().maxCoeff();
}

static void define(Src& s) {
  World w = robotWorld(s, robots());
  Lock l = lock(s, w);
  const LockedJoint& lj = *l.lj;
  segments_t oc{segment_t(l.iq, l.nq)}, ov{segment_t(l.iv, l.nv)};
  PBT_CHECK(lj.outputConf() == oc, "outputConf", "");
  PBT_CHECK(lj.outputVelocity() == ov, "outputVelocity", "");
  PBT_CHECK(indices(lj.inputConf()).empty() && indices(lj.inputVelocity()).empty(), "inputs", "");
  PBT_CHECK(lj.rankInConfiguration() == l.iq, "rankInConfiguration", lj.rankInConfiguration());
  PBT_CHECK(lj.rankInVelocity() == l.iv, "rankInVelocity", lj.rankInVelocity());
  PBT_CHECK(lj.configSize() == l.nq, "configSize", lj.configSize());
  PBT_CHECK(lj.numberDof() == l.nv, "numberDof", lj.numberDof());
  PBT_CHECK(*lj.configSpace() == *l.sp, "configSpace", *lj.configSpace());
  PBT_CHECK(lj.jointName() == l.name, "jointName", lj.jointName());
  PBT_CHECK(l.lj->joint() == (l.kind == 2 ? JointPtr_t() : l.joint), "joint", "");
  PBT_CHECK(lj.comparisonType() == ComparisonTypes_t((std::size_t)l.nv, Equality), "comparison", "");
  PBT_CHECK(lj.parameterSize() == l.nv, "parameterSize", lj.parameterSize());
  PBT_CHECK(lj.rightHandSideSize() == l.nv, "rightHandSideSize", lj.rightHandSideSize());
  PBT_CHECK(lj.checkAllRowsActive(), "mask", "");
  PBT_CHECK(*lj.function().outputSpace() == *LiegroupSpace::Rn(l.nv), "outputSpace", "");
  // explicit form
  vector_t none;
  LiegroupElement v(l.sp), r(l.sp);
  lj.explicitFunction()->value(v, none);
  PBT_CHECK(v.vector() == l.value, "value", gen::str(v.vector()));
  LiegroupElement rhs(vec(s, l.nv, s.coin() ? .1 : 2.), LiegroupSpace::Rn(l.nv));
  s.note() << "right hand side " << gen::str(rhs.vector()) << "\n";
  lj.outputValue(r, none, rhs);
  vector_t want = add(l.sp, l.value, rhs.vector());
  PBT_CHECK(dist(l.sp, r.vector(), want) < 1e-9, "outputValue", gen::str(r.vector()) << " instead of " << gen::str(want));
  // implicit form
  Configuration_t q = prob::config(s, w);
  LiegroupElement h(lj.function().outputSpace());
  Configuration_t p(q);
  p.segment(l.iq, l.nq) = want;
  lj.function().value(h, p);
  bool small = true;
  if (l.sp->nv() != l.sp->nq() || l.sp->nq() != (long)l.value.size()) small = rhs.vector().norm() < 3;
  if (l.kind == 0 && !l.sp->isVectorSpace()) small = rhs.vector().norm() < 3;
  if (small)
    PBT_CHECK((h.vector() - rhs.vector()).cwiseAbs().maxCoeff() < 1e-6, "implicit",
              "value + right hand side: " << gen::str(h.vector()) << " instead of " << gen::str(rhs.vector()));
  p.segment(l.iq, l.nq) = l.value;
  lj.function().value(h, p);
  PBT_CHECK(h.vector().cwiseAbs().maxCoeff() < 1e-7, "implicit-zero", gen::str(h.vector()));
  lj.function().value(h, q);
  double d = dist(l.sp, q.segment(l.iq, l.nq), l.value);
  if (d > 1e-3)
    PBT_CHECK(h.vector().cwiseAbs().maxCoeff() > 1e-6, "implicit-nonzero", "distance to the value " << d);
  // copies
  ImplicitPtr_t c = lj.copy();
  LockedJointPtr_t c1 = std::dynamic_pointer_cast<LockedJoint>(c);
  PBT_CHECK(c1, "copy-type", "");
  LockedJointPtr_t c2 = LockedJoint::createCopy(l.lj);
  for (auto& x : {c1, c2}) {
    PBT_CHECK(*x == lj && lj == *x, "copy-equal", "");
    PBT_CHECK(x->jointName() == l.name && x->rankInConfiguration() == l.iq && x->rankInVelocity() == l.iv &&
                  x->configSize() == l.nq && x->numberDof() == l.nv && x->joint() == l.lj->joint() &&
                  x->outputConf() == oc && x->outputVelocity() == ov,
              "copy", "");
    x->explicitFunction()->value(v, none);
    PBT_CHECK(v.vector() == l.value, "copy-value", "");
  }
  c1->comparisonType(ComparisonTypes_t((std::size_t)l.nv, EqualToZero));
  PBT_CHECK(lj.comparisonType() == ComparisonTypes_t((std::size_t)l.nv, Equality), "copy-independent", "");
  PBT_CHECK(!(*c1 == lj) && !(lj == *c1), "comparison-equal", "different comparison types are equal");
  // relative pose
  auto jj = lj.doesConstrainRelPoseBetween(w.r);
  if (l.kind) {
    PBT_CHECK(!jj.first && !jj.second, "relpose", "");
  } else {
    JointConstPtr_t parent = l.joint->parentJoint();
    std::size_t a = parent ? parent->index() : 0, b = l.joint->index();
    PBT_CHECK(Joint::index(jj.first) == (size_type)std::min(a, b) && Joint::index(jj.second) == (size_type)std::max(a, b),
              "relpose", Joint::index(jj.first) << " " << Joint::index(jj.second) << " instead of " << a << " " << b);
  }
  // printing
  std::ostringstream o;
  o << lj;
  std::ostringstream e;
  e << "Locked joint " << l.name << ",";
  PBT_CHECK(o.str().find(e.str()) != std::string::npos, "print-name", o.str());
  std::string::size_type at = o.str().find("value");
  PBT_CHECK(at != std::string::npos, "print", o.str());
  // numbers printed after the name
  std::string t = o.str().substr(o.str().find(l.name) + l.name.size());
  std::vector<double> num;
  for (const char* c0 = t.c_str(); *c0;) {
    char* end;
    double x = std::strtod(c0, &end);
    if (end == c0 || std::isalpha((unsigned char)*c0))
      ++c0;
    else {
      num.push_back(x);
      c0 = end;
    }
  }
  PBT_CHECK((long)num.size() == l.nq + 2, "print-size", o.str());
  for (long i = 0; i < l.nq; ++i)
    PBT_CHECK(std::abs(num[(std::size_t)i] - l.value[i]) < 1e-3 * (1 + std::abs(l.value[i])), "print-value", o.str());
  PBT_CHECK(num[(std::size_t)l.nq] == (double)l.iq && num[(std::size_t)l.nq + 1] == (double)l.iv, "print-ranks", o.str());
  if (w.blocks.size() > 1) s.nontrivial();
}

// equality
static void equal(Src& s) {
  World w = robotWorld(s, robots());
  Lock a = lock(s, w), b = lock(s, w);
  if (s.coin()) {
    // same variables, maybe the same value
    b = a;
    if (s.coin()) {
      LiegroupElement v = element(s, a.sp, 1.5);
      if (s.chance(1, 3)) {
        vector_t d = vector_t::Zero(a.nv);
        d[(long)s.raw((uint64_t)a.nv)] = 1e-3;
        v = LiegroupElement(a.value, a.sp);
        v += d;
      }
      b.value = v.vector();
    }
    b.lj = a.kind == 0   ? LockedJoint::create(a.joint, LiegroupElement(b.value, a.sp))
           : a.kind == 1 ? LockedJoint::create(a.joint, a.index, b.value)
                         : LockedJoint::create(w.r, a.index, b.value);
  }
  bool same = a.kind == b.kind && a.iq == b.iq && a.nq == b.nq && a.value == b.value;
  bool ab = *a.lj == *b.lj, ba = *b.lj == *a.lj;
  PBT_CHECK(ab == ba, "symmetric", "");
  PBT_CHECK(*a.lj == *a.lj, "reflexive", "");
  if (!same) PBT_CHECK(!ab, "distinct", "different locked joints are equal");
  s.label(same ? "same" : "different");
  s.label(ab ? "equal" : "not equal");
  if (!same) s.nontrivial();
}

static void solve(Src& s) {
  World w = robotWorld(s, robots());
  long n = s.range(1, 4);
  std::vector<Lock> locks;
  std::vector<bool> used((std::size_t)w.space->nq(), false);
  for (long i = 0; i < n; ++i) {
    Lock l = lock(s, w);
    bool free = true;
    for (long k = l.iq; k < l.iq + l.nq; ++k) free &= !used[(std::size_t)k];
    if (!free) continue;
    for (long k = l.iq; k < l.iq + l.nq; ++k) used[(std::size_t)k] = true;
    locks.push_back(l);
  }
  if (locks.size() > 1) s.nontrivial();
  Configuration_t q = prob::config(s, w), ref = prob::config(s, w), q0(q);
  // right hand sides: none, given, from a configuration
  std::vector<vector_t> rhs;
  std::vector<bool> fromConf;
  ComparisonTypes_t ct;
  for (auto& l : locks) {
    if (s.chance(1, 5)) l.lj->comparisonType(ComparisonTypes_t((std::size_t)l.nv, EqualToZero));
    rhs.push_back(vector_t::Zero(l.nv));
    fromConf.push_back(false);
    if (l.lj->comparisonType()[0] == Equality) {
      int k = (int)s.raw(3);
      if (k == 1) rhs.back() = vec(s, l.nv, s.coin() ? .1 : 1.);
      if (k == 2) {
        rhs.back() = LiegroupElement(ref.segment(l.iq, l.nq), l.sp) - LiegroupElement(l.value, l.sp);
        fromConf.back() = true;
      }
    }
    s.note() << "right hand side of " << l.name << ": " << gen::str(rhs.back()) << (fromConf.back() ? " from config" : "")
             << "\n";
  }
  int how = (int)s.raw(3);
  s.label(how == 0 ? "set" : how == 1 ? "by substitution" : "hierarchical iterative");
  auto setAll = [&](auto& x) {
    for (std::size_t i = 0; i < locks.size(); ++i) {
      ImplicitPtr_t c = locks[i].lj;
      if (fromConf[i])
        x.rightHandSideFromConfig(c, ref);
      else if (!rhs[i].isZero())
        x.rightHandSide(c, rhs[i]);
    }
  };
  if (how == 0) {
    ExplicitConstraintSet set(w.space);
    for (auto& l : locks) PBT_CHECK(set.add(l.lj) >= 0, "add", l.name);
    for (std::size_t i = 0; i < locks.size(); ++i) {
      if (fromConf[i])
        set.rightHandSideFromInput(locks[i].lj, ref);
      else if (!rhs[i].isZero())
        set.rightHandSide(locks[i].lj, rhs[i]);
    }
    set.solve(q);
    PBT_CHECK(set.isSatisfied(q, 1e-6), "satisfied", gen::str(q));
  } else if (how == 1) {
    BySubstitution b(w.space);
    b.maxIterations(20);
    b.errorThreshold(1e-6);
    for (auto& l : locks) PBT_CHECK(b.add(l.lj), "add", l.name);
    setAll(b);
    auto st = b.solve<solver::lineSearch::Constant>(q);
    PBT_CHECK(st == HierarchicalIterative::SUCCESS, "status", sys::name(st));
    PBT_CHECK(b.isSatisfied(q, 1e-6), "satisfied", gen::str(q));
  } else {
    HierarchicalIterative h(w.space);
    h.maxIterations(200);
    h.errorThreshold(1e-5);  // the solver gives up when steps are smaller than 1e-6
    for (auto& l : locks) PBT_CHECK(h.add(l.lj, 0), "add", l.name);
    setAll(h);
    // big rotations: start close to the solution
    for (std::size_t i = 0; i < locks.size(); ++i) {
      const Lock& l = locks[i];
      q.segment(l.iq, l.nq) = add(l.sp, add(l.sp, l.value, rhs[i]), vec(s, l.nv, .2));
    }
    // the logarithm of the right hand side has to be far from rotations of angle pi
    for (std::size_t i = 0; i < locks.size(); ++i)
      if (locks[i].kind == 0 && !locks[i].sp->isVectorSpace() && rhs[i].norm() > 2) discard();
    auto st = h.solve<solver::lineSearch::Constant>(q);
    PBT_CHECK(st == HierarchicalIterative::SUCCESS, "status", sys::name(st) << " " << gen::str(q));
    PBT_CHECK(h.isSatisfied(q, 2e-5), "satisfied", gen::str(q));
  }
  for (std::size_t i = 0; i < locks.size(); ++i) {
    const Lock& l = locks[i];
    vector_t want = add(l.sp, l.value, rhs[i]);
    double d = dist(l.sp, q.segment(l.iq, l.nq), want);
    PBT_CHECK(d < 1e-4, "locked", l.name << ": " << gen::str(q.segment(l.iq, l.nq)) << " instead of " << gen::str(want));
  }
  for (long k = 0; k < q.size(); ++k)
    if (!used[(std::size_t)k])
      PBT_CHECK(std::abs(q[k] - q0[k]) < 1e-12, "others", "coordinate " << k << " changes from " << q0[k] << " to " << q[k]);
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C19";
  p.rule = "robots with several blocks of variables; pairs of different locked joints; several locked joints solved together";
  p.facets.push_back({"define", 2, define});
  p.facets.push_back({"equal", 1, equal});
  p.facets.push_back({"solve", 3, solve});
  p.quick = 60000;
  p.thorough = 2000000;
  p.assumptions = {"robots have no SO(3) joint (hpp-pinocchio provides none)"};
  return pbt::main(argc, argv, p);
}
