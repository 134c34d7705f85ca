// C05: functions depend on the parameters they declare active, and on the
// relative pose they announce.
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/constraints/locked-joint.hh>

#include "zoo.hh"
using namespace pbt;
using namespace gen;

// configuration equal to q on the active coordinates, to p on the others (by
// whole joint)
static Configuration_t mix(const DevicePtr_t& r, const ArrayXb& active, const Configuration_t& q, const Configuration_t& p,
                           int& changed) {
  Configuration_t x(q);
  changed = 0;
  const auto& m = r->model();
  JointIndex seg_joint = 0;
  auto seg = [&](long i, long n) {
    if (active.segment(i, n).any()) {
      // unit vectors (quaternion, cos and sin): the coordinates that are not
      // active may change sign
      long t = n == 4 && m.joints[seg_joint].nv() == 3 && m.joints[seg_joint].nq() == 4 ? 2 : 0;  // planar joint
      for (long k = 0; k < n; ++k)
        if (!active[i + k] && x[i + k] != 0) {
          x[i + k] = k < t ? p[i + k] : -x[i + k];
          ++changed;
        }
      return;
    }
    if (x.segment(i, n) != p.segment(i, n)) ++changed;
    x.segment(i, n) = p.segment(i, n);
  };
  for (JointIndex i = 1; i < (JointIndex)m.joints.size(); ++i) {
    long iq = m.joints[i].idx_q(), n = m.joints[i].nq();
    seg_joint = i;
    if (n == m.joints[i].nv())
      for (long k = 0; k < n; ++k) seg(iq + k, 1);
    else if (n == 7) {
      for (long k = 0; k < 3; ++k) seg(iq + k, 1);
      seg(iq + 3, 4);
    } else
      seg(iq, n);
  }
  seg_joint = 0;
  for (long k = m.nq; k < r->configSize(); ++k) seg(k, 1);
  return x;
}

static zoo::Fun setOf(Src& s, const DevicePtr_t& r) {
  zoo::Fun F;
  F.kind = "DifferentiableFunctionSet";
  auto fs = DifferentiableFunctionSet::create("set");
  long n = s.range(1, 3);
  std::vector<zoo::Fun> v;
  for (long i = 0; i < n; ++i) {
    v.push_back(zoo::simple(s, r));
    fs->add(v.back().f);
    F.desc += v.back().desc + "; ";
  }
  F.regular = [v](vectorIn_t q) {
    for (auto& f : v)
      if (f.regular && !f.regular(q)) return false;
    return true;
  };
  F.f = fs;
  return F;
}
static zoo::Fun lockedOf(Src& s, const DevicePtr_t& r) {
  zoo::Fun F;
  JointPtr_t j = joint(s, r, false);
  LiegroupSpacePtr_t sp = j->configurationSpace();
  Configuration_t q = config(s, r);
  auto L = LockedJoint::create(j, LiegroupElement(q.segment(j->rankInConfiguration(), j->configSize()), sp));
  F.f = L->functionPtr();
  F.kind = "LockedJoint";
  F.desc = "function of locked joint " + j->name();
  return F;
}

static void inactive(Src& s, const DevicePtr_t& r, const zoo::Fun& F) {
  s.label(F.kind);
  s.note() << describe(r) << F.desc << "\n";
  const ArrayXb& a = F.f->activeParameters();
  const ArrayXb& d = F.f->activeDerivativeParameters();
  PBT_CHECK(a.size() == r->configSize() && d.size() == r->numberDof(), F.kind + "-sizes", F.desc);
  Configuration_t q = config(s, r), p = config(s, r);
  s.note() << "q = " << str(q) << "\np = " << str(p) << "\n";
  int changed;
  Configuration_t x = mix(r, a, q, p, changed);
  vector_t v = zoo::value(*F.f, q), w = zoo::value(*F.f, x);
  if (!zoo::stable(F, r, q)) discard();
  if (F.regular && !F.regular(q)) {
    if (F.kind.compare(0, 11, "ConvexShape") == 0) discard();
    s.label("singular");
  }
  std::string df = zoo::differs(F, w, v, 1e-7);
  PBT_CHECK(df.empty(), F.kind + "-value",
            "the value changes between q and x, equal on active parameters\nx = " << str(x) << "\n" << df);
  if (!F.regular || F.regular(q)) {
    matrix_t J = jacobian(*F.f, q);
    for (long j = 0; j < J.cols(); ++j)
      if (!d[j])
        PBT_CHECK(J.col(j).cwiseAbs().maxCoeff() < 1e-7, F.kind + "-jacobian",
                  F.desc << "\ncolumn " << j << " is declared inactive\n" << J);
    // a velocity along inactive degrees of freedom changes nothing either
    vector_t dq = velocity(s, r->numberDof(), .5);
    for (long j = 0; j < dq.size(); ++j)
      if (d[j]) dq[j] = 0;
    LiegroupElement y(q, r->configSpace());
    y += dq;
    if (zoo::stable(F, r, y.vector())) {
      df = zoo::differs(F, zoo::value(*F.f, y.vector()), v, 1e-7);
      PBT_CHECK(df.empty(), F.kind + "-velocity",
                "the value changes along the inactive velocity " << str(dq) << "\n" << df);
    }
  }
  if (changed) s.nontrivial();
}

static void relPose(Src& s, const DevicePtr_t& r, const zoo::Fun& F, std::pair<JointConstPtr_t, JointConstPtr_t> jj) {
  s.label(F.kind);
  s.note() << describe(r) << F.desc << "\n";
  JointConstPtr_t a = jj.first, b = jj.second;
  if (!b) {
    PBT_CHECK(!a, F.kind + "-order", F.desc << ": the second joint only is empty");
    discard();
  }
  PBT_CHECK(!a || a->index() <= b->index(), F.kind + "-order", F.desc << ": joints are not in increasing order");
  Configuration_t q = config(s, r), p = config(s, r);
  const auto& m = r->model();
  auto M = [&](const Configuration_t& x) {
    FK fk(r, x);
    return Transform3s(fk.M(a).inverse() * fk.M(b));
  };
  Transform3s rel = M(q);
  Configuration_t x;
  const bool ff = m.joints[b->index()].nq() == 7 && m.parents[b->index()] == 0;
  if (ff && s.chance(3, 4)) {
    x = p;
    FK fk(r, p);
    Transform3s Mb = m.jointPlacements[b->index()].inverse() * fk.M(a) * rel;
    // a may be on the branch of b only if a == b
    for (JointIndex i = a ? a->index() : 0; i > 0; i = m.parents[i])
      if (i == b->index()) discard();
    long iq = m.joints[b->index()].idx_q();
    x.segment<3>(iq) = Mb.translation();
    x.segment<4>(iq + 3) = quat(Mb.rotation());
    s.label("moved free-flyer");
    s.nontrivial();
  } else {
    ArrayXb act(ArrayXb::Constant(r->configSize(), false));
    JointIndex i = a ? a->index() : 0, j = b->index();
    while (i != j) {
      JointIndex& k = i > j ? i : j;
      act.segment(m.joints[k].idx_q(), m.joints[k].nq()).setConstant(true);
      k = m.parents[k];
    }
    int changed;
    x = mix(r, act, q, p, changed);
    if (changed) s.nontrivial();
  }
  s.note() << "q = " << str(q) << "\nx = " << str(x) << "\n";
  if (!((M(x).toHomogeneousMatrix() - rel.toHomogeneousMatrix()).norm() < 1e-8)) throw std::logic_error("harness: relative pose not preserved");
  if (!zoo::stable(F, r, q)) discard();
  if (F.kind.compare(0, 11, "ConvexShape") == 0 && !F.regular(q)) discard();
  std::string df = zoo::differs(F, zoo::value(*F.f, x), zoo::value(*F.f, q), 1e-6);
  PBT_CHECK(df.empty(), F.kind + "-relpose",
            "joints " << (a ? a->index() : 0) << " and " << b->index() << " have the same relative pose at q and x\n" << df);
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C05";
  p.rule = "some coordinate not involved is changed";
  p.facets.push_back({"inactive", 10, [](Src& s) {
                        auto r = robot(s);
                        switch (s.weighted({10, 3, 2})) {
                          case 0: inactive(s, r, zoo::any(s, r)); break;
                          case 1: inactive(s, r, setOf(s, r)); break;
                          default: inactive(s, r, lockedOf(s, r));
                        }
                      }});
  p.facets.push_back({"relativePose", 6, [](Src& s) {
                        RobotOpts o;
                        o.freeflyers = (int)s.range(0, 1);
                        auto r = robot(s, o);
                        zoo::Fun F = s.chance(2, 3) ? zoo::pose(s, r) : zoo::contact(s, r, (int)s.range(0, 2));
                        if (s.coin())
                          relPose(s, r, F, F.f->dependsOnRelPoseBetween(r));
                        else {
                          // through the constraint
                          long n = F.f->outputSpace()->nv();
                          ImplicitPtr_t c = Implicit::create(F.f, ComparisonTypes_t((std::size_t)n, Equality),
                                                             s.coin() ? std::vector<bool>((std::size_t)n, true) : mask(s, (std::size_t)n));
                          auto jj = c->doesConstrainRelPoseBetween(r);
                          // fully constrained: the value determines the relative pose
                          if (jj.first || jj.second) {
                            PBT_CHECK(n == 6, F.kind + "-full", F.desc << " does not fully constrain a relative pose");
                            s.label("constraint");
                          }
                          relPose(s, r, F, jj);
                        }
                      }});
  p.facets.push_back({"explicitRelativePose", 3, [](Src& s) {
                        RobotOpts o;
                        o.freeflyers = 1;
                        auto r = robot(s, o);
                        // free-flyer added last: the last joint
                        JointPtr_t j2 = hpp::pinocchio::Joint::create(r, (JointIndex)r->model().joints.size() - 1), j1 = joint(s, r, true);
                        if (j1 && j1->index() == j2->index()) discard();
                        std::vector<bool> m(6, true);
                        auto c = explicit_::RelativePose::create("f", r, j1, j2, transform(s), transform(s), 6 * Equality, m);
                        zoo::Fun F;
                        F.kind = "explicit-RelativePose";
                        F.desc = "explicit relative pose of joint " + std::to_string(j2->index()) + " in " + std::to_string(j1 ? j1->index() : 0);
                        F.f = c->functionPtr();
                        F.rvecAt = F.f->outputSpace()->nq() == 6 ? 3 : -1;
                        F.quatAt = F.f->outputSpace()->nq() == 7 ? 3 : -1;
                        if (s.coin()) {
                          inactive(s, r, F);
                        } else {
                          auto jj = c->doesConstrainRelPoseBetween(r);
                          PBT_CHECK(jj.second && jj.second->index() == std::max(j2->index(), j1 ? j1->index() : 0) &&
                                        (jj.first ? jj.first->index() : 0) == std::min(j2->index(), j1 ? j1->index() : 0),
                                    "explicit-joints", F.desc << " announces other joints");
                          relPose(s, r, F, jj);
                        }
                      }});
  p.facets.push_back({"lockedJoint", 2, [](Src& s) {
                        auto r = robot(s);
                        JointPtr_t j = joint(s, r, false);
                        Configuration_t q = config(s, r);
                        auto L = LockedJoint::create(
                            j, LiegroupElement(q.segment(j->rankInConfiguration(), j->configSize()), j->configurationSpace()));
                        zoo::Fun F;
                        F.kind = "LockedJoint";
                        F.desc = "locked joint " + std::to_string(j->index());
                        F.f = L->functionPtr();
                        auto jj = L->doesConstrainRelPoseBetween(r);
                        PBT_CHECK(jj.second && jj.second->index() == j->index() &&
                                      (jj.first ? jj.first->index() : 0) == r->model().parents[j->index()],
                                  "locked-joints", F.desc << " announces other joints");
                        relPose(s, r, F, jj);
                      }});
  p.quick = 40000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
