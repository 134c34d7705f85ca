// C06: evaluations depend on their argument only, whatever the history of
// evaluations on the same device and the concurrent evaluations.
#include <atomic>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <thread>

#include "zoo.hh"
using namespace pbt;
using namespace gen;

// a few composed functions
static zoo::Fun composed(Src& s, const DevicePtr_t& r) {
  zoo::Fun F, g = zoo::simple(s, r);
  switch (s.raw(5)) {
    case 0: {
      auto fs = DifferentiableFunctionSet::create("set");
      zoo::Fun h = zoo::simple(s, r);
      fs->add(g.f);
      fs->add(h.f);
      F.f = fs;
      F.kind = "DifferentiableFunctionSet";
      F.desc = "set of " + g.desc + " and " + h.desc;
      F.thread = g.thread && h.thread;
      break;
    }
    case 1: {
      JointPtr_t a = joint(s, r, false), b = joint(s, r, false);
      auto e = PointInJoint::create(a, vec(s, 3, 1)) - PointInJoint::create(b, vec(s, 3, 1));
      typedef hpp::constraints::Difference<PointInJoint, PointInJoint> E;
      F.f = SymbolicFunction<E>::create("sym", r, e);
      F.kind = "SymbolicFunction";
      F.desc = "points in joints " + std::to_string(a->index()) + " and " + std::to_string(b->index());
      break;
    }
    case 2: {
      JointPtr_t a = joint(s, r, false);
      auto L = LockedJoint::create(a, LiegroupElement(r->neutralConfiguration().segment(a->rankInConfiguration(), a->configSize()),
                                                      a->configurationSpace()));
      F.f = L->functionPtr();
      F.kind = "LockedJoint";
      F.desc = "locked joint " + std::to_string(a->index());
      break;
    }
    case 3: {
      // explicit relative pose of a free-flyer rooted in the world
      JointPtr_t j2;
      for (JointIndex i = 1; i < (JointIndex)r->model().joints.size(); ++i)
        if (r->model().joints[i].nq() == 7 && r->model().parents[i] == 0) j2 = hpp::pinocchio::Joint::create(r, i);
      if (!j2) discard();
      JointPtr_t j1 = joint(s, r, true);
      for (JointIndex i = j1 ? j1->index() : 0; i > 0; i = r->model().parents[i])
        if (i == j2->index()) discard();
      auto c = explicit_::RelativePose::create("f", r, j1, j2, transform(s), transform(s), 6 * EqualToZero);
      F.f = c->functionPtr();
      F.kind = "explicit-RelativePose";
      F.desc = "explicit relative pose of " + std::to_string(j2->index());
      break;
    }
    default:
      F.f = function::OfParameterSubset::create(g.f, r->configSize(), r->numberDof(), segment_t(0, r->configSize()),
                                                segment_t(0, r->numberDof()));
      F.kind = "OfParameterSubset";
      F.desc = "subset of " + g.desc;
      F.thread = g.thread;
  }
  return F;
}

static bool same(const matrix_t& a, const matrix_t& b, double tol = 1e-9) {
  for (long i = 0; i < a.rows(); ++i)
    for (long j = 0; j < a.cols(); ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= tol * (1 + std::abs(b(i, j)))) && !(std::isnan(a(i, j)) && std::isnan(b(i, j))) &&
          a(i, j) != b(i, j))
        return false;
  return true;
}

static void history(Src& s) {
  RobotOpts o;
  o.freeflyers = (int)s.range(0, 1);
  o.geometry = s.chance(1, 6);
  auto r = robot(s, o);
  s.note() << describe(r);
  r->numberDeviceData(s.range(1, 3));
  long nf = s.range(1, 4), nq = s.range(2, 4);
  std::vector<zoo::Fun> F;
  for (long i = 0; i < nf; ++i) {
    F.push_back(o.geometry && s.coin() ? zoo::distanceBodies(s, r) : s.chance(2, 3) ? zoo::any(s, r) : composed(s, r));
    s.label(F.back().kind);
    s.note() << i << ": " << F.back().desc << "\n";
  }
  std::vector<Configuration_t> Q;
  for (long i = 0; i < nq; ++i) {
    // configurations may be close to each other, or differ by one joint only
    Q.push_back(i && s.chance(1, 3) ? near(s, r, Q.back(), 1e-3) : config(s, r));
    if (i && s.chance(1, 3)) {
      Configuration_t q = Q[0];
      JointPtr_t j = joint(s, r, false);
      q.segment(j->rankInConfiguration(), j->configSize()) = Q.back().segment(j->rankInConfiguration(), j->configSize());
      Q.back() = q;
    }
    s.note() << "q" << i << " = " << str(Q.back()) << "\n";
  }
  // reference: device set to the configuration, positions and Jacobians computed
  std::vector<std::vector<vector_t>> V((std::size_t)nf);
  std::vector<std::vector<matrix_t>> J((std::size_t)nf);
  auto clean = [&](const Configuration_t& q) {
    r->currentConfiguration(q);
    r->computeForwardKinematics(hpp::pinocchio::COMPUTE_ALL);
  };
  std::vector<std::vector<bool>> regular((std::size_t)nf);
  for (std::size_t i = 0; i < F.size(); ++i)
    for (auto& q : Q) {
      clean(q);
      V[i].push_back(zoo::value(*F[i].f, q));
      clean(q);
      J[i].push_back(jacobian(*F[i].f, q));
      regular[i].push_back(!F[i].regular || F[i].regular(q));
    }
  long n = s.range(2, 20);
  int evals = 0;
  for (long k = 0; k < n; ++k) {
    std::size_t i = s.raw(F.size()), j = s.raw(Q.size());
    switch (s.weighted({4, 4, 2, 1, 1, 1, 1})) {
      case 0: {
        s.note() << "value " << i << " q" << j << "\n";
        vector_t v = zoo::value(*F[i].f, Q[j]);
        if (F[i].jacTol > 0 && !regular[i][j]) break;
        PBT_CHECK(same(v, V[i][j], F[i].jacTol > 0 ? 1e-4 : 1e-9), F[i].kind + "-value",
                  F[i].desc << "\nvalue " << str(v) << "\ninstead of " << str(V[i][j]) << " for q" << j);
        ++evals;
        break;
      }
      case 1: {
        s.note() << "jacobian " << i << " q" << j << "\n";
        matrix_t A = jacobian(*F[i].f, Q[j]);
        if (!regular[i][j]) break;
        PBT_CHECK(same(A, J[i][j], std::max(1e-9, F[i].jacTol)), F[i].kind + "-jacobian", F[i].desc << "\nJacobian\n" << A << "\ninstead of\n" << J[i][j] << "\nfor q" << j);
        ++evals;
        break;
      }
      case 2:
        s.note() << "device q" << j << "\n";
        r->currentConfiguration(Q[j]);
        break;
      case 3:
        s.note() << "device q" << j << " positions\n";
        r->currentConfiguration(Q[j]);
        r->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
        break;
      case 4:
        s.note() << "device q" << j << " all\n";
        clean(Q[j]);
        break;
      case 5: {
        s.note() << "dependence " << i << "\n";
        F[i].f->dependsOnRelPoseBetween(r);
        std::ostringstream o2;
        o2 << *F[i].f;
        break;
      }
      default: {
        // the caller's own storage is independent
        s.note() << "operator() " << i << " q" << j << "\n";
        LiegroupElement y = (*F[i].f)(Q[j]);
        std::size_t j2 = s.raw(Q.size());
        LiegroupElement z = (*F[i].f)(Q[j2]);
        if (F[i].jacTol > 0) break;
        PBT_CHECK(same(y.vector(), V[i][j]) && same(z.vector(), V[i][j2]), F[i].kind + "-operator", F[i].desc);
      }
    }
  }
  if (evals >= 2) s.nontrivial();
}

static void threads(Src& s) {
  RobotOpts o;
  o.freeflyers = (int)s.range(0, 1);
  auto r = robot(s, o);
  s.note() << describe(r);
  const int nt = 4;
  r->numberDeviceData(s.range(1, nt));
  long nf = s.range(1, 3);
  std::vector<zoo::Fun> F;
  for (long i = 0; i < nf; ++i) {
    switch (s.weighted({8, 2, 2, 2})) {
      case 0: F.push_back(zoo::pose(s, r)); break;
      case 1: F.push_back(zoo::relativeCom(s, r)); break;
      case 2: F.push_back(zoo::configuration(s, r)); break;
      default: F.push_back(zoo::contact(s, r, (int)s.range(0, 2)));
    }
    s.label(F.back().kind);
    s.note() << i << ": " << F.back().desc << "\n";
  }
  std::vector<Configuration_t> Q;
  for (long i = 0; i < 6; ++i) Q.push_back(config(s, r));
  std::vector<std::vector<vector_t>> V((std::size_t)nf);
  std::vector<std::vector<matrix_t>> J((std::size_t)nf);
  for (std::size_t i = 0; i < F.size(); ++i)
    for (auto& q : Q) {
      V[i].push_back(zoo::value(*F[i].f, q));
      J[i].push_back(jacobian(*F[i].f, q));
    }
  std::atomic<int> ready(0), bad(-1);
  auto work = [&](int t) {
    ++ready;
    while (ready < nt) std::this_thread::yield();
    for (int k = 0; k < 120 && bad < 0; ++k) {
      std::size_t i = (std::size_t)(k * 3 + t) % F.size(), j = (std::size_t)(k * 5 + t * 2) % Q.size();
      bool ok = (k + t) % 2 ? same(zoo::value(*F[i].f, Q[j]), V[i][j]) : same(jacobian(*F[i].f, Q[j]), J[i][j]);
      if (!ok) bad = (int)i;
    }
  };
  std::vector<std::thread> T;
  for (int t = 0; t < nt; ++t) T.emplace_back(work, t);
  for (auto& t : T) t.join();
  PBT_CHECK(bad < 0, F[(std::size_t)bad].kind + "-threads",
            F[(std::size_t)bad].desc << "\ngives another result when evaluated by several threads");
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C06";
  p.rule = "history: at least two evaluations are compared; threads: always (4 threads evaluate at different configurations)";
  p.facets.push_back({"history", 6, history});
  p.facets.push_back({"threads", 1, threads, true});
  p.quick = 20000;
  p.thorough = 400000;
  return pbt::main(argc, argv, p);
}
