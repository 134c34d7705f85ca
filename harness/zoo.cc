#include "zoo.hh"

#include <Eigen/Dense>
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <coal/distance.h>
#include <coal/shape/geometric_shapes.h>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/manipulability.hh>
#include <hpp/constraints/qp-static-stability.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/static-stability.hh>
#include <hpp/pinocchio/body.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/collision-object.hh>
#include <pinocchio/multibody/geometry.hpp>

namespace zoo {

vector_t value(const DifferentiableFunction& f, vectorIn_t q) {
  LiegroupElement y(f.outputSpace());
  y.vector().setConstant(77.);  // garbage
  f.value(y, q);
  return y.vector();
}

std::string differs(const Fun& f, vectorIn_t v, vectorIn_t ref, double tol) {
  std::ostringstream o;
  o.precision(12);
  if (v.size() != ref.size()) {
    o << f.desc << "\nvalue has size " << v.size() << ", expected " << ref.size();
    return o.str();
  }
  vector_t a(v), b(ref);
  if (f.quatAt >= 0) {
    if (std::abs(a.segment<4>(f.quatAt).norm() - 1) > 1e-9) {
      o << f.desc << "\nquaternion of norm " << a.segment<4>(f.quatAt).norm();
      return o.str();
    }
    if (a.segment<4>(f.quatAt).dot(b.segment<4>(f.quatAt)) < 0) b.segment<4>(f.quatAt) *= -1;
  }
  if (f.rvecAt >= 0 && b.segment<3>(f.rvecAt).norm() > M_PI - 1e-2) {
    // accuracy near pi is decided by C14; both signs are right at pi
    vector3_t x = a.segment<3>(f.rvecAt), y = b.segment<3>(f.rvecAt);
    if ((expR(x) - expR(y)).norm() > 1e-6 || x.norm() > M_PI + 1e-6) {
      o << f.desc << "\nvalue " << str(v) << "\nexpected " << str(ref);
      return o.str();
    }
    a.segment<3>(f.rvecAt).setZero();
    b.segment<3>(f.rvecAt).setZero();
  }
  for (long i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i])))) {
      o << f.desc << "\nvalue    " << str(v) << "\nexpected " << str(ref) << "\n(coordinate " << i << ")";
      return o.str();
    }
  return "";
}

bool stable(const Fun& f, const DevicePtr_t& r, vectorIn_t q) {
  LiegroupSpacePtr_t sp = r->configSpace();
  vector_t v = value(*f.f, q);
  for (int k = 0; k < 8; ++k) {
    LiegroupElement x(q, sp);
    vector_t e(sp->nv());
    for (long i = 0; i < e.size(); ++i) e[i] = (double)((k * 7 + i * 3) % 5 - 2) * 1e-9;
    x += e;
    if (!differs(f, value(*f.f, x.vector()), v, 1e-5).empty()) return false;
  }
  return true;
}

ComPool* comPool = nullptr;
static std::string name(const JointConstPtr_t& j) { return j ? std::to_string(j->index()) : std::string("world"); }
static vector3_t v3(Src& s, double a = .5) { return vector3_t(s.real(-a, a), s.real(-a, a), s.real(-a, a)); }

template <class G>
static Fun makePose(Src& s, const DevicePtr_t& r, const char* kind) {
  const bool rel = G::IsRelative, pos = G::ComputePosition, ori = G::ComputeOrientation, lie = G::OutputR3xSO3;
  Fun F;
  F.kind = kind;
  std::vector<bool> m = mask(s, (std::size_t)G::DerSize);
  if (lie)
    for (int i = pos ? 3 : 0; i < (pos ? 6 : 3); ++i) m[i] = true;
  JointConstPtr_t j2 = joint(s, r, false), j1;
  if (rel) {
    j1 = joint(s, r, true);
    if (j1 && s.chance(1, 8)) j2.reset();
    if (j1 && j2 && j1->index() == j2->index() && s.chance(3, 4)) j1.reset();
  }
  Transform3s F1(transform(s)), F2(transform(s));
  typename G::Ptr_t f;
  std::size_t how = s.weighted({3, 2, 2});
  std::string hows;
  if (how == 0) {
    f = rel ? G::create("f", r, j1, j2, F1, F2, m) : G::create("f", r, j2, F2, F1, m);
    hows = "frames";
  } else if (how == 1) {
    F2 = Transform3s::Identity();
    f = rel ? G::create("f", r, j1, j2, F1, m) : G::create("f", r, j2, F1, m);
    hows = "reference";
  } else {
    // set everything after construction
    JointConstPtr_t o = joint(s, r, false);
    Transform3s a(transform(s)), b(transform(s));
    f = rel ? G::create("f", r, joint(s, r, true), o, a, b, m) : G::create("f", r, o, a, b, m);
    hows = "setters";
    bool ref = s.chance(1, 3);
    if (s.coin()) {
      f->joint2(j2);
      if (rel) f->joint1(j1);
    } else {
      if (rel) f->joint1(j1);
      f->joint2(j2);
    }
    if (ref) {
      F2 = Transform3s::Identity();
      f->reference(F1);
    } else {
      f->frame1InJoint1(F1);
      f->frame2InJoint2(F2);
    }
  }
  F.f = f;
  F.accessors = [=]() -> std::string {
    auto same = [](const JointConstPtr_t& a, const JointConstPtr_t& b) {
      return (a ? a->index() : 0) == (b ? b->index() : 0);
    };
    auto eq = [](const Transform3s& a, const Transform3s& b) {
      return (a.toHomogeneousMatrix() - b.toHomogeneousMatrix()).norm() < 1e-9;
    };
    if (!same(f->joint1(), j1) || !same(f->joint2(), j2)) return "joints";
    if (!eq(f->frame1InJoint1(), F1) || !eq(f->frame2InJoint2(), F2)) return "frames";
    // relative pose of the joints when the frames coincide
    Transform3s ref = f->reference();
    if (!eq(ref, F1 * F2.inverse())) return "reference " + str(ref) + " instead of " + str(Transform3s(F1 * F2.inverse()));
    return std::string();
  };
  F.j1 = j1;
  F.j2 = j2;
  F.thread = F.serial = true;
  F.desc = std::string(kind) + " joint1 " + name(j1) + " joint2 " + name(j2) + " frame1 " + str(F1) + " frame2 " + str(F2) +
           " mask " + str(m) + " (" + hows + ")";
  int n = 0;
  if (pos)
    for (int i = 0; i < 3; ++i) n += m[i];
  int o0 = pos ? 3 : 0;
  if (ori && lie) F.quatAt = n;
  if (ori && !lie && m[o0] && m[o0 + 1] && m[o0 + 2]) F.rvecAt = n;
  F.ref = [=](vectorIn_t q) {
    FK fk(r, q);
    Transform3s M = (fk.M(j1) * F1).inverse() * (fk.M(j2) * F2);
    std::vector<double> v;
    if (pos)
      for (int i = 0; i < 3; ++i)
        if (m[i]) v.push_back(M.translation()[i]);
    if (ori) {
      if (lie) {
        Eigen::Vector4d u = quat(M.rotation());
        for (int i = 0; i < 4; ++i) v.push_back(u[i]);
      } else {
        vector3_t w = logR(M.rotation());
        for (int i = 0; i < 3; ++i)
          if (m[o0 + i]) v.push_back(w[i]);
      }
    }
    return vector_t(Eigen::Map<vector_t>(v.data(), (long)v.size()));
  };
  if (ori && !lie) F.regular = [=](vectorIn_t q) {
    FK fk(r, q);
    return logR(((fk.M(j1) * F1).inverse() * (fk.M(j2) * F2)).rotation()).norm() < M_PI - 2e-2;
  };
  return F;
}

Fun pose(Src& s, const DevicePtr_t& r, int k) {
  if (k < 0) k = (int)s.raw(10);
  switch (k) {
    case 0: return makePose<Position>(s, r, "Position");
    case 1: return makePose<Orientation>(s, r, "Orientation");
    case 2: return makePose<Transformation>(s, r, "Transformation");
    case 3: return makePose<RelativePosition>(s, r, "RelativePosition");
    case 4: return makePose<RelativeOrientation>(s, r, "RelativeOrientation");
    case 5: return makePose<RelativeTransformation>(s, r, "RelativeTransformation");
    case 6: return makePose<TransformationR3xSO3>(s, r, "TransformationR3xSO3");
    case 7: return makePose<RelativeTransformationR3xSO3>(s, r, "RelativeTransformationR3xSO3");
    case 8: return makePose<OrientationSO3>(s, r, "OrientationSO3");
    default: return makePose<RelativeOrientationSO3>(s, r, "RelativeOrientationSO3");
  }
}

static vector_t select(const std::vector<double>& v, const std::vector<bool>& m) {
  std::vector<double> w;
  for (std::size_t i = 0; i < m.size(); ++i)
    if (m[i]) w.push_back(v[i]);
  return Eigen::Map<vector_t>(w.data(), (long)w.size());
}

// hpp-pinocchio (not under test) only sums the bodies up to the last child of
// a root: keep to the roots for which this is the whole subtree
static bool comRoot(const DevicePtr_t& r, JointIndex i) {
  const auto& m = r->model();
  if (m.children[i].empty()) return false;
  JointIndex last = i;
  for (JointIndex k = i + 1; k < (JointIndex)m.joints.size(); ++k)
    for (JointIndex a = k; a >= i; a = m.parents[a])
      if (a == i) {
        last = k;
        break;
      }
  return last == m.children[i].back();
}
static JointPtr_t comJoint(Src& s, const DevicePtr_t& r) {
  std::vector<JointIndex> c;
  for (JointIndex i = 1; i < (JointIndex)r->model().joints.size(); ++i)
    if (comRoot(r, i)) c.push_back(i);
  if (c.empty()) pbt::discard();
  return hpp::pinocchio::Joint::create(r, s.pick(c));
}
// centre of mass computation of the whole robot or of some subtree
CenterOfMassComputationPtr_t comc(Src& s, const DevicePtr_t& r, std::vector<JointIndex>& roots, std::string& d) {
  CenterOfMassComputationPtr_t c = CenterOfMassComputation::create(r);
  JointPtr_t j = comJoint(s, r);
  c->add(j);
  roots.assign(1, j->index());
  if (s.chance(1, 4)) {
    // a second, disjoint subtree
    JointPtr_t k = comJoint(s, r);
    const auto& m = r->model();
    auto below = [&](JointIndex a, JointIndex b) {
      for (; a > 0; a = m.parents[a])
        if (a == b) return true;
      return b == 0;
    };
    if (k->index() > j->index() && !below(k->index(), j->index())) {
      c->add(k);
      roots.push_back(k->index());
    }
  }
  d += " com of";
  for (auto i : roots) d += " " + std::to_string(i);
  if (!(mass(r, roots) > 1e-3)) pbt::discard();
  if (comPool) {
    for (auto& x : *comPool)
      if (x.first == roots) return x.second;
    comPool->push_back(std::make_pair(roots, c));
  }
  return c;
}

Fun relativeCom(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "RelativeCom";
  F.serial = F.thread = true;
  std::vector<bool> m = mask(s, 3);
  vector3_t ref = v3(s);
  JointPtr_t j = joint(s, r, false);
  std::vector<JointIndex> roots;
  std::string d;
  if (comRoot(r, r->rootJoint()->index()) && s.coin()) {
    F.f = RelativeCom::create("f", r, j, ref, m);
    roots.assign(1, r->rootJoint()->index());
    if (!(mass(r, roots) > 1e-3)) pbt::discard();
    d = " com of root";
  } else
    F.f = RelativeCom::create("f", r, comc(s, r, roots, d), j, ref, m);
  F.desc = "RelativeCom joint " + name(j) + d + " reference " + str(vector_t(ref)) + " mask " + str(m);
  F.j1 = j;
  F.ref = [=](vectorIn_t q) {
    FK fk(r, q);
    vector3_t x = fk.M(j).actInv(com(r, fk, roots)) - ref;
    return select({x[0], x[1], x[2]}, m);
  };
  return F;
}

Fun comBetweenFeet(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "ComBetweenFeet";
  std::vector<bool> m = mask(s, 4);
  JointPtr_t jl = joint(s, r, false), jr = joint(s, r, false), jref = joint(s, r, false);
  vector3_t pl = v3(s), pr = v3(s), pref = v3(s);
  std::vector<JointIndex> roots;
  std::string d;
  if (comRoot(r, r->rootJoint()->index()) && s.coin()) {
    F.f = ComBetweenFeet::create("f", r, jl, jr, pl, pr, jref, pref, m);
    roots.assign(1, r->rootJoint()->index());
    if (!(mass(r, roots) > 1e-3)) pbt::discard();
  } else {
    CenterOfMassComputationPtr_t c = comc(s, r, roots, d);
    F.f = ComBetweenFeet::create("f", r, c, jl, jr, pl, pr, jref, pref, m);
  }
  F.desc = "ComBetweenFeet joints " + name(jl) + " " + name(jr) + " ref " + name(jref) + d + " points " + str(vector_t(pl)) +
           str(vector_t(pr)) + str(vector_t(pref)) + " mask " + str(m);
  F.ref = [=](vectorIn_t q) {
    FK fk(r, q);
    vector3_t c = com(r, fk, roots), L = fk.M(jl).act(pl), R = fk.M(jr).act(pr), u = R - L, e = c - .5 * (L + R);
    vector3_t ec = fk.M(jref).rotation().transpose() * vector3_t(e.cross(u));
    return select({c[2] - pref[2], ec[2], (c - L).dot(u), (c - R).dot(u)}, m);
  };
  return F;
}

Fun configuration(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "ConfigurationConstraint";
  Configuration_t goal = config(s, r);
  long nv = r->numberDof();
  vector_t w(vector_t::Ones(nv));
  std::ostringstream d;
  if (s.coin()) {
    std::vector<bool> m;
    if (s.chance(2, 3)) m = mask(s, (std::size_t)nv, true);
    for (std::size_t i = 0; i < m.size(); ++i)
      if (!m[i]) w[(long)i] = 0;
    F.f = ConfigurationConstraint::create("f", r, goal, m);
    d << " mask " << str(m);
  } else {
    for (long i = 0; i < nv; ++i) w[i] = s.chance(1, 4) ? 0 : s.real(.1, 3);
    F.f = ConfigurationConstraint::create("f", r, goal, w);
    d << " weights " << str(w);
  }
  F.desc = "ConfigurationConstraint goal " + str(goal) + d.str();
  F.ref = [=](vectorIn_t q) {
    LiegroupSpacePtr_t sp = r->configSpace();
    LiegroupElement g(goal, sp), x(q, sp);
    vector_t e = g - x;
    return vector_t(vector_t::Constant(1, .5 * (w.array() * e.array().square()).sum()));
  };
  return F;
}

Fun distancePoints(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "DistanceBetweenPointsInBodies";
  JointPtr_t j1 = joint(s, r, false), j2;
  vector3_t p1 = v3(s), p2 = v3(s, 1);
  if (s.chance(2, 3)) {
    j2 = joint(s, r, false);
    F.f = DistanceBetweenPointsInBodies::create("f", r, j1, j2, p1, p2);
  } else
    F.f = DistanceBetweenPointsInBodies::create("f", r, j1, p1, p2);
  F.desc = "DistanceBetweenPointsInBodies " + name(j1) + str(vector_t(p1)) + " " + name(j2) + str(vector_t(p2));
  F.j1 = j1;
  F.j2 = j2;
  auto d = [=](vectorIn_t q) {
    FK fk(r, q);
    return (fk.M(j1).act(p1) - fk.M(j2).act(p2)).norm();
  };
  F.ref = [=](vectorIn_t q) { return vector_t(vector_t::Constant(1, d(q))); };
  F.regular = [=](vectorIn_t q) { return d(q) > 1e-2; };
  return F;
}

// distance between bodies made of spheres and boxes, computed on our own
// placements of the shapes
Fun distanceBodies(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "DistanceBetweenBodies";
  const auto& gm = r->geomModel();
  JointPtr_t j1 = joint(s, r, false), j2;
  auto body = [](const JointPtr_t& j) {
    std::vector<hpp::pinocchio::CollisionObjectPtr_t> v;
    auto b = j->linkedBody();
    for (long i = 0; b && i < (long)b->nbInnerObjects(); ++i) v.push_back(std::const_pointer_cast<hpp::pinocchio::CollisionObject>(hpp::pinocchio::CollisionObjectConstPtr_t(b->innerObjectAt(i))));
    return v;
  };
  auto a = body(j1), b = a;
  b.clear();
  bool fixed = s.chance(1, 3);
  if (fixed) {
    for (std::size_t i = 0; i < gm.geometryObjects.size(); ++i)
      if (gm.geometryObjects[i].parentJoint == 0 && s.chance(3, 4)) b.push_back(std::make_shared<hpp::pinocchio::CollisionObject>(r, i));
  } else {
    j2 = joint(s, r, false);
    b = body(j2);
  }
  if (a.empty() || b.empty() || (j2 && j2->index() == j1->index())) pbt::discard();
  std::vector<std::pair<std::size_t, std::size_t>> pairs;
  for (auto& x : a)
    for (auto& y : b) pairs.emplace_back(x->indexInModel(), y->indexInModel());
  F.jacTol = 1e-4;
  for (auto& p : pairs)
    if (dynamic_cast<const coal::Box*>(gm.geometryObjects[p.first].geometry.get()) &&
        dynamic_cast<const coal::Box*>(gm.geometryObjects[p.second].geometry.get()))
      F.jacTol = 2e-2;
  F.desc = "DistanceBetweenBodies " + name(j1) + " " + name(j2) + (fixed ? " fixed objects" : "") + " pairs";
  for (auto& p : pairs) F.desc += " " + std::to_string(p.first) + "-" + std::to_string(p.second);
  try {
    if (fixed)
      F.f = DistanceBetweenBodies::create("f", r, j1, b);
    else
      F.f = DistanceBetweenBodies::create("f", r, j1, j2);
  } catch (const std::invalid_argument&) {
    // pairs of bodies that are not checked for collisions
    bool all = true;
    for (auto& p : pairs)
      if (gm.findCollisionPair(::pinocchio::CollisionPair(p.first, p.second)) >= gm.collisionPairs.size()) all = false;
    PBT_CHECK(!all, "pairs-refused", F.desc);
    pbt::discard();
  }
  F.j1 = j1;
  F.j2 = j2;
  auto dist = [=](vectorIn_t q, double& next) {
    FK fk(r, q);
    const auto& m = r->geomModel();
    double best = next = std::numeric_limits<double>::infinity();
    for (auto& p : pairs) {
      const auto &x = m.geometryObjects[p.first], &y = m.geometryObjects[p.second];
      auto place = [&](const ::pinocchio::GeometryObject& o) {
        return o.parentJoint ? fk.M((std::size_t)o.parentJoint) * o.placement : o.placement;
      };
      Transform3s X = place(x), Y = place(y);
      const coal::Sphere *sx = dynamic_cast<const coal::Sphere*>(x.geometry.get()), *sy = dynamic_cast<const coal::Sphere*>(y.geometry.get());
      const coal::Box *bx = dynamic_cast<const coal::Box*>(x.geometry.get()), *by = dynamic_cast<const coal::Box*>(y.geometry.get());
      double d;
      if (sx && sy)
        d = (X.translation() - Y.translation()).norm() - sx->radius - sy->radius;
      else if ((sx && by) || (bx && sy)) {
        vector3_t c = sx ? Y.actInv(X.translation()) : X.actInv(Y.translation());
        vector3_t h = sx ? by->halfSide : bx->halfSide;
        d = (c - c.cwiseMax(-h).cwiseMin(h)).norm() - (sx ? sx->radius : sy->radius);
      } else {
        coal::DistanceRequest req(true);
        coal::DistanceResult res;
        d = coal::distance(x.geometry.get(), coal::Transform3s(X.rotation(), X.translation()), y.geometry.get(),
                           coal::Transform3s(Y.rotation(), Y.translation()), req, res);
      }
      if (d < best) {
        next = best;
        best = d;
      } else
        next = std::min(next, d);
    }
    return best;
  };
  F.ref = [=](vectorIn_t q) {
    double n;
    return vector_t(vector_t::Constant(1, dist(q, n)));
  };
  F.regular = [=](vectorIn_t q) {
    double n, d = dist(q, n);
    return d > 2e-2 && n > d + 1e-2;
  };
  return F;
}

Fun manipulability(Src& s, const DevicePtr_t& r) {
  Fun g = s.coin() ? pose(s, r) : relativeCom(s, r), F;
  // documented precondition (assertion): some active column
  if (!g.f->activeDerivativeParameters().any()) pbt::discard();
  F.kind = "Manipulability";
  F.f = Manipulability::create(g.f, r, "f");
  F.desc = "Manipulability of " + g.desc;
  DifferentiableFunctionPtr_t f = g.f;
  auto sum = [=](vectorIn_t q, double& smallest) {
    matrix_t J = jacobian(*f, q);
    ArrayXb a = f->activeDerivativeParameters();
    for (long j = 0; j < J.cols(); ++j)
      if (!a[j]) J.col(j).setZero();
    // product of the min(rows, active columns) singular values
    long n = a.count();
    Eigen::SelfAdjointEigenSolver<matrix_t> es(J.rows() <= n ? matrix_t(J * J.transpose()) : matrix_t(J.transpose() * J));
    vector_t ev = es.eigenvalues();
    long k = std::min((long)J.rows(), n), N = ev.size();
    double l = 0;
    smallest = 1e9;
    for (long i = 0; i < k; ++i) {
      double x = std::sqrt(std::max(0., ev[N - 1 - i]));
      smallest = std::min(smallest, x);
      l += std::log10(x);
    }
    return l;
  };
  F.regular = [=](vectorIn_t q) {
    double m, x = sum(q, m);
    return m > 1e-3 && x < -1e-3 && (!g.regular || g.regular(q));
  };
  F.ref = [=](vectorIn_t q) {
    double m, x = sum(q, m);
    // no closed form to compare with close to a singularity
    if (!(m > 1e-4)) pbt::discard();
    return vector_t(vector_t::Constant(1, std::max(-x, 0.)));
  };
  return F;
}

static StaticStability::Contacts_t contacts(Src& s, const DevicePtr_t& r, std::string& d) {
  StaticStability::Contacts_t cs;
  long n = s.range(1, 8);
  JointPtr_t j = joint(s, r, false);
  bool planar = s.coin();  // parallel normals, points in a plane
  matrix3_t R = rotation(s);
  for (long i = 0; i < n; ++i) {
    StaticStability::Contact_t c;
    if (!planar && s.coin()) j = joint(s, r, false);
    c.joint = j;
    if (planar) {
      c.point = R * vector3_t(s.real(-1, 1), s.real(-1, 1), -.3);
      c.normal = R.col(2);
    } else {
      c.point = v3(s, 1);
      vector3_t v = v3(s, 1) + vector3_t(0, 0, 1.5);
      c.normal = v / v.norm();
    }
    d += " " + name(c.joint) + str(vector_t(c.point)) + str(vector_t(c.normal));
    cs.push_back(c);
  }
  return cs;
}
Fun staticStability(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "StaticStability";
  std::vector<JointIndex> roots;
  std::string d;
  CenterOfMassComputationPtr_t c = comc(s, r, roots, d);
  F.f = StaticStability::create("f", r, contacts(s, r, d), c);
  F.desc = "StaticStability" + d;
  return F;
}
Fun qpStaticStability(Src& s, const DevicePtr_t& r) {
  Fun F;
  F.kind = "QPStaticStability";
  std::vector<JointIndex> roots;
  std::string d;
  CenterOfMassComputationPtr_t c = comc(s, r, roots, d);
  F.f = QPStaticStability::create("f", r, contacts(s, r, d), c);
  F.desc = "QPStaticStability" + d;
  return F;
}

std::vector<vector3_t> polygon(Src& s, double size) {
  long n = s.range(3, 6);
  matrix3_t R = rotation(s);
  vector3_t t = v3(s, .5);
  double a = s.real(.3, 1) * size, b = s.real(.3, 1) * size, ph = s.real(0, 6.28);
  std::vector<vector3_t> p;
  for (long i = 0; i < n; ++i) {
    double th = ph + 2 * M_PI * ((double)i + s.real(-.3, .3)) / (double)n;
    p.push_back(R * vector3_t(0, a * std::cos(th), b * std::sin(th)) + t);
  }
  return p;
}

Fun contact(Src& s, const DevicePtr_t& r, int which) {
  Fun F;
  JointAndShapes_t fl, ob;
  std::string d;
  long nf = s.range(1, 3), no = s.range(1, 3);
  bool sameF = s.coin(), sameO = s.coin();
  JointPtr_t jf = joint(s, r, true), jo = joint(s, r, false);
  double size = s.coin() ? 3. : .5;
  for (long i = 0; i < nf; ++i) {
    if (!sameF && i) jf = joint(s, r, true);
    fl.push_back(JointAndShape_t(jf, polygon(s, size)));
    d += " floor " + name(jf);
    for (auto& p : fl.back().second) d += str(vector_t(p));
  }
  for (long i = 0; i < no; ++i) {
    if (!sameO && i) jo = joint(s, r, false);
    ob.push_back(JointAndShape_t(jo, polygon(s, .3)));
    d += " object " + name(jo);
    for (auto& p : ob.back().second) d += str(vector_t(p));
  }
  if (which == 0) {
    auto f = ConvexShapeContact::create("f", r, fl, ob);
    if (s.coin()) {
      double m = s.real(0, .2);
      f->setNormalMargin(m);
      d += " margin " + std::to_string(m);
    }
    F.f = f;
    F.kind = "ConvexShapeContact";
  } else if (which == 1) {
    F.f = ConvexShapeContactComplement::createPair("f", r, fl, ob).second;
    F.kind = "ConvexShapeContactComplement";
  } else {
    F.f = ConvexShapeContactHold::create("f", r, fl, ob);
    F.kind = "ConvexShapeContactHold";
  }
  F.desc = F.kind + d;
  // the orientation is the logarithm of the relative orientation of the shapes
  std::vector<ConvexShape> cf, co;
  for (auto& x : fl) {
    cf.push_back(ConvexShape(x.second, x.first));
    cf.back().reverse();
  }
  for (auto& x : ob) co.push_back(ConvexShape(x.second, x.first));
  F.regular = [=](vectorIn_t q) {
    FK fk(r, q);
    for (auto& a : cf)
      for (auto& b : co)
        if (logR((fk.M(a.joint_) * a.positionInJoint()).rotation().transpose() *
                 (fk.M(b.joint_) * b.positionInJoint()).rotation())
                .norm() > M_PI - 2e-2)
          return false;
    return true;
  };
  return F;
}

Fun simple(Src& s, const DevicePtr_t& r) {
  switch (s.weighted({10, 3, 3, 2, 2})) {
    case 0: return pose(s, r);
    case 1: return relativeCom(s, r);
    case 2: return comBetweenFeet(s, r);
    case 3: return configuration(s, r);
    default: return distancePoints(s, r);
  }
}
Fun any(Src& s, const DevicePtr_t& r) {
  switch (s.weighted({14, 1, 2, 2, 2, 1, 1})) {
    case 0: return simple(s, r);
    case 1: return manipulability(s, r);
    case 2: return contact(s, r, 0);
    case 3: return contact(s, r, 1);
    case 4: return contact(s, r, 2);
    case 5: return staticStability(s, r);
    default: return qpStaticStability(s, r);
  }
}
}  // namespace zoo
