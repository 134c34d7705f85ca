// C03: symbolic calculus.
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <hpp/pinocchio/extra-config-space.hh>

#include "zoo.hh"
using namespace pbt;
using namespace gen;

namespace {
typedef std::function<vector_t(const FK&, vectorIn_t)> Ref;

struct Itf {
  virtual ~Itf() {}
  virtual vector_t value() const = 0;
  virtual matrix_t jacobian() const = 0;
  virtual matrix3_t cross() const = 0;
  virtual void computeValue(vectorIn_t q) = 0;
  virtual void computeJacobian(vectorIn_t q) = 0;
  virtual void computeCross(vectorIn_t q) = 0;
  virtual void invalidate() = 0;
};
template <class T, bool withCross>
struct Holder : Itf {
  std::shared_ptr<T> t;
  Holder(const std::shared_ptr<T>& t_) : t(t_) {}
  vector_t value() const { return t->value(); }
  matrix_t jacobian() const { return t->jacobian(); }
  matrix3_t cross() const { return t->cross(); }
  void computeValue(vectorIn_t q) { t->computeValue(q); }
  void computeJacobian(vectorIn_t q) { t->computeJacobian(q); }
  void computeCross(vectorIn_t q) {
    if constexpr (withCross) t->computeCrossValue(q);
  }
  void invalidate() { t->invalidate(); }
};
}  // namespace

namespace hpp {
namespace constraints {
// transparent, type-erased three dimensional expression
struct Dyn {
  std::shared_ptr<Itf> i;
  vector3_t value() const { return i->value(); }
  matrix_t jacobian() const { return i->jacobian(); }
  matrix3_t cross() const { return i->cross(); }
  void computeValue(vectorIn_t q) { i->computeValue(q); }
  void computeJacobian(vectorIn_t q) { i->computeJacobian(q); }
  void computeCrossValue(vectorIn_t q) { i->computeCross(q); }
  void invalidate() { i->invalidate(); }
};
// element of a matrix
struct Elt : public CalculusBase<Elt> {
  std::shared_ptr<Itf> i;
  Elt(const std::shared_ptr<Itf>& i_, long nv) : i(i_) { jacobian_.setZero(3, nv); }
  void impl_value(const ConfigurationIn_t q) {
    i->computeValue(q);
    value_ = i->value();
  }
  void impl_jacobian(const ConfigurationIn_t q) {
    i->computeJacobian(q);
    jacobian_ = i->jacobian();
  }
  void invalidate() {
    CalculusBase<Elt>::invalidate();
    i->invalidate();
  }
};
}  // namespace constraints
}  // namespace hpp

namespace {
typedef std::shared_ptr<Dyn> D;
struct Node {
  std::shared_ptr<Itf> i;
  long dim = 3;
  bool cross = true;
  Ref ref;
  std::string desc;
  int depth = 0;
  D dyn() const {
    D d(new Dyn);
    d->i = i;
    return d;
  }
};
template <bool C = true, class T>
std::shared_ptr<Itf> hold(const std::shared_ptr<T>& t) {
  return std::shared_ptr<Itf>(new Holder<T, C>(t));
}
long nvOf(const DevicePtr_t& r) { return r->model().nv; }

Node leaf(Src& s, const DevicePtr_t& r) {
  Node n;
  vector3_t v = vec(s, 3, 1.5);
  if (s.chance(1, 6)) v.setZero();
  switch (s.weighted({4, 3, 2, 2, 1, 1})) {
    case 0: {
      JointPtr_t j = joint(s, r, false);
      if (s.coin())
        n.i = hold(PointInJoint::create(j, v));
      else
        n.i = hold(PointInJoint::create(j, v, nvOf(r)));
      n.ref = [j, v](const FK& fk, vectorIn_t) { return vector_t(fk.M(j).act(v)); };
      n.desc = "point(" + j->name() + str(vector_t(v)) + ")";
      break;
    }
    case 1: {
      JointPtr_t j = joint(s, r, false);
      if (s.coin())
        n.i = hold(VectorInJoint::create(j, v));
      else
        n.i = hold(VectorInJoint::create(j, v, nvOf(r)));
      n.ref = [j, v](const FK& fk, vectorIn_t) { return vector_t(fk.M(j).rotation() * v); };
      n.desc = "vector(" + j->name() + str(vector_t(v)) + ")";
      break;
    }
    case 2: {
      std::vector<JointIndex> roots;
      std::string d;
      auto c = zoo::comc(s, r, roots, d);
      n.i = hold(PointCom::create(c));
      n.ref = [r, roots](const FK& fk, vectorIn_t) { return vector_t(com(r, fk, roots)); };
      n.desc = "(" + d + ")";
      break;
    }
    case 3:
      n.i = hold(Point::create(v, (size_t)nvOf(r)));
      n.ref = [v](const FK&, vectorIn_t) { return vector_t(v); };
      n.desc = "constant" + str(vector_t(v));
      break;
    case 4:
      n.i = hold(PointInJoint::create(JointPtr_t(), v, nvOf(r)));
      n.ref = [v](const FK&, vectorIn_t) { return vector_t(v); };
      n.desc = "world point" + str(vector_t(v));
      break;
    default:
      n.i = hold(VectorInJoint::create(JointPtr_t(), v, nvOf(r)));
      n.ref = [v](const FK&, vectorIn_t) { return vector_t(v); };
      n.desc = "world vector" + str(vector_t(v));
  }
  return n;
}
Node op(Src& s, const DevicePtr_t& r, const std::vector<Node>& pool, const std::vector<std::size_t>& ok) {
  std::size_t ia = s.pick(ok), ib = s.pick(ok);
  const Node &a = pool[ia], &b = pool[ib];
  Ref fa = a.ref, fb = b.ref;
  D x = a.dyn(), y = b.dyn();
  Node n;
  std::string A = "#" + std::to_string(ia), B = "#" + std::to_string(ib);
  n.depth = std::max(a.depth, b.depth) + 1;
  switch (s.weighted({3, 3, 3, 2, 2, 2, 2})) {
    case 0:
      n.i = hold(Sum<Dyn, Dyn>::create(x, y));
      n.ref = [fa, fb](const FK& k, vectorIn_t q) { return vector_t(fa(k, q) + fb(k, q)); };
      n.desc = A + " + " + B;
      break;
    case 1:
      n.i = hold(Difference<Dyn, Dyn>::create(x, y));
      n.ref = [fa, fb](const FK& k, vectorIn_t q) { return vector_t(fa(k, q) - fb(k, q)); };
      n.desc = A + " - " + B;
      break;
    case 2:
      n.i = hold(CrossProduct<Dyn, Dyn>::create(x, y));
      n.ref = [fa, fb](const FK& k, vectorIn_t q) {
        vector3_t u = fa(k, q), v = fb(k, q);
        return vector_t(u.cross(v));
      };
      n.desc = A + " x " + B;
      break;
    case 3: {
      double l = s.real(-2, 2);
      n.i = hold(ScalarMultiply<Dyn>::create(l, x));
      n.ref = [fa, l](const FK& k, vectorIn_t q) { return vector_t(l * fa(k, q)); };
      n.desc = std::to_string(l) + " " + A;
      break;
    }
    case 4: {
      JointPtr_t j = joint(s, r, false);
      n.i = hold(RotationMultiply<Dyn>::create(j, x));
      n.ref = [fa, j](const FK& k, vectorIn_t q) { return vector_t(k.M(j).rotation() * fa(k, q)); };
      n.desc = "R(" + j->name() + ") " + A;
      break;
    }
    case 5: {
      JointPtr_t j = joint(s, r, false);
      n.i = hold(RotationMultiply<Dyn>::create(JointTranspose(j), x));
      n.ref = [fa, j](const FK& k, vectorIn_t q) { return vector_t(k.M(j).rotation().transpose() * fa(k, q)); };
      n.desc = "R(" + j->name() + ")^T " + A;
      break;
    }
    default:
      n.i = hold<false>(ScalarProduct<Dyn, Dyn>::create(x, y));
      n.ref = [fa, fb](const FK& k, vectorIn_t q) { return vector_t(vector_t::Constant(1, fa(k, q).dot(fb(k, q)))); };
      n.desc = A + " . " + B;
      n.dim = 1;
      n.cross = false;
  }
  return n;
}
std::vector<Node> pool(Src& s, const DevicePtr_t& r, long leaves, long ops) {
  std::vector<Node> p;
  std::vector<std::size_t> ok;
  for (long i = 0; i < leaves; ++i) {
    p.push_back(leaf(s, r));
    ok.push_back(p.size() - 1);
    s.note() << "#" << p.size() - 1 << " " << p.back().desc << "\n";
  }
  for (long i = 0; i < ops; ++i) {
    Node n = op(s, r, p, ok);
    p.push_back(n);
    if (n.dim == 3 && n.depth < 5) ok.push_back(p.size() - 1);
    s.note() << "#" << p.size() - 1 << " " << n.desc << "\n";
  }
  return p;
}
RobotOpts opts() {
  RobotOpts o;
  o.maxJoints = 4;
  return o;
}
void setState(const DevicePtr_t& r, const Configuration_t& q, bool jac) {
  r->currentConfiguration(q);
  if (jac)
    r->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN);
  else
    r->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
}
NumDiff num(const DevicePtr_t& r, const Ref& f, long dim, const Configuration_t& q) {
  return numdiff(r->configSpace(), LiegroupSpace::Rn(dim), [&](vectorIn_t x, LiegroupElement& y) {
    FK fk(r, x);
    y.vector() = f(fk, x);
  }, q);
}
bool same(const vector_t& a, const vector_t& b) {
  return a.size() == b.size() && (a - b).norm() <= 1e-9 * (1 + b.norm());
}
// history of requests on a pool of expressions sharing sub-expressions
void dag(Src& s) {
  DevicePtr_t r = robot(s, opts());
  s.note() << describe(r);
  std::vector<Node> p = pool(s, r, s.range(1, 4), s.range(1, 6));
  if (s.chance(1, 4)) {
    // position and rotation vector of a joint
    JointPtr_t j = joint(s, r, false);
    Node n;
    n.i = hold<false>(JointFrame::create(j));
    n.dim = 6;
    n.cross = false;
    n.ref = [j](const FK& fk, vectorIn_t) {
      vector_t v(6);
      v << fk.M(j).translation(), logR(fk.M(j).rotation());
      return v;
    };
    n.desc = "frame " + j->name();
    s.note() << "#" << p.size() << " " << n.desc << "\n";
    p.push_back(n);
  }
  std::vector<long> stamp(p.size(), -1);
  long states = s.range(1, 3);
  std::set<std::string> orders;
  for (long k = 0; k < states; ++k) {
    Configuration_t q = config(s, r);
    s.note() << "q " << str(q) << "\n";
    setState(r, q, true);
    FK fk(r, q);
    long reqs = s.range(2, 7);
    std::vector<std::size_t> seen;
    for (long a = 0; a < reqs; ++a) {
      // later nodes are more interesting
      std::size_t i = p.size() - 1 - (std::size_t)s.range(0, (long)p.size() - 1);
      Node& n = p[i];
      if (stamp[i] != k) {
        n.i->invalidate();
        stamp[i] = k;
      }
      int kind = (int)s.range(0, n.cross ? 2 : 1);
      s.note() << (kind == 0 ? "value #" : kind == 1 ? "jacobian #" : "cross #") << i << "\n";
      vector_t v = n.ref(fk, q);
      if (v.norm() > 1e4) discard();
      if (n.dim == 6 && v.tail(3).norm() > 3.1) discard();
      if (kind == 0) {
        n.i->computeValue(q);
        PBT_CHECK(same(n.i->value(), v), "value", n.desc << " #" << i << " is " << str(n.i->value()) << " instead of " << str(v));
        seen.push_back(i);
      } else if (kind == 2) {
        n.i->computeCross(q);
        matrix3_t X = skew(v);
        PBT_CHECK((n.i->cross() - X).norm() <= 1e-9 * (1 + v.norm()), "cross", n.desc << " #" << i << "\n" << n.i->cross() << "\ninstead of\n" << X);
        PBT_CHECK(same(n.i->value(), v), "cross-value", n.desc << " #" << i << " " << str(n.i->value()) << " instead of " << str(v));
      } else {
        n.i->computeJacobian(q);
        matrix_t J = n.i->jacobian();
        PBT_CHECK(J.rows() == n.dim && J.cols() == nvOf(r), "jacobian-size", n.desc << " " << J.rows() << "x" << J.cols());
        NumDiff nd = num(r, n.ref, n.dim, q);
        matrix_t full(matrix_t::Zero(n.dim, r->numberDof()));
        full.leftCols(nvOf(r)) = J;
        checkJacobian(full, nd, "jacobian", n.desc + " #" + std::to_string(i));
        if (n.depth >= 1 && nd.J.norm() > 1e-6) s.nontrivial();
      }
      // what was computed before is still there
      for (std::size_t j : seen) {
        vector_t w = p[j].ref(fk, q);
        PBT_CHECK(same(p[j].i->value(), w), "value-kept", p[j].desc << " #" << j << " is " << str(p[j].i->value()) << " instead of " << str(w)
                                                                  << " after a request on #" << i);
      }
    }
  }
}

// expressions written with operators on the classes of the library
template <class T>
Node wrap(const std::shared_ptr<T>& t, long dim, const Ref& ref, const std::string& d) {
  Node n;
  n.i = hold<false>(t);
  n.dim = dim;
  n.ref = ref;
  n.desc = d;
  return n;
}
void direct(Src& s) {
  DevicePtr_t r = robot(s, opts());
  s.note() << describe(r);
  JointPtr_t j1 = joint(s, r, false), j2 = joint(s, r, false), j3 = joint(s, r, false);
  vector3_t a = vec(s, 3, 1.), b = vec(s, 3, 1.), c = vec(s, 3, 1.);
  std::vector<JointIndex> roots;
  std::string d;
  auto cc = zoo::comc(s, r, roots, d);
  auto P1 = PointInJoint::create(j1, a);
  auto P2 = PointInJoint::create(j2, b);
  auto V = VectorInJoint::create(j3, c);
  auto C = PointCom::create(cc);
  auto K = Point::create(a, (size_t)nvOf(r));
  double l = s.real(-2, 2);
  Ref p1 = [=](const FK& k, vectorIn_t) { return vector_t(k.M(j1).act(a)); };
  Ref p2 = [=](const FK& k, vectorIn_t) { return vector_t(k.M(j2).act(b)); };
  Ref v = [=](const FK& k, vectorIn_t) { return vector_t(k.M(j3).rotation() * c); };
  Ref cm = [=](const FK& k, vectorIn_t) { return vector_t(com(r, k, roots)); };
  auto cr = [](const vector_t& x, const vector_t& y) {
    vector3_t u(x), w(y);
    return vector_t(u.cross(w));
  };
  Node n;
  switch (s.range(0, 10)) {
    case 0: n = wrap(P1 - P2, 3, [=](const FK& k, vectorIn_t q) { return vector_t(p1(k, q) - p2(k, q)); }, "P1 - P2"); break;
    case 1: n = wrap(P1 + P2, 3, [=](const FK& k, vectorIn_t q) { return vector_t(p1(k, q) + p2(k, q)); }, "P1 + P2"); break;
    case 2: n = wrap(P1 ^ P2, 3, [=](const FK& k, vectorIn_t q) { return cr(p1(k, q), p2(k, q)); }, "P1 ^ P2"); break;
    case 3: n = wrap((C - P1) ^ V, 3, [=](const FK& k, vectorIn_t q) { return cr(cm(k, q) - p1(k, q), v(k, q)); }, "(C-P1)^V"); break;
    case 4: n = wrap(V ^ C, 3, [=](const FK& k, vectorIn_t q) { return cr(v(k, q), cm(k, q)); }, "V ^ C"); break;
    case 5:
      n = wrap((C - P1) * (l * V), 1, [=](const FK& k, vectorIn_t q) {
        return vector_t(vector_t::Constant(1, l * (cm(k, q) - p1(k, q)).dot(v(k, q))));
      }, "(C-P1).(lV)");
      break;
    case 6:
      n = wrap(j2 * (C - K), 3, [=](const FK& k, vectorIn_t q) { return vector_t(k.M(j2).rotation() * (cm(k, q) - vector_t(a))); }, "R2 (C-K)");
      break;
    case 7:
      n = wrap(JointTranspose(j2) * (P1 ^ V), 3, [=](const FK& k, vectorIn_t q) {
        return vector_t(k.M(j2).rotation().transpose() * cr(p1(k, q), v(k, q)));
      }, "R2^T (P1^V)");
      break;
    case 8:
      n = wrap((C - 0.5 * (P1 + P2)) ^ (P2 - P1), 3, [=](const FK& k, vectorIn_t q) {
        return cr(cm(k, q) - .5 * (p1(k, q) + p2(k, q)), p2(k, q) - p1(k, q));
      }, "(C-.5(P1+P2))^(P2-P1)");
      break;
    case 9:
      n = wrap(C + P1, 3, [=](const FK& k, vectorIn_t q) { return vector_t(cm(k, q) + p1(k, q)); }, "C + P1");
      break;
    default:
      n = wrap(V + (j1 * P2), 3, [=](const FK& k, vectorIn_t q) { return vector_t(v(k, q) + k.M(j1).rotation() * p2(k, q)); }, "V + R1 P2");
  }
  s.note() << n.desc << " j " << j1->name() << " " << j2->name() << " " << j3->name() << d << "\n";
  s.label(n.desc);
  for (long k = s.range(1, 2); k > 0; --k) {
    Configuration_t q = config(s, r);
    s.note() << "q " << str(q) << "\n";
    setState(r, q, true);
    FK fk(r, q);
    n.i->invalidate();
    bool jfirst = s.coin();
    if (jfirst) n.i->computeJacobian(q);
    n.i->computeValue(q);
    vector_t e = n.ref(fk, q);
    PBT_CHECK(same(n.i->value(), e), "direct-value", n.desc << " " << str(n.i->value()) << " instead of " << str(e));
    n.i->computeJacobian(q);
    NumDiff nd = num(r, n.ref, n.dim, q);
    matrix_t full(matrix_t::Zero(n.dim, r->numberDof()));
    full.leftCols(nvOf(r)) = n.i->jacobian();
    checkJacobian(full, nd, "direct-jacobian", n.desc);
    if (nd.J.norm() > 1e-6) s.nontrivial();
  }
}

// matrices of expressions
void matrices(Src& s) {
  DevicePtr_t r = robot(s, opts());
  s.note() << describe(r);
  std::vector<Node> p = pool(s, r, s.range(1, 4), s.range(0, 4));
  std::vector<std::size_t> ok;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (p[i].dim == 3) ok.push_back(i);
  std::size_t R = (std::size_t)s.range(1, 2), C = (std::size_t)s.range(1, 4);
  long nv = nvOf(r);
  typedef MatrixOfExpressions<> M;
  matrix_t v0(matrix_t::Zero(3 * (long)R, (long)C)), j0(matrix_t::Zero(3 * (long)R, (long)C * nv));
  auto m = M::create(v0, j0);
  m->setSize(R, C);
  std::vector<std::vector<Ref>> refs(R, std::vector<Ref>(C));
  for (std::size_t i = 0; i < R; ++i)
    for (std::size_t j = 0; j < C; ++j) {
      std::size_t k = s.pick(ok);
      s.note() << "#" << k << (j + 1 == C ? "\n" : " ");
      refs[i][j] = p[k].ref;
      M::ElementPtr_t e(new Elt(p[k].i, nv));
      if (s.coin())
        m->set(i, j, e);
      else
        (*m)(i, j) = e;
    }
  auto ref = [&](const FK& fk, vectorIn_t q) {
    matrix_t A(3 * (long)R, (long)C);
    for (std::size_t i = 0; i < R; ++i)
      for (std::size_t j = 0; j < C; ++j) A.block(3 * (long)i, (long)j, 3, 1) = refs[i][j](fk, q);
    return A;
  };
  for (long a = s.range(1, 2); a > 0; --a) {
    Configuration_t q = config(s, r);
    s.note() << "q " << str(q) << "\n";
    setState(r, q, true);
    FK fk(r, q);
    matrix_t A = ref(fk, q);
    if (A.norm() > 1e3) discard();
    m->invalidate();
    for (long k = s.range(1, 4); k > 0; --k) {
      int what = (int)s.range(0, 4);
      s.note() << "request " << what << "\n";
      if (what == 0) {
        m->computeValue(q);
        PBT_CHECK((m->value() - A).norm() <= 1e-9 * (1 + A.norm()), "matrix-value", strM(m->value()) << "\ninstead of\n" << strM(A));
      } else if (what == 1) {
        m->computeJacobian(q);
        for (std::size_t i = 0; i < R; ++i)
          for (std::size_t j = 0; j < C; ++j) {
            matrix_t full(matrix_t::Zero(3, r->numberDof()));
            full.leftCols(nv) = m->jacobian().block(3 * (long)i, (long)j * nv, 3, nv);
            checkJacobian(full, num(r, refs[i][j], 3, q), "matrix-jacobian", "block " + std::to_string(i) + " " + std::to_string(j));
          }
      } else if (what == 2) {
        vector_t x = vec(s, (long)C, 1.), y = vec(s, 3 * (long)R, 1.);
        m->computeJacobian(q);
        matrix_t c1(3 * (long)R, nv), c2((long)C, nv);
        c1.setConstant(12);
        c2.setConstant(-7);
        m->jacobianTimes(q, x, c1);
        m->jacobianTransposeTimes(q, y, c2);
        Ref Ax = [&](const FK& k, vectorIn_t z) { return vector_t(ref(k, z) * x); };
        Ref Aty = [&](const FK& k, vectorIn_t z) { return vector_t(ref(k, z).transpose() * y); };
        matrix_t f1(matrix_t::Zero(c1.rows(), r->numberDof())), f2(matrix_t::Zero(c2.rows(), r->numberDof()));
        f1.leftCols(nv) = c1;
        f2.leftCols(nv) = c2;
        checkJacobian(f1, num(r, Ax, c1.rows(), q), "matrix-times", "d(A) x");
        checkJacobian(f2, num(r, Aty, c2.rows(), q), "matrix-transpose-times", "d(A^T) y");
      } else {
        Eigen::JacobiSVD<matrix_t> svd(A);
        vector_t sv = svd.singularValues();
        if (sv.minCoeff() < .05 * sv.maxCoeff() || sv.maxCoeff() < .1 || sv.maxCoeff() > 20) continue;
        s.label("pseudo-inverse");
        auto pinv = [](const matrix_t& X) {
          matrix_t P;
          if (X.rows() >= X.cols())
            P = (X.transpose() * X).inverse() * X.transpose();
          else
            P = X.transpose() * (X * X.transpose()).inverse();
          return P;
        };
        if (what == 3) {
          m->computePseudoInverse(q);
          PBT_CHECK((m->pinv() - pinv(A)).norm() < 1e-7 * (1 + m->pinv().norm()), "matrix-pinv", strM(m->pinv()) << "\ninstead of\n" << strM(pinv(A)));
        } else {
          vector_t y = vec(s, 3 * (long)R, 1.);
          m->computePseudoInverseJacobian(q, y);
          Ref f = [&](const FK& k, vectorIn_t z) { return vector_t(pinv(ref(k, z)) * y); };
          matrix_t full(matrix_t::Zero((long)C, r->numberDof()));
          full.leftCols(nv) = m->pinvJacobian();
          NumDiff nd = num(r, f, (long)C, q);
          checkJacobian(full, nd, "matrix-pinv-jacobian", "d(A^+) y");
          if (nd.J.norm() > 1e-6) s.nontrivial();
        }
      }
      s.nontrivial();
    }
  }
}

// functions built from expressions
void functions(Src& s) {
  DevicePtr_t r = robot(s, opts());
  s.note() << describe(r);
  JointPtr_t j1 = joint(s, r, false), j2 = joint(s, r, false);
  vector3_t a = vec(s, 3, 1.), b = vec(s, 3, 1.);
  auto P1 = PointInJoint::create(j1, a);
  auto P2 = VectorInJoint::create(j2, b);
  Ref f;
  std::vector<bool> m;
  DifferentiableFunctionPtr_t F;
  int kind = (int)s.range(0, 3);
  bool def = s.coin();
  auto cr = [](const vector_t& x, const vector_t& y) {
    vector3_t u(x), w(y);
    return vector_t(u.cross(w));
  };
  if (kind == 0) {
    m = def ? std::vector<bool>(3, true) : mask(s, 3);
    auto e = P1 ^ P2;
    typedef CrossProduct<PointInJoint, VectorInJoint> E;
    F = def ? SymbolicFunction<E>::create("f", r, e) : SymbolicFunction<E>::create("f", r, e, m);
    f = [=](const FK& k, vectorIn_t) { return cr(k.M(j1).act(a), k.M(j2).rotation() * b); };
  } else if (kind == 1) {
    m.assign(1, true);
    auto e = P1 * P2;
    typedef ScalarProduct<PointInJoint, VectorInJoint> E;
    F = def ? SymbolicFunction<E>::create("f", r, e) : SymbolicFunction<E>::create("f", r, e, m);
    f = [=](const FK& k, vectorIn_t) { return vector_t(vector_t::Constant(1, k.M(j1).act(a).dot(k.M(j2).rotation() * b))); };
  } else if (kind == 2) {
    m = def ? std::vector<bool>(6, true) : mask(s, 6);
    auto e = JointFrame::create(j1);
    F = def ? SymbolicFunction<JointFrame>::create("f", r, e) : SymbolicFunction<JointFrame>::create("f", r, e, m);
    f = [=](const FK& k, vectorIn_t) {
      vector_t v(6);
      v << k.M(j1).translation(), logR(k.M(j1).rotation());
      return v;
    };
  } else {
    m = def ? std::vector<bool>(3, true) : mask(s, 3);
    F = def ? SymbolicFunction<PointInJoint>::create("f", r, P1) : SymbolicFunction<PointInJoint>::create("f", r, P1, m);
    f = [=](const FK& k, vectorIn_t) { return vector_t(k.M(j1).act(a)); };
  }
  s.note() << "kind " << kind << " " << j1->name() << " " << j2->name() << " mask " << str(m) << "\n";
  long dim = std::count(m.begin(), m.end(), true);
  PBT_CHECK(F->outputSize() == dim && F->outputDerivativeSize() == dim, "function-size", F->outputSize() << " instead of " << dim);
  PBT_CHECK(F->inputSize() == r->configSize() && F->inputDerivativeSize() == r->numberDof(), "function-input", F->inputSize());
  Ref g = [&](const FK& k, vectorIn_t q) {
    vector_t v = f(k, q), w(dim);
    long row = 0;
    for (std::size_t i = 0; i < m.size(); ++i)
      if (m[i]) w[row++] = v[(long)i];
    return w;
  };
  for (long k = s.range(1, 3); k > 0; --k) {
    Configuration_t q = config(s, r);
    s.note() << "q " << str(q) << "\n";
    FK fk(r, q);
    if (kind == 2 && f(fk, q).tail(3).norm() > 3.1) discard();
    matrix_t J;
    bool jfirst = s.coin();
    if (jfirst) J = gen::jacobian(*F, q);
    vector_t v = zoo::value(*F, q), w = g(fk, q);
    if (!jfirst) J = gen::jacobian(*F, q);
    PBT_CHECK(same(v, w), "function-value", str(v) << " instead of " << str(w));
    checkJacobian(J, num(r, g, dim, q), "function-jacobian", F->name());
  }
  if (dim) s.nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
  Property p;
  p.id = "C03";
  p.rule = "the Jacobian of an operation that is not constant was requested, or a matrix or function was evaluated";
  p.assumptions = {"expressions are invalidated after the robot state changes, as documented",
                   "rotation vectors of angle greater than 3.1 are not judged (discontinuity at pi)"};
  p.facets.push_back({"dag", 4, dag});
  p.facets.push_back({"direct", 2, direct});
  p.facets.push_back({"matrices", 2, matrices});
  p.facets.push_back({"functions", 1, functions});
  p.quick = 25000;
  p.thorough = 300000;
  return pbt::main(argc, argv, p);
}
