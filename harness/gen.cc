#include "gen.hh"

#include <map>

#include <hpp/pinocchio/extra-config-space.hh>
#include <hpp/pinocchio/urdf/util.hh>
#include <pinocchio/algorithm/kinematics.hpp>

namespace gen {

static std::string num(double x) {
  std::ostringstream o;
  o.precision(12);
  o << x;
  return o.str();
}
static std::string xyz(Src& s, double a) {
  std::string r;
  for (int i = 0; i < 3; ++i) r += (i ? " " : "") + num(s.real(-a, a));
  return r;
}

// URDF of a tree of 1 + n links
static std::string tree(Src& s, int n, bool geometry, bool fixedJoints, bool vectorOnly) {
  std::ostringstream o;
  o << "<robot name=\"r\">\n";
  for (int i = 0; i <= n; ++i) {
    o << "<link name=\"l" << i << "\"><inertial><origin xyz=\"" << xyz(s, .3) << "\" rpy=\"0 0 0\"/><mass value=\""
      << num(s.real(.5, 3)) << "\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial>";
    if (geometry) {
      const char* tag[] = {"collision", "visual"};
      std::string org = xyz(s, .2), geom;
      if (s.coin())
        geom = "<sphere radius=\"" + num(s.real(.02, .15)) + "\"/>";
      else
        geom = "<box size=\"" + num(s.real(.05, .3)) + " " + num(s.real(.05, .3)) + " " + num(s.real(.05, .3)) + "\"/>";
      for (auto t : tag)
        o << "<" << t << "><origin xyz=\"" << org << "\" rpy=\"0 0 0\"/><geometry>" << geom << "</geometry></" << t << ">";
    }
    o << "</link>\n";
  }
  for (int i = 1; i <= n; ++i) {
    int parent = (int)s.range(0, i - 1);
    if (s.coin()) parent = i - 1;
    std::size_t k = s.weighted({6, vectorOnly ? 0u : 3u, 3, fixedJoints ? 2u : 0u, vectorOnly ? 0u : 1u, vectorOnly ? 0u : 1u});
    const char* type[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};
    o << "<joint name=\"j" << i << "\" type=\"" << type[k] << "\"><parent link=\"l" << parent << "\"/><child link=\"l"
      << i << "\"/><origin xyz=\"" << xyz(s, .5) << "\" rpy=\"";
    if (s.coin())
      o << xyz(s, 2);
    else
      o << "0 0 0";
    o << "\"/>";
    if (k != 3 && k != 4) {
      int a = (int)s.range(0, 4);
      const char* axis[] = {"1 0 0", "0 1 0", "0 0 1", "0.6 0.8 0", "-0.48 0.6 0.64"};
      if (k == 5) a = 2;
      o << "<axis xyz=\"" << axis[a] << "\"/>";
    }
    if (k != 3 && k != 4) {
      double lo = s.real(-3, -.3), up = s.real(.3, 3);
      o << "<limit effort=\"10\" velocity=\"1\" lower=\"" << num(lo) << "\" upper=\"" << num(up) << "\"/>";
    }
    o << "</joint>\n";
  }
  o << "</robot>";
  return o.str();
}

DevicePtr_t robot(Src& s, const RobotOpts& o) {
  DevicePtr_t r = Device::create("robot");
  int nt = (int)s.range(o.minTrees, o.maxTrees);
  int ff = o.freeflyers;
  for (int t = 0; t < nt + ff; ++t) {
    std::string prefix = nt + ff > 1 ? std::string(1, (char)('a' + t)) + "/" : std::string();
    int n;
    std::string root;
    if (t < nt) {
      n = (int)s.range(o.minJoints, o.maxJoints);
      const char* roots[] = {"anchor", "freeflyer", "planar"};
      root = roots[o.vectorOnly ? 0 : s.weighted({4, 3, 1})];
    } else {
      n = 0;
      root = "freeflyer";
    }
    // at least one degree of freedom per tree: an anchored tree needs a moving joint
    std::string urdf = tree(s, n, o.geometry, o.fixedJoints, o.vectorOnly);
    Transform3s M(Transform3s::Identity());
    if (nt + ff > 1 && root == "anchor" && s.coin()) M = transform(s);
    hpp::pinocchio::urdf::loadModelFromString(r, 0, prefix, root, urdf, "", M);
  }
  if (r->model().nv == 0) pbt::discard();
  int e = (int)s.range(0, std::max(0, o.maxExtra));
  if (e > 0 && s.coin()) {
    r->setDimensionExtraConfigSpace(e);
    for (int i = 0; i < e; ++i) {
      r->extraConfigSpace().lower(i) = -3;
      r->extraConfigSpace().upper(i) = 3;
    }
  }
  // bounds on the translations of free-flyers and planar joints
  for (JointIndex i = 1; i < (JointIndex)r->model().joints.size(); ++i) {
    JointPtr_t j = hpp::pinocchio::Joint::create(r, i);
    if (j->configSize() == 7)
      for (int k = 0; k < 3; ++k) {
        j->lowerBound(k, -4);
        j->upperBound(k, 4);
      }
    if (j->configSize() == 4 && j->numberDof() == 3)
      for (int k = 0; k < 2; ++k) {
        j->lowerBound(k, -4);
        j->upperBound(k, 4);
      }
  }
  r->currentConfiguration(r->neutralConfiguration());
  r->computeForwardKinematics();
  return r;
}

void clamp(const DevicePtr_t& r, Configuration_t& q) {
  const auto& m = r->model();
  for (int i = 0; i < m.nq; ++i) {
    if (q[i] < m.lowerPositionLimit[i]) q[i] = m.lowerPositionLimit[i];
    if (q[i] > m.upperPositionLimit[i]) q[i] = m.upperPositionLimit[i];
  }
  // quaternions and unit complex numbers are not to be clamped: their limits
  // are beyond [-1, 1]
  for (long i = 0; i < r->extraConfigSpace().dimension(); ++i) {
    double& x = q[m.nq + i];
    x = std::min(std::max(x, r->extraConfigSpace().lower(i)), r->extraConfigSpace().upper(i));
  }
}

vector_t vec(Src& s, long n, double a) {
  vector_t v(n);
  for (long i = 0; i < n; ++i) v[i] = s.real(-a, a);
  return v;
}
vector_t velocity(Src& s, long n, double a) { return vec(s, n, a); }

Configuration_t config(Src& s, const DevicePtr_t& r, double amp) {
  vector_t v = vec(s, r->numberDof(), amp);
  LiegroupElement q(r->configSpace()->neutral());
  q += v;
  Configuration_t res = q.vector();
  clamp(r, res);
  return res;
}
Configuration_t near(Src& s, const DevicePtr_t& r, const Configuration_t& q0, double amp) {
  vector_t v = vec(s, r->numberDof(), amp);
  LiegroupElement q(q0, r->configSpace());
  q += v;
  Configuration_t res = q.vector();
  clamp(r, res);
  return res;
}
LiegroupElement element(Src& s, const LiegroupSpacePtr_t& sp, double amp) {
  LiegroupElement e(sp->neutral());
  if (sp->nv() > 0) e += vec(s, sp->nv(), amp);
  return e;
}

Eigen::Matrix3d skew(const vector3_t& w) {
  Eigen::Matrix3d m;
  m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  return m;
}
Eigen::Matrix3d expR(const vector3_t& w) {
  double t = w.norm();
  if (t == 0) return Eigen::Matrix3d::Identity();
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
}
matrix3_t rotation(Src& s) {
  switch (s.weighted({2, 6, 2})) {
    case 0:
      return matrix3_t::Identity();
    case 1: {
      vector3_t w;
      for (int i = 0; i < 3; ++i) w[i] = s.real(-2, 2);
      return expR(w);
    }
    default: {  // quarter turns
      vector3_t w(0, 0, 0);
      w[s.range(0, 2)] = (double)s.range(1, 3) * M_PI / 2;
      return expR(w);
    }
  }
}
Transform3s transform(Src& s, double amp) {
  matrix3_t R = rotation(s);
  vector3_t t(0, 0, 0);
  if (s.chance(3, 4))
    for (int i = 0; i < 3; ++i) t[i] = s.real(-amp, amp);
  return Transform3s(R, t);
}
JointPtr_t joint(Src& s, const DevicePtr_t& r, bool allowNull) {
  if (allowNull && s.chance(1, 5)) return JointPtr_t();
  std::size_t n = r->model().joints.size();
  // as in a Device used by an application, one object per joint
  static std::weak_ptr<hpp::pinocchio::Device> robot;
  static std::map<JointIndex, JointPtr_t> joints;
  if (robot.lock() != r) {
    robot = r;
    joints.clear();
  }
  JointIndex i = (JointIndex)s.range(1, (long)n - 1);
  JointPtr_t& j = joints[i];
  if (!j) j = hpp::pinocchio::Joint::create(r, i);
  return j;
}
std::vector<bool> mask(Src& s, std::size_t n, bool allowEmpty) {
  std::vector<bool> m(n, true);
  if (s.coin()) return m;
  bool any = false;
  for (std::size_t i = 0; i < n; ++i) any |= (m[i] = s.coin());
  if (!any && !allowEmpty) m[s.range(0, (long)n - 1)] = true;
  return m;
}

FK::FK(const DevicePtr_t& r, vectorIn_t q) : data(r->model()), model(&r->model()) {
  ::pinocchio::forwardKinematics(*model, data, q.head(model->nq));
}
Transform3s FK::M(const JointConstPtr_t& j) const {
  if (!j || j->index() == 0) return Transform3s::Identity();
  return data.oMi[j->index()];
}
static bool below(const hpp::pinocchio::Model& m, JointIndex i, const std::vector<JointIndex>& roots) {
  if (roots.empty()) return i > 0;
  for (JointIndex k = i; k > 0; k = m.parents[k])
    for (JointIndex r : roots)
      if (r == k) return true;
  return false;
}
vector3_t com(const DevicePtr_t& r, const FK& fk, const std::vector<JointIndex>& roots) {
  const auto& m = r->model();
  vector3_t c(vector3_t::Zero());
  double M = 0;
  for (JointIndex i = 1; i < (JointIndex)m.joints.size(); ++i)
    if (below(m, i, roots)) {
      double mi = m.inertias[i].mass();
      M += mi;
      c += mi * fk.data.oMi[i].act(vector3_t(m.inertias[i].lever()));
    }
  return c / M;
}
double mass(const DevicePtr_t& r, const std::vector<JointIndex>& roots) {
  const auto& m = r->model();
  double M = 0;
  for (JointIndex i = 1; i < (JointIndex)m.joints.size(); ++i)
    if (below(m, i, roots)) M += m.inertias[i].mass();
  return M;
}

Eigen::Vector4d quat(const matrix3_t& R) {
  Eigen::Quaterniond q(R);
  q.normalize();
  return q.coeffs();
}
vector3_t logR(const matrix3_t& R) {
  Eigen::Vector4d q = quat(R);
  if (q[3] < 0) q = -q;
  vector3_t v = q.head<3>();
  double n = v.norm();
  if (n < 1e-300) return vector3_t::Zero();
  return v / n * (2 * std::atan2(n, q[3]));
}

NumDiff numdiff(const LiegroupSpacePtr_t& in, const LiegroupSpacePtr_t& out, const Fn& f, vectorIn_t q, double h) {
  NumDiff nd;
  long nv = in->nv(), m = out->nv();
  nd.J.setZero(m, nv);
  nd.ok.setConstant(m, nv, true);
  LiegroupElement f0(out), fp(out), fm(out);
  f(q, f0);
  for (long j = 0; j < nv; ++j) {
    vector_t e(vector_t::Zero(nv));
    vector_t d[3], c[3];
    double hh = h;
    for (int k = 0; k < 3; ++k, hh /= 2) {
      LiegroupElement x(q, in), y(q, in);
      e[j] = hh;
      x += e;
      e[j] = -hh;
      y += e;
      f(x.vector(), fp);
      f(y.vector(), fm);
      // differences are taken at the value itself: exact tangent at order 2
      d[k] = ((fp - f0) - (fm - f0)) / (2 * hh);
      c[k] = ((fp - f0) + (fm - f0)) / hh;
    }
    for (long i = 0; i < m; ++i) {
      double e1 = (4 * d[1][i] - d[0][i]) / 3, e2 = (4 * d[2][i] - d[1][i]) / 3;
      nd.J(i, j) = e2;
      // the second difference divided by the step vanishes with the step,
      // unless left and right derivatives differ
      bool kink = std::abs(c[2][i]) > 1e-5 && std::abs(c[2][i]) > .75 * std::abs(c[1][i]);
      if (kink || !(std::abs(e1 - e2) <= 1e-6 * (1 + std::abs(e2)))) {
        nd.ok(i, j) = false;
        ++nd.unreliable;
      }
    }
  }
  return nd;
}
NumDiff numdiff(const DifferentiableFunction& f, const LiegroupSpacePtr_t& in, vectorIn_t q) {
  return numdiff(in, f.outputSpace(), [&](vectorIn_t x, LiegroupElement& y) { f.value(y, x); }, q);
}
void checkJacobian(const matrix_t& J, const NumDiff& nd, const std::string& tag, const std::string& what) {
  PBT_CHECK(J.rows() == nd.J.rows() && J.cols() == nd.J.cols(), tag + "-size",
            what << ": " << J.rows() << "x" << J.cols() << " instead of " << nd.J.rows() << "x" << nd.J.cols());
  for (long i = 0; i < J.rows(); ++i)
    for (long j = 0; j < J.cols(); ++j)
      if (nd.ok(i, j))
        PBT_CHECK(std::abs(J(i, j) - nd.J(i, j)) <= 2e-5 * (1 + std::abs(nd.J(i, j))), tag,
                  what << "\nentry (" << i << "," << j << ") of the Jacobian is " << J(i, j)
                       << ", derivative of the value is " << nd.J(i, j) << "\nJacobian\n"
                       << J << "\nnumerical derivative\n"
                       << nd.J);
}
matrix_t jacobian(const DifferentiableFunction& f, vectorIn_t q) {
  matrix_t J(f.outputDerivativeSize(), f.inputDerivativeSize());
  for (long i = 0; i < J.rows(); ++i)
    for (long j = 0; j < J.cols(); ++j) J(i, j) = 1e3 + 17. * (double)i - 31. * (double)j;
  f.jacobian(J, q);
  return J;
}

std::string str(vectorIn_t v) {
  std::ostringstream o;
  o.precision(9);
  o << "(" << v.transpose() << ")";
  return o.str();
}
std::string strM(const matrix_t& M) {
  std::ostringstream o;
  o.precision(9);
  o << M;
  return o.str();
}
std::string str(const Transform3s& M) {
  vector3_t w = logR(M.rotation());
  return "[t " + str(vector_t(M.translation())) + " log(R) " + str(vector_t(w)) + "]";
}
std::string str(const std::vector<bool>& m) {
  std::string r;
  for (bool b : m) r += b ? '1' : '0';
  return r;
}
std::string describe(const DevicePtr_t& r) {
  std::ostringstream o;
  const auto& m = r->model();
  o << "robot:";
  for (JointIndex i = 1; i < (JointIndex)m.joints.size(); ++i)
    o << " " << i << ":" << m.joints[i].shortname() << "<-" << m.parents[i];
  o << " nq=" << r->configSize() << " nv=" << r->numberDof() << " extra=" << r->extraConfigSpace().dimension() << "\n";
  return o.str();
}
}  // namespace gen
