// C14: logarithms of rotations and rigid motions, and their Jacobians, against
// an extended-precision reference that does not share any formula with the
// library (quaternions and atan2 for values, inverse of the exponential's
// Jacobian and differences in extended precision for derivatives).
#include <hpp/constraints/tools.hh>
#include <pinocchio/spatial/explog.hpp>

#include "pbt.hh"
using namespace pbt;
using namespace hpp::constraints;
typedef long double ld;
typedef Eigen::Matrix<ld, 3, 1> V3;
typedef Eigen::Matrix<ld, 3, 3> M3;
typedef Eigen::Matrix<ld, 4, 1> V4;
static const ld PI = 3.14159265358979323846264338327950288L;

static M3 sk(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
static M3 expR(const V3& r) {
  ld t = r.norm();
  ld a, b;
  if (t < 1e-5L) {
    a = 1 - t * t / 6;
    b = .5L - t * t / 24;
  } else {
    a = std::sin(t) / t;
    ld h = std::sin(t / 2);
    b = 2 * h * h / (t * t);
  }
  M3 k = sk(r);
  return M3::Identity() + a * k + b * k * k;
}
// quaternion (x, y, z, w), branch on the largest component
static V4 quat(const M3& R) {
  ld d[4] = {R(0, 0), R(1, 1), R(2, 2), R.trace()};
  int k = 0;
  for (int i = 1; i < 4; ++i)
    if (d[i] > d[k]) k = i;
  V4 q;
  if (k == 3)
    q << R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1), 1 + R.trace();
  else {
    int i = k, j = (k + 1) % 3, l = (k + 2) % 3;
    q[i] = 1 + R(i, i) - R(j, j) - R(l, l);
    q[j] = R(i, j) + R(j, i);
    q[l] = R(i, l) + R(l, i);
    q[3] = R(l, j) - R(j, l);
  }
  q /= q.norm();
  return q;
}
static V3 logRef(const M3& R) {
  V4 q = quat(R);
  if (q[3] < 0) q = -q;
  V3 v = q.head<3>();
  ld n = v.norm();
  if (n < 1e-12L) return 2 * v;
  return 2 * std::atan2(n, q[3]) / n * v;
}
// left Jacobian of the exponential (V matrix of SE3)
static M3 Vmat(const V3& r) {
  ld t = r.norm(), b, c;
  if (t < 1e-3L) {
    b = .5L - t * t / 24 + t * t * t * t / 720;
    c = 1 / 6.L - t * t / 120 + t * t * t * t / 5040;
  } else {
    ld h = std::sin(t / 2);
    b = 2 * h * h / (t * t);
    c = (t - std::sin(t)) / (t * t * t);
  }
  M3 k = sk(r);
  return M3::Identity() + b * k + c * k * k;
}
static Eigen::Matrix<ld, 6, 1> log6Ref(const M3& R, const V3& p) {
  V3 r = logRef(R);
  Eigen::Matrix<ld, 6, 1> x;
  x.head<3>() = Vmat(r).inverse() * p;
  x.tail<3>() = r;
  return x;
}

static V3 axis(Src& s) {
  if (s.chance(1, 3)) {
    // axes with zero or equal components
    V3 v;
    do {
      for (int i = 0; i < 3; ++i) v[i] = (ld)s.range(-1, 1);
      if (v.isZero()) v[0] = 1;
    } while (v.isZero());
    s.label("lattice axis");
    return v / v.norm();
  }
  V3 v;
  for (int i = 0; i < 3; ++i) v[i] = s.real(-1, 1);
  if (s.chance(1, 6)) v[s.raw(3)] *= 1e-9L;
  if (v.norm() < 1e-3L) v = V3(0, 0, 1);
  return v / v.norm();
}
static ld angle(Src& s) {
  ld t = 0;
  switch (s.weighted({3, 3, 3, 2, 1, 2, 2})) {
    case 0: t = s.real(0, 3.14159); s.label("ordinary"); break;
    case 1: t = std::pow(10.L, s.real(-12, -1)); s.label("small"); break;
    case 2: t = PI - std::pow(10.L, s.real(-17, -.5)); s.label("near pi"); break;
    case 3: t = PI - .01L + s.real(-1e-9, 1e-9); s.label("switch pi"); break;
    case 4: t = 0; s.label("zero"); break;
    case 5: t = PI; s.label("pi"); break;
    case 6: t = s.pick({1e-6L, 1e-2L}) * (1 + (ld)s.real(-1e-3, 1e-3)); s.label("switch small"); break;
  }
  if (t < 1e-3L || t > PI - .02L) s.nontrivial();
  s.note() << "angle " << (double)t << " (pi - " << (double)(PI - t) << ")";
  return t;
}
static std::string st(const V3& v) {
  std::ostringstream o;
  o.precision(17);
  o << v.cast<double>().transpose();
  return o.str();
}
// a rotation matrix in double precision, as the library receives it: rounded
// from the exact one or obtained from a normalised quaternion
static matrix3_t rotation(Src& s, ld& t) {
  V3 n = axis(s);
  t = angle(s);
  s.note() << " axis " << st(n);
  if (s.coin()) return expR(t * n).cast<double>();
  V3 h = n * std::sin(t / 2);
  Eigen::Quaterniond q((double)std::cos(t / 2), (double)h[0], (double)h[1], (double)h[2]);
  q.normalize();
  return q.toRotationMatrix();
}

static void checkLog(const matrix3_t& R, const vector3_t& r, double theta, const char* tag) {
  M3 Rl = R.cast<ld>();
  V3 ref = logRef(Rl);
  PBT_CHECK(r.allFinite() && theta == theta, std::string(tag) + "-finite", st(r.cast<ld>()));
  ld nearPi = PI - ref.norm();
  // the only documented precision: square root of the machine precision near pi
  ld tol = nearPi > 1.1e-2L ? 1e-9L : 2e-7L;
  PBT_CHECK(r.norm() <= (double)PI + 1e-7, std::string(tag) + "-norm", st(r.cast<ld>()));
  PBT_CHECK(std::abs(theta - (double)ref.norm()) < 1e-7, std::string(tag) + "-theta", theta << " ref " << (double)ref.norm());
  PBT_CHECK(theta >= 0 && theta <= (double)PI + 1e-12, std::string(tag) + "-theta-range", theta);
  M3 E = expR(r.cast<ld>());
  PBT_CHECK((E - Rl).cwiseAbs().maxCoeff() < 5e-7, std::string(tag) + "-exp", "log = " << st(r.cast<ld>()) << " ref = " << st(ref));
  if (nearPi > 1e-7L)
    PBT_CHECK((r.cast<ld>() - ref).norm() < tol, std::string(tag) + "-value", "log = " << st(r.cast<ld>()) << " ref = " << st(ref));
  else
    PBT_CHECK(std::min((r.cast<ld>() - ref).norm(), (r.cast<ld>() + ref).norm()) < tol, std::string(tag) + "-value-pi",
              "log = " << st(r.cast<ld>()) << " ref = " << st(ref));
}

static void so3(Src& s) {
  ld t;
  matrix3_t R = rotation(s, t);
  double theta = -1;
  vector3_t r(7, 7, 7);
  logSO3(R, theta, r);
  checkLog(R, r, theta, "so3");
  // into a segment of a larger vector
  vector6_t v;
  v.setConstant(9);
  logSO3(R, theta, v.segment<3>(2));
  PBT_CHECK((vector3_t(v.segment<3>(2)) - r).isZero(0), "segment", "");
  PBT_CHECK(v[0] == 9 && v[1] == 9 && v[5] == 9, "segment-other", v.transpose());
}
static void jso3(Src& s) {
  ld t;
  matrix3_t R = rotation(s, t);
  double theta;
  vector3_t r;
  logSO3(R, theta, r);
  matrix3_t J;
  J.setConstant(-8);
  JlogSO3(theta, r, J);
  // derivative for R exp(w): inverse of the right Jacobian of the exponential at the returned logarithm
  M3 Jr = Vmat(-r.cast<ld>());
  M3 e = J.cast<ld>() * Jr - M3::Identity();
  double tol = 2e-6;
  PBT_CHECK(e.cwiseAbs().maxCoeff() < tol, "jlog", "error " << (double)e.cwiseAbs().maxCoeff() << "\n" << J << "\ninstead of\n" << Jr.inverse().cast<double>());
  // J r = r: motions along the axis
  PBT_CHECK((J * r - r).norm() < 1e-6, "jlog-axis", (J * r - r).norm());
}
static vector3_t trans(Src& s) {
  vector3_t p;
  double a = s.pick({1., 0., 10., 1e-3});
  for (int i = 0; i < 3; ++i) p[i] = s.real(-a, a);
  s.note() << " p " << p.transpose();
  return p;
}
static void se3(Src& s) {
  ld t;
  matrix3_t R = rotation(s, t);
  vector3_t p = trans(s);
  Transform3s M(R, p);
  Eigen::Matrix<double, 6, 1> v;
  v.setConstant(5);
  logSE3(M, v);
  vector3_t r = v.tail<3>();
  checkLog(R, r, r.norm() > PI ? (double)PI : r.norm(), "se3");
  V3 back = Vmat(r.cast<ld>()) * v.head<3>().cast<ld>();
  PBT_CHECK((back - p.cast<ld>()).norm() < 2e-7 * (1 + p.norm()), "se3-exp", "log " << v.transpose() << " exp gives translation " << st(back));
  // into a column of a matrix
  Eigen::Matrix<double, 6, 3> m;
  m.setConstant(5);
  Eigen::Block<Eigen::Matrix<double, 6, 3>, 6, 1, true> col(m.col(1));
  logSE3(M, col);
  PBT_CHECK((m.col(1) - v).isZero(0) && m.col(0).isConstant(5) && m.col(2).isConstant(5), "se3-col", "");
}
static void jse3(Src& s) {
  ld t;
  matrix3_t R = rotation(s, t);
  vector3_t p = trans(s);
  if (t > PI - 1e-4L) discard();  // the reference differences need room
  Eigen::Matrix<double, 6, 6> J;
  J.setConstant(-3);
  JlogSE3(Transform3s(R, p), J);
  // project the double precision matrix on SO(3) exactly
  M3 Rl = expR(logRef(R.cast<ld>()));
  V3 pl = p.cast<ld>();
  Eigen::Matrix<ld, 6, 6> N;
  for (int k = 0; k < 6; ++k) {
    auto D = [&](ld h) -> Eigen::Matrix<ld, 6, 1> {
      Eigen::Matrix<ld, 6, 1> a, b;
      V3 e = V3::Zero();
      e[k % 3] = h;
      if (k < 3) {
        a = log6Ref(Rl, pl + Rl * e);
        b = log6Ref(Rl, pl - Rl * e);
      } else {
        a = log6Ref(Rl * expR(e), pl);
        b = log6Ref(Rl * expR(-e), pl);
      }
      return (a - b) / (2 * h);
    };
    ld h = 2e-5L;
    N.col(k) = (4 * D(h / 2) - D(h)) / 3;
  }
  // precision of the logarithm itself degrades within 1e-2 of pi
  ld tol = (t > PI - 1.1e-2L ? 3e-6L : 1e-6L) * (1 + pl.norm());
  ld e = (N - J.cast<ld>()).cwiseAbs().maxCoeff();
  PBT_CHECK(e < tol, "jlog6", "error " << (double)e << "\n" << J << "\ninstead of\n" << N.cast<double>());
}
// values on both sides of the switches between formulas
static void continuity(Src& s) {
  V3 n = axis(s);
  ld t0 = s.pick({PI - .01L, 1e-6L, 1e-2L, PI / 2});
  ld d = std::pow(10.L, s.real(-12, -7));
  s.note() << "axis " << st(n) << " angle " << (double)t0 << " +- " << (double)d;
  s.nontrivial();
  vector3_t p = trans(s);
  matrix3_t A = expR((t0 - d) * n).cast<double>(), B = expR((t0 + d) * n).cast<double>();
  double ta, tb;
  vector3_t a, b;
  logSO3(A, ta, a);
  logSO3(B, tb, b);
  PBT_CHECK((a - b).norm() < 2 * (double)d + 2e-7, "so3", st(a.cast<ld>()) << " / " << st(b.cast<ld>()));
  vector6_t x, y;
  logSE3(Transform3s(A, p), x);
  logSE3(Transform3s(B, p), y);
  PBT_CHECK((x - y).norm() < (4 * (double)d + 4e-7) * (1 + p.norm()), "se3", x.transpose() << " / " << y.transpose());
  matrix3_t JA, JB;
  JlogSO3(ta, a, JA);
  JlogSO3(tb, b, JB);
  PBT_CHECK((JA - JB).norm() < 4 * (double)d + 4e-6, "jso3", JA << "\n/\n" << JB);
  Eigen::Matrix<double, 6, 6> KA, KB;
  JlogSE3(Transform3s(A, p), KA);
  JlogSE3(Transform3s(B, p), KB);
  PBT_CHECK((KA - KB).norm() < (10 * (double)d + 4e-6) * (1 + p.norm()), "jse3", KA << "\n/\n" << KB);
}
static void configs(Src& s) {
  ld t;
  matrix3_t R = rotation(s, t);
  vector3_t p = trans(s);
  Eigen::Matrix<double, 9, 1> q;
  q.setConstant(4);
  se3ToConfig(Transform3s(R, p), q.segment<7>(1));
  PBT_CHECK(q[0] == 4 && q[8] == 4, "other", q.transpose());
  PBT_CHECK(q.segment<3>(1) == p, "trans", q.transpose());
  V4 ref = quat(R.cast<ld>());
  V4 got = q.segment<4>(4).cast<ld>();
  PBT_CHECK(std::min((got - ref).norm(), (got + ref).norm()) < 1e-8, "quat", got.cast<double>().transpose() << " ref " << ref.cast<double>().transpose());
  Eigen::Matrix<double, 6, 1> k;
  k.setConstant(4);
  matrixToQuat(R, k.segment<4>(1));
  PBT_CHECK(k[0] == 4 && k[5] == 4 && k.segment<4>(1) == q.segment<4>(4), "quat-segment", k.transpose());
  vector3_t v(p);
  matrix3_t C;
  C.setConstant(2);
  computeCrossMatrix(v, C);
  PBT_CHECK((C.cast<ld>() - sk(v.cast<ld>())).isZero(0), "cross", C);
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C14";
  p.rule = "the rotation angle is below 1e-3 or within 0.02 of pi, or the case straddles a switch between formulas";
  p.facets = {{"so3", 3, so3}, {"jso3", 3, jso3}, {"se3", 3, se3}, {"jse3", 2, jse3}, {"continuity", 2, continuity}, {"configs", 1, configs}};
  p.quick = 600000;
  p.thorough = 10000000;
  p.assumptions = {"rotation matrices are orthonormal up to rounding",
                   "within 1e-2 of pi the logarithm is computed to about the square root of the machine precision (documented in tools.hh)",
                   "at pi exactly either of the two opposite rotation vectors is accepted"};
  return pbt::main(argc, argv, p);
}
