// C16: queries on convex polygons against plane geometry.
#include <hpp/constraints/convex-shape.hh>

#include "gen.hh"
using namespace pbt;
using namespace hpp::constraints;
using gen::Src;

struct Poly {
  std::vector<Eigen::Vector2d> p2;  // counter-clockwise or clockwise, in the plane
  Transform3s M;                    // plane -> joint frame
  std::vector<vector3_t> p3;
  double size;
};
static double cross2(const Eigen::Vector2d& a, const Eigen::Vector2d& b) { return a[0] * b[1] - a[1] * b[0]; }

static Poly polygon(Src& s, long minN = 3) {
  Poly P;
  long n = s.range(minN, 7);
  double a = s.real(.2, 2), b = s.real(.2, 2), th = s.real(0, 6.28);
  // increasing angles on an ellipse, separated by at least 0.15 rad
  std::vector<double> w(n);
  double sum = 0;
  for (auto& x : w) sum += (x = s.real(.2, 1));
  if (n == 4 && s.chance(1, 3)) {
    s.label("rectangle");
    w = {.25, .25, .25, .25};
    sum = 1;
  }
  if (n >= 3)
    for (auto& x : w)
      if (x / sum > .47) discard();
  bool cw = s.coin();
  Eigen::Vector2d c(s.real(-1, 1), s.real(-1, 1));
  double t = th;
  for (long i = 0; i < n; ++i) {
    P.p2.push_back(c + Eigen::Vector2d(a * std::cos(t), b * std::sin(t)));
    t += (cw ? -1 : 1) * w[i] / sum * 2 * M_PI;
  }
  P.M = s.chance(1, 5) ? Transform3s::Identity() : gen::transform(s);
  P.size = std::max(a, b);
  s.note() << n << (cw ? " cw" : " ccw") << " points on ellipse " << a << " " << b << ":";
  for (auto& p : P.p2) {
    P.p3.push_back(P.M.act(vector3_t(p[0], p[1], 0)));
    s.note() << " (" << P.p3.back().transpose() << ")";
  }
  if (n >= 4) s.nontrivial();
  s.label(std::to_string(n) + " vertices");
  return P;
}
static double segDist(const Eigen::Vector2d& p, const Eigen::Vector2d& a, const Eigen::Vector2d& b) {
  Eigen::Vector2d d = b - a;
  double t = std::max(0., std::min(1., d.dot(p - a) / d.squaredNorm()));
  return (p - a - t * d).norm();
}
static bool inside(const Poly& P, const Eigen::Vector2d& p, double& border) {
  int wind = 0;
  border = 1e300;
  std::size_t n = P.p2.size();
  // winding number, independent of convexity
  for (std::size_t i = 0; i < n; ++i) {
    const auto &a = P.p2[i], &b = P.p2[(i + 1) % n];
    border = std::min(border, segDist(p, a, b));
    if (a[1] <= p[1]) {
      if (b[1] > p[1] && cross2(b - a, p - a) > 0) ++wind;
    } else if (b[1] <= p[1] && cross2(b - a, p - a) < 0)
      --wind;
  }
  return wind != 0;
}
static Eigen::Vector2d point(Src& s, const Poly& P) {
  std::size_t n = P.p2.size();
  switch (s.weighted({2, 2, 2, 2, 1})) {
    case 0: return Eigen::Vector2d(s.real(-4, 4), s.real(-4, 4));
    case 1: {  // convex combination: inside
      Eigen::Vector2d x(0, 0);
      double t = 0;
      for (auto& p : P.p2) {
        double w = s.real(0, 1);
        x += w * p;
        t += w;
      }
      if (t == 0) return P.p2[0];
      return x / t;
    }
    case 2: {  // close to an edge or beyond it
      std::size_t i = s.raw(n);
      Eigen::Vector2d a = P.p2[i], b = P.p2[(i + 1) % n], d = (b - a).normalized();
      return a + s.real(-.5, 1.5) * (b - a) + s.real(-.1, .1) * Eigen::Vector2d(-d[1], d[0]);
    }
    case 3: {  // around a vertex
      std::size_t i = s.raw(n);
      return P.p2[i] + Eigen::Vector2d(s.real(-.3, .3), s.real(-.3, .3));
    }
    default: return P.p2[s.raw(n)];
  }
}
static void checkFrame(const ConvexShape& cs, const Transform3s& M, const char* tag) {
  std::string t(tag);
  matrix3_t R = M.rotation();
  PBT_CHECK((R * R.transpose() - matrix3_t::Identity()).norm() < 1e-9, t + "-orthonormal", R);
  PBT_CHECK(std::abs(R.determinant() - 1) < 1e-9, t + "-direct", R);
  PBT_CHECK((M.translation() - cs.C_).norm() < 1e-9, t + "-origin", M.translation().transpose());
}
static void checkShape(const ConvexShape& cs, const std::vector<vector3_t>& p, const char* tag) {
  std::string t(tag);
  PBT_CHECK(cs.shapeDimension_ == p.size() && cs.Pts_ == p, t + "-points", "");
  vector3_t c(0, 0, 0);
  for (auto& x : p) c += x / (double)p.size();
  PBT_CHECK((cs.C_ - c).norm() < 1e-9, t + "-center", cs.C_.transpose());
  PBT_CHECK(std::abs(cs.N_.norm() - 1) < 1e-9, t + "-normal-unit", cs.N_.transpose());
  for (auto& x : p) PBT_CHECK(std::abs(cs.N_.dot(x - c)) < 1e-9, t + "-normal", cs.N_.transpose());
  const Transform3s& M = cs.positionInJoint();
  checkFrame(cs, M, (t + "-frame").c_str());
  PBT_CHECK((M.rotation().col(0) - cs.N_).norm() < 1e-9, t + "-frame-x", M.rotation());
  if (p.size() == 1) return;
  PBT_CHECK((M.rotation().col(2) - (p[1] - p[0]).normalized()).norm() < 1e-9, t + "-frame-z", M.rotation());
  if (p.size() == 2) return;
  vector3_t n = (p[1] - p[0]).cross(p[2] - p[1]).normalized();
  PBT_CHECK((cs.N_ - n).norm() < 1e-9, t + "-normal-side", cs.N_.transpose());
  PBT_CHECK((cs.planeXaxis() - M.rotation().col(1)).norm() < 1e-12 && (cs.planeYaxis() - M.rotation().col(2)).norm() < 1e-12,
            t + "-axes", "");
  PBT_CHECK(cs.Ns_.size() == p.size() && cs.Us_.size() == p.size() && cs.Ls_.size() == (long)p.size(), t + "-sizes", "");
  for (std::size_t i = 0; i < p.size(); ++i) {
    vector3_t e = p[(i + 1) % p.size()] - p[i];
    PBT_CHECK(std::abs(cs.Ls_[i] - e.norm()) < 1e-9 && (cs.Us_[i] - e.normalized()).norm() < 1e-9, t + "-edges", i);
    // outward normal: orthogonal to the edge, all the points on the negative side
    PBT_CHECK(std::abs(cs.Ns_[i].norm() - 1) < 1e-9 && std::abs(cs.Ns_[i].dot(e)) < 1e-9, t + "-edge-normals", i);
    for (auto& x : p) PBT_CHECK(cs.Ns_[i].dot(x - p[i]) < 1e-9, t + "-edge-normals-outward", i);
  }
}

static void shape(Src& s) {
  Poly P = polygon(s);
  ConvexShape cs(P.p3);
  checkShape(cs, P.p3, "shape");
  ConvexShape copy(cs);
  checkShape(copy, P.p3, "copy");
  PBT_CHECK(copy == cs && !(copy != cs), "copy-equal", "");
  ConvexShape rev(cs);
  rev.reverse();
  std::vector<vector3_t> r(P.p3.rbegin(), P.p3.rend());
  checkShape(rev, r, "reverse");
  PBT_CHECK((rev.N_ + cs.N_).norm() < 1e-9 && (rev.C_ - cs.C_).norm() < 1e-9, "reverse-normal", "");
  PBT_CHECK(rev != cs, "reverse-differs", "");
  if (P.p3.size() == 3) {
    ConvexShape t(P.p3[0], P.p3[1], P.p3[2]);
    PBT_CHECK(t == cs, "triangle", "");
    coal::TriangleP tp(P.p3[0], P.p3[1], P.p3[2]);
    ConvexShape t2(tp);
    PBT_CHECK(t2 == cs, "triangle-coal", "");
  }
  std::size_t k = s.raw(P.p3.size());
  // another polygon is not equal
  Transform3s D(matrix3_t::Identity(), vector3_t(0, 0, 1e-3));
  std::vector<vector3_t> moved;
  for (auto& x : P.p3) moved.push_back(D.act(x));
  PBT_CHECK(ConvexShape(moved) != cs, "moved-differs", k);
}
static void degenerate(Src& s) {
  std::vector<vector3_t> p;
  long n = s.range(1, 2);
  for (long i = 0; i < n; ++i) p.push_back(gen::vec(s, 3, 2));
  if (s.chance(1, 3))
    for (auto& x : p) x[0] = 0;
  s.note() << n << " points " << p[0].transpose() << " / " << p.back().transpose();
  if (n == 2 && (p[1] - p[0]).norm() < 1e-2) discard();
  if (n == 2) s.nontrivial();
  ConvexShape cs(p);
  checkShape(cs, p, n == 1 ? "point" : "segment");
  std::vector<vector3_t> r(p.rbegin(), p.rend());
  cs.reverse();
  checkShape(cs, r, n == 1 ? "point-reverse" : "segment-reverse");
  {
    // distance to a point or a segment
    vector3_t x = gen::vec(s, 3, 3);
    vector3_t u = r.back() - r.front();
    double t = n == 1 ? 0 : std::min(1., std::max(0., (x - r.front()).dot(u) / u.squaredNorm()));
    double ref = (x - r.front() - t * u).norm();
    if (n == 2) {
      // in the plane that contains the shape (as documented)
      vector3_t nn = cs.N_;
      x -= nn.dot(x - r.front()) * nn;
      t = std::min(1., std::max(0., (x - r.front()).dot(u) / u.squaredNorm()));
      ref = (x - r.front() - t * u).norm();
    }
    double d = cs.distanceLocal(x);
    PBT_CHECK(std::abs(d - ref) < 1e-9, "distance-degenerate", d << " instead of " << ref << " x " << x.transpose());
  }
  cs.reverse();
  checkShape(cs, p, n == 1 ? "point-reverse2" : "segment-reverse2");
}

static void local(Src& s) {
  Poly P = polygon(s);
  ConvexShape cs(P.p3);
  bool rev = s.coin();
  if (rev) cs.reverse();
  Eigen::Vector2d p = point(s, P);
  s.note() << " p " << p.transpose();
  vector3_t x = P.M.act(vector3_t(p[0], p[1], 0));
  double border;
  bool in = inside(P, p, border);
  s.label(in ? "inside" : "outside");
  double d = cs.distanceLocal(x);
  PBT_CHECK(std::abs(std::abs(d) - border) < 1e-9, "distance", d << " instead of " << (in ? -border : border));
  if (border > 1e-9) {
    PBT_CHECK((d < 0) == in, "distance-sign", d << " inside " << in);
    PBT_CHECK(cs.isInsideLocal(x) == in, "inside", in);
  }
  // Lipschitz along a line through the border: continuity of the signed distance
  Eigen::Vector2d q = point(s, P);
  vector3_t y = P.M.act(vector3_t(q[0], q[1], 0));
  PBT_CHECK(std::abs(cs.distanceLocal(y) - d) <= (y - x).norm() + 1e-9, "lipschitz", "");
  // line / plane
  vector3_t n = P.M.rotation().col(2);
  vector3_t A = gen::vec(s, 3, 3), u = gen::vec(s, 3, 1);
  if (std::abs(u.dot(n)) < 1e-2) discard();
  vector3_t I = cs.intersectionLocal(A, u);
  PBT_CHECK(std::abs(n.dot(I - P.p3[0])) < 1e-9 * (1 + 1 / std::abs(u.dot(n))) * 10, "plane", I.transpose());
  PBT_CHECK((I - A).cross(u).norm() < 1e-9 * (1 + (I - A).norm()) * 10, "line", I.transpose());
}

static DevicePtr_t robot_;
static void moved(Src& s) {
  Poly P = polygon(s);
  gen::RobotOpts o;
  o.maxTrees = 1;
  o.maxJoints = 3;
  DevicePtr_t r = gen::robot(s, o);
  JointPtr_t j = gen::joint(s, r, true);
  Configuration_t q = gen::config(s, r);
  r->currentConfiguration(q);
  r->computeForwardKinematics();
  Transform3s oMj = gen::FK(r, q).M(j);
  if (j) s.label("on a joint");
  ConvexShape cs(P.p3, j);
  bool rev = s.coin();
  if (rev) cs.reverse();
  ConvexShapeData d;
  if (s.coin())
    d.updateToCurrentTransform(cs);
  else {
    hpp::pinocchio::DeviceSync device(r);
    device.currentConfiguration(q);
    device.computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
    d.updateToCurrentTransform(cs, device.d());
  }
  PBT_CHECK((d.center_ - oMj.act(cs.C_)).norm() < 1e-9, "center", d.center_.transpose());
  PBT_CHECK((d.normal_ - oMj.rotation() * cs.N_).norm() < 1e-9, "normal", d.normal_.transpose());
  PBT_CHECK((d.oMj_.toHomogeneousMatrix() - oMj.toHomogeneousMatrix()).norm() < 1e-9, "pose", "");
  Eigen::Vector2d p = point(s, P);
  vector3_t x = oMj.act(P.M.act(vector3_t(p[0], p[1], 0)));
  double border;
  bool in = inside(P, p, border);
  double dd = d.distance(cs, x);
  PBT_CHECK(std::abs(dd - (in ? -border : border)) < 1e-8, "distance", dd << " instead of " << (in ? -border : border));
  if (border > 1e-7) PBT_CHECK(d.isInside(cs, x) == in, "inside", in);
  // a line through x
  vector3_t u = gen::vec(s, 3, 1), n = oMj.rotation() * P.M.rotation().col(2);
  if (std::abs(u.dot(n)) < 5e-2) discard();
  vector3_t A = x + s.real(-2, 2) * u;
  PBT_CHECK((d.intersection(A, u) - x).norm() < 1e-7, "intersection", d.intersection(A, u).transpose() << " instead of " << x.transpose());
  if (border > 1e-6) PBT_CHECK(d.isInside(cs, A, u) == in, "inside-line", in);
  // aligned frame
  vector3_t y = gen::vec(s, 3, 1);
  vector3_t yp = y - y.dot(d.normal_) * d.normal_;
  if (yp.norm() < 1e-2) discard();
  Transform3s F = d.alignedPositionInJoint(cs, y);
  checkFrame(cs, F, "aligned");
  PBT_CHECK((F.rotation().col(0) - cs.N_).norm() < 1e-9, "aligned-normal", F.rotation());
  PBT_CHECK((oMj.rotation() * F.rotation().col(1) - yp.normalized()).norm() < 1e-8, "aligned-y", F.rotation());
}

static void functions(Src& s) {
  vector3_t P = gen::vec(s, 3, 2), A = gen::vec(s, 3, 2), v = gen::vec(s, 3, 2), B(9, 9, 9);
  if (s.chance(1, 3)) P = A + s.real(-.5, 1.5) * v;
  if (v.norm() < 1e-2) discard();
  s.note() << "P " << P.transpose() << " A " << A.transpose() << " v " << v.transpose();
  closestPointToSegment(P, A, v, B);
  double t = std::max(0., std::min(1., v.dot(P - A) / v.squaredNorm()));
  if (t > 0 && t < 1) s.nontrivial();
  PBT_CHECK((B - (A + t * v)).norm() < 1e-9, "closest", B.transpose() << " instead of " << (A + t * v).transpose());
  vector3_t n = gen::vec(s, 3, 1), u = gen::vec(s, 3, 1);
  if (std::abs(n.dot(u)) < 1e-2) discard();
  vector3_t I = linePlaneIntersection(A, u, P, n);
  PBT_CHECK(std::abs(n.dot(I - P)) < 1e-8 / std::abs(n.dot(u)), "plane", I.transpose());
  PBT_CHECK((I - A).cross(u).norm() < 1e-8 / std::abs(n.dot(u)), "line", I.transpose());
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C16";
  p.rule = "the polygon has at least 4 vertices (shape, local, moved), 2 points (degenerate), the closest point is interior to the segment (functions)";
  p.facets = {{"shape", 2, shape}, {"local", 4, local}, {"moved", 1, moved}, {"degenerate", 1, degenerate}, {"functions", 1, functions}};
  p.quick = 100000;
  p.thorough = 2000000;
  p.assumptions = {"vertices are in general position on an ellipse, in cyclic order (the documented precondition)",
                   "insideness is not checked within 1e-9 of the border"};
  return pbt::main(argc, argv, p);
}
