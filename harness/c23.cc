// C23: static stability functions characterise equilibrium.
#include <hpp/constraints/qp-static-stability.hh>
#include <hpp/constraints/static-stability.hh>

#include "zoo.hh"
using namespace pbt;
using namespace gen;
typedef StaticStability::Contact_t Contact;
typedef StaticStability::Contacts_t Contacts;

static const vector_t GRAV = (vector_t(6) << 0, 0, -1, 0, 0, 0).finished();

// wrenches of unit forces: normals and moments about the centre of mass
static matrix_t phi(const DevicePtr_t& r, const Contacts& cs, const std::vector<JointIndex>& roots, vectorIn_t q) {
  FK fk(r, q);
  vector3_t g = com(r, fk, roots);
  matrix_t P(6, (long)cs.size());
  for (std::size_t i = 0; i < cs.size(); ++i) {
    Transform3s M = fk.M(cs[i].joint);
    vector3_t n = M.rotation() * cs[i].normal, p = M.act(cs[i].point);
    P.col((long)i).head(3) = n;
    P.col((long)i).tail(3) = (g - p).cross(n);
  }
  return P;
}

// non-negative least squares (Lawson-Hanson), with its optimality conditions
static bool nnls(const matrix_t& A, const vector_t& b, vector_t& x, double& value) {
  const long n = A.cols();
  x = vector_t::Zero(n);
  std::vector<bool> P((std::size_t)n, false);
  for (int it = 0; it < 20 * n + 50; ++it) {
    vector_t w = A.transpose() * (b - A * x);
    long best = -1;
    for (long i = 0; i < n; ++i)
      if (!P[(std::size_t)i] && w[i] > 1e-12 && (best < 0 || w[i] > w[best])) best = i;
    if (best < 0) break;
    P[(std::size_t)best] = true;
    for (int in = 0; in < 10 * n + 10; ++in) {
      std::vector<long> id;
      for (long i = 0; i < n; ++i)
        if (P[(std::size_t)i]) id.push_back(i);
      matrix_t S(A.rows(), (long)id.size());
      for (std::size_t k = 0; k < id.size(); ++k) S.col((long)k) = A.col(id[k]);
      vector_t z = S.completeOrthogonalDecomposition().solve(b);
      double a = 1;
      for (std::size_t k = 0; k < id.size(); ++k)
        if (z[(long)k] <= 0) a = std::min(a, x[id[k]] / (x[id[k]] - z[(long)k] + 1e-300));
      for (std::size_t k = 0; k < id.size(); ++k) x[id[k]] += a * (z[(long)k] - x[id[k]]);
      if (a >= 1) break;
      for (std::size_t k = 0; k < id.size(); ++k)
        if (x[id[k]] <= 1e-14) {
          x[id[k]] = 0;
          P[(std::size_t)id[k]] = false;
        }
    }
    for (long i = 0; i < n; ++i) x[i] = std::max(0., x[i]);
  }
  vector_t w = A.transpose() * (A * x - b);  // gradient / 2
  value = (A * x - b).squaredNorm();
  for (long i = 0; i < n; ++i) {
    if (w[i] < -1e-8 || x[i] < 0) return false;
    if (std::abs(w[i] * x[i]) > 1e-8) return false;
  }
  return true;
}

struct Case {
  DevicePtr_t r;
  CenterOfMassComputationPtr_t c;
  std::vector<JointIndex> roots;
  Contacts cs;
  std::vector<ConvexShapeContact::ForceData> fd;
  Configuration_t q;
  int expected = 0;  // 1: in equilibrium, -1: not in equilibrium
};
// contacts defined in the world frame around the centre of mass of a configuration
static Case make(Src& s, int maxContacts) {
  Case c;
  c.r = robot(s);
  std::string d;
  c.c = zoo::comc(s, c.r, c.roots, d);
  c.q = config(s, c.r, 1.);
  s.note() << describe(c.r) << d << "\nq = " << str(c.q) << "\n";
  FK fk(c.r, c.q);
  vector3_t g = com(c.r, fk, c.roots);
  long n = s.range(1, maxContacts);
  int kind = (int)s.weighted({3, 2, 2, 2});
  bool group = s.coin();  // contacts that share joint and normal
  JointPtr_t j = gen::joint(s, c.r, false);
  vector3_t nrm = vector3_t::UnitZ();
  std::vector<vector3_t> pts;
  double z = g[2] - s.real(.1, 1.);
  // horizontal support: angles around the centre of mass
  std::vector<double> ang;
  double off = s.real(0, 6.28);
  for (long i = 0; i < n; ++i) {
    vector3_t p;
    if (!group || i % 4 == 0) j = gen::joint(s, c.r, false);
    switch (kind) {
      case 0:  // horizontal floor, anywhere
        p = g + vector3_t(s.real(-1, 1), s.real(-1, 1), 0);
        p[2] = z;
        break;
      case 1: {  // horizontal floor, around the centre of mass: equilibrium
        double t = off + 2 * M_PI * ((double)i + s.real(-.2, .2)) / (double)n, l = s.real(.2, 1);
        p = g + vector3_t(l * std::cos(t), l * std::sin(t), 0);
        p[2] = z;
        break;
      }
      case 2: {  // horizontal floor, on one side: no equilibrium
        double t = off + s.real(-1, 1), l = s.real(.2, 1);
        p = g + vector3_t(l * std::cos(t), l * std::sin(t), 0);
        p[2] = z;
        break;
      }
      default: {
        p = g + vector3_t(s.real(-1, 1), s.real(-1, 1), s.real(-1, .2));
        if (!group || i % 4 == 0) {
          vector3_t v(s.real(-1, 1), s.real(-1, 1), s.real(-.2, 1.3));
          nrm = v.norm() > .1 ? vector3_t(v / v.norm()) : vector3_t(vector3_t::UnitZ());
        }
      }
    }
    Transform3s M = fk.M(j);
    Contact k;
    k.joint = j;
    k.point = M.actInv(p);
    k.normal = M.rotation().transpose() * nrm;
    c.cs.push_back(k);
    if (c.fd.empty() || !group || i % 4 == 0) {
      ConvexShapeContact::ForceData f;
      f.joint = j;
      f.normal = k.normal;
      c.fd.push_back(f);
    }
    c.fd.back().points.push_back(k.point);
    s.note() << "contact on " << j->name() << " at " << str(vector_t(k.point)) << " normal " << str(vector_t(k.normal)) << "\n";
  }
  if (kind == 1 && n >= 4) c.expected = 1;
  if (kind == 2) c.expected = -1;
  s.label(kind == 0 ? "floor" : kind == 1 ? "around" : kind == 2 ? "beside" : "any");
  return c;
}
static vector_t val(const DifferentiableFunction& f, vectorIn_t q) {
  LiegroupElement y(f.outputSpace());
  y.vector().setConstant(3.3);
  f.value(y, q);
  return y.vector();
}

static void checkQP(Src& s, const Case& c, const QPStaticStabilityPtr_t& f, vectorIn_t q, const char* what) {
  matrix_t P = phi(c.r, c.cs, c.roots, q);
  vector_t x;
  double v;
  if (!nnls(P, -GRAV, x, v)) return;
  vector_t y = val(*f, q);
  PBT_CHECK(y.size() == 1, "size", y.size());
  PBT_CHECK(std::abs(y[0] - v) < 1e-6, std::string("qp-") + what, "value " << y[0] << " instead of " << v << "\nforces " << str(x));
  bool eq = v < 1e-9;
  s.label(eq ? "equilibrium" : "no equilibrium");
  if (c.cs.size() > 2) s.nontrivial();
}

static void qp(Src& s) {
  Case c = make(s, s.chance(1, 10) ? 40 : 12);
  QPStaticStabilityPtr_t f = s.coin() ? QPStaticStability::create("f", c.r, c.cs, c.c) : QPStaticStability::create("f", c.r, c.fd, c.c);
  if (s.coin()) {
    Configuration_t p = config(s, c.r, 1.);
    checkQP(s, c, f, p, "any");
  }
  checkQP(s, c, f, c.q, "value");
  vector_t y = val(*f, c.q);
  // horizontal contacts: equilibrium if and only if the centre of mass projects
  // on the support polygon
  if (c.expected > 0) PBT_CHECK(y[0] < 1e-6, "support", "inside the support polygon: " << y[0]);
  if (c.expected < 0) PBT_CHECK(y[0] > 1e-6, "support", "outside the support polygon: " << y[0]);
  // the matrix of wrenches
  matrix_t P = phi(c.r, c.cs, c.roots, c.q);
  PBT_CHECK((f->phi().value() - P).norm() < 1e-8, "phi", strM(f->phi().value()) << "\ninstead of\n" << strM(P));
  Configuration_t p = near(s, c.r, c.q, .3);
  checkQP(s, c, f, p, "near");
}

static void linear(Src& s) {
  Case c = make(s, 10);
  StaticStabilityPtr_t f = StaticStability::create("f", c.r, c.cs, c.c);
  const long n = (long)c.cs.size();
  PBT_CHECK(f->outputSpace()->nv() == n + 6, "size", f->outputSpace()->name());
  for (int k = 0; k < 2; ++k) {
    Configuration_t q = k ? config(s, c.r, 1.) : c.q;
    matrix_t P = phi(c.r, c.cs, c.roots, q);
    Eigen::JacobiSVD<matrix_t> svd(P, Eigen::ComputeFullU | Eigen::ComputeFullV);
    vector_t sv = svd.singularValues();
    // well separated rank
    long rank = 0;
    bool amb = false;
    for (long i = 0; i < sv.size(); ++i) {
      if (sv[i] > 1e-4)
        ++rank;
      else if (sv[i] > 1e-14)
        amb = true;
    }
    // rounding noise stays below the threshold of the library: relative to the greatest singular value
    amb = false;
    for (long i = 0; i < sv.size(); ++i)
      if (sv[i] <= 1e-4 && sv[i] > 1e-15 * sv[0]) amb = true;
    if (amb) continue;
    matrix_t V1 = svd.matrixV().leftCols(rank), U1 = svd.matrixU().leftCols(rank);
    vector_t u = V1 * (sv.head(rank).cwiseInverse().asDiagonal() * (U1.transpose() * -GRAV));
    vector_t m = (-u).cwiseMax(0.);
    vector_t w = u + m - V1 * (V1.transpose() * m);
    vector_t tail = GRAV + P * u;
    vector_t y = val(*f, q);
    PBT_CHECK((y.tail(6) - tail).norm() < 1e-7, "residual", str(y.tail(6)) << "\ninstead of " << str(tail));
    PBT_CHECK((y.head(n) - w).norm() < 1e-6, "forces", str(y.head(n)) << "\ninstead of " << str(w));
    // the announced forces leave the same residual
    PBT_CHECK((GRAV + P * y.head(n) - y.tail(6)).norm() < 1e-6, "same-residual", "");
    PBT_CHECK((f->phi().value() - P).norm() < 1e-8, "phi", "");
    // non-negative forces and no residual: this is an equilibrium, known by the QP
    vector_t x;
    double v;
    if (y.tail(6).norm() < 1e-9 && y.head(n).minCoeff() >= 0 && nnls(P, -GRAV, x, v)) {
      PBT_CHECK(v < 1e-9, "equilibrium", v);
      s.label("balanced");
    }
    if (m.norm() > 1e-6) s.label("negative forces");
    if (n > 1) s.nontrivial();
  }
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C23";
  p.rule = "at least three contacts (qp), two contacts (linear)";
  p.facets.push_back({"qp", 3, qp});
  p.facets.push_back({"linear", 2, linear});
  p.quick = 50000;
  p.thorough = 300000;
  return pbt::main(argc, argv, p);
}
