// C17: contact functions realise the documented contact model.
#include <hpp/constraints/convex-shape-contact.hh>

#include "prob.hh"
using namespace pbt;
using namespace prob;

typedef std::vector<vector3_t> Points;
// frame of a shape computed from its points: origin at the mean of the
// vertices, x along the normal, z along the first edge
struct Shape {
  JointPtr_t joint;
  Points p;  // in the joint frame
  vector3_t c, n;
  matrix3_t R;
  Shape(const JointPtr_t& j, const Points& pts, bool reversed) : joint(j), p(pts) {
    if (reversed) std::reverse(p.begin(), p.end());
    c.setZero();
    for (auto& x : p) c += x;
    c /= (double)p.size();
    if (p.size() < 3) {
      R.setIdentity();  // points: documented frame is the one of the joint
      n = R.col(0);
      return;
    }
    n = (p[1] - p[0]).cross(p[2] - p[1]).normalized();
    vector3_t u = (p[1] - p[0]).normalized();
    R.col(0) = n;
    R.col(1) = u.cross(n);
    R.col(2) = u;
  }
  Transform3s pose(const FK& fk) const { return fk.M(joint) * Transform3s(R, c); }
  /// signed distance of a point of the plane (joint frame), negative inside
  double distance(const vector3_t& a) const {
    double d = 1e300, out = -1e300;
    for (std::size_t i = 0; i < p.size(); ++i) {
      vector3_t A = p[i], B = p[(i + 1) % p.size()], v = B - A;
      double t = std::min(1., std::max(0., v.dot(a - A) / v.squaredNorm()));
      d = std::min(d, (A + t * v - a).norm());
      // orientation given by the normal
      out = std::max(out, v.cross(n).dot(a - A));
    }
    return out > 0 ? d : -d;
  }
};

struct Case {
  World w;
  std::vector<Shape> fl, ob;
  JointAndShapes_t jfl, job;
  double margin = 0, M = 0;
  ConvexShapeContactPtr_t contact;
  ConvexShapeContactComplementPtr_t complement;
  ConvexShapeContactHoldPtr_t hold;
  bool sameF = true, sameO = true, points = false;
};
static std::string nm(const JointPtr_t& j) { return j ? j->name() : std::string("world"); }

static Case make(Src& s, bool withPoints) {
  Case c;
  RobotOpts o;
  o.freeflyers = (int)s.range(0, 2);
  c.w = robotWorld(s, o);
  s.note() << c.w.desc;
  std::vector<JointPtr_t> js;
  for (auto& b : c.w.blocks)
    if (b.joint) js.push_back(b.joint);
  if (js.empty()) discard();
  long nf = s.range(1, 3), no = s.range(1, 3);
  bool oneF = s.coin(), oneO = s.coin();
  JointPtr_t jf, jo;
  double size = s.pick({.6, 2., 4.});
  for (long i = 0; i < nf; ++i) {
    if (!i || !oneF) jf = s.chance(1, 3) ? JointPtr_t() : s.pick(js);
    c.jfl.push_back(JointAndShape_t(jf, zoo::polygon(s, size)));
  }
  for (long i = 0; i < no; ++i) {
    if (!i || !oneO) jo = s.pick(js);
    Points p = zoo::polygon(s, .3);
    if (withPoints && s.chance(1, 3)) {
      p.resize(1);
      c.points = true;
    }
    c.job.push_back(JointAndShape_t(jo, p));
  }
  auto dump = [&](const char* k, const JointAndShapes_t& v) {
    for (auto& x : v) {
      s.note() << k << " " << nm(x.first) << " ";
      for (auto& p : x.second) s.note() << gen::str(vector_t(p));
      s.note() << "\n";
    }
  };
  dump("floor", c.jfl);
  dump("object", c.job);
  for (auto& x : c.jfl) c.fl.push_back(Shape(x.first, x.second, true));
  for (auto& x : c.job) c.ob.push_back(Shape(x.first, x.second, false));
  auto idx = [](const JointPtr_t& j) { return j ? (long)j->index() : 0L; };
  for (auto& x : c.fl) c.sameF &= idx(x.joint) == idx(c.fl[0].joint);
  for (auto& x : c.ob) c.sameO &= idx(x.joint) == idx(c.ob[0].joint);
  for (auto& f : c.fl)
    for (auto& p : f.p) c.M = std::max(c.M, (p - f.c).norm());
  auto pr = ConvexShapeContactComplement::createPair("f", c.w.r, c.jfl, c.job);
  c.contact = pr.first;
  c.complement = pr.second;
  c.hold = ConvexShapeContactHold::create("h", c.w.r, c.jfl, c.job);
  if (s.coin()) {
    c.margin = s.real(0, .3);
    c.contact->setNormalMargin(c.margin);
    c.hold->contactConstraint()->setNormalMargin(c.margin);
    s.note() << "margin " << c.margin << "\n";
  }
  return c;
}

struct Expect {
  bool ok = false;  // the selection is unambiguous
  std::size_t j = 0, i = 0;
  bool inside = false;
  Transform3s rel;
  vector_t log;  // R3xSO3
  double dp = 0, dn = 0;
};
static Expect expect(const Case& c, vectorIn_t q) {
  Expect e;
  FK fk(c.w.r, q);
  std::vector<double> all;
  double best = 1e300;
  for (std::size_t j = 0; j < c.fl.size(); ++j)
    for (std::size_t i = 0; i < c.ob.size(); ++i) {
      const Shape& f = c.fl[j];
      vector3_t x = fk.M(f.joint).actInv(fk.M(c.ob[i].joint).act(c.ob[i].c));
      double dn = f.n.dot(x - f.c), dp = f.distance(x - dn * f.n);
      if (std::abs(dp) < 1e-6) return e;
      double d = dn * dn + (dp > 0 ? dp * dp : 0);
      all.push_back(d);
      if (d < best) {
        best = d;
        e.j = j;
        e.i = i;
        e.inside = dp < 0;
        e.dp = dp;
        e.dn = dn;
      }
    }
  std::sort(all.begin(), all.end());
  if (all.size() > 1 && all[1] - all[0] < 1e-7) return e;
  e.rel = c.fl[e.j].pose(fk).inverse() * c.ob[e.i].pose(fk);
  e.log.resize(6);
  e.log.head(3) = e.rel.translation();
  vector3_t r = logR(e.rel.rotation());
  if (r.norm() > M_PI - 1e-2) return e;
  e.log.tail(3) = r;
  e.ok = true;
  return e;
}
static vector_t val(const DifferentiableFunction& f, vectorIn_t q) {
  LiegroupElement y(f.outputSpace());
  y.vector().setConstant(7.7);
  f.value(y, q);
  return y.vector();
}
// joint that can be placed anywhere
static bool isFree(const JointPtr_t& j) { return j && j->configSize() == 7; }
static bool descends(const JointConstPtr_t& j, const JointConstPtr_t& a) {
  for (JointConstPtr_t k = j; k && k->index() != 0; k = k->parentJoint())
    if (k->index() == a->index()) return true;
  return false;
}
// place an object close to a floor when this is possible
static Configuration_t closeConfig(Src& s, const Case& c) {
  Configuration_t q = config(s, c.w, 1.);
  if (s.chance(1, 4)) return q;
  std::size_t j = s.raw(c.fl.size()), i = s.raw(c.ob.size());
  const Shape &f = c.fl[j], &o = c.ob[i];
  // free-flyer that moves the object and not the floor
  JointPtr_t k = o.joint;
  while (k && k->index() && !isFree(k)) k = k->parentJoint();
  if (!k || !k->index() || (f.joint && descends(f.joint, k))) return q;
  FK fk(c.w.r, q);
  vector3_t p = f.c;
  double in = s.pick({.9, 1.5});
  for (auto& v : f.p) p += (v - f.c) * (s.real(0, in) / (double)f.p.size() * 2);
  p += f.n * s.pick({0., -c.margin, s.real(-.2, .2)});
  bool exact = s.coin();
  matrix3_t R = Eigen::AngleAxisd(s.real(-3, 3), vector3_t::UnitX()).toRotationMatrix();
  if (!exact) R = R * gen::expR(vector3_t(s.real(-.5, .5), s.real(-.5, .5), s.real(-.5, .5)));
  Transform3s want = fk.M(f.joint) * Transform3s(matrix3_t(f.R * R), p);  // pose of the object
  // pose of joint k such that the object has the wanted pose
  Transform3s kTo = fk.M(k).inverse() * o.pose(fk);
  Transform3s Mk = want * kTo.inverse();
  const auto& m = c.w.r->model();
  JointIndex jk = k->index();
  Transform3s P = (m.parents[jk] ? fk.M(m.parents[jk]) : Transform3s::Identity()) * m.jointPlacements[jk];
  Transform3s T = P.inverse() * Mk;
  long iq = k->rankInConfiguration();
  q.segment<3>(iq) = T.translation();
  q.segment<4>(iq + 3) = quat(T.rotation());
  s.label(exact ? "placed" : "close");
  return q;
}

static void value(Src& s) {
  Case c = make(s, true);
  PBT_CHECK(c.contact->radius() >= c.M, "radius",
            c.contact->radius() << " with polygons of radius " << c.M);
  for (int k = 0; k < 3; ++k) {
    Configuration_t q = closeConfig(s, c);
    Expect e = expect(c, q);
    if (!e.ok) continue;
    s.note() << "q = " << gen::str(q) << "\nfloor " << e.j << " object " << e.i << (e.inside ? " inside" : " outside") << "\n";
    bool point = c.ob[e.i].p.size() == 1;
    vector_t v(5), w(3);
    v << e.log[0] + c.margin, e.inside ? 0 : e.log[1], e.inside ? 0 : e.log[2], point ? 0 : e.log[4], point ? 0 : e.log[5];
    PBT_CHECK(std::abs(e.log[0] - e.dn) < 1e-9, "oracle", e.log[0] << " " << e.dn);
    vector_t y = val(*c.contact, q);
    PBT_CHECK((y - v).norm() < 1e-8, point ? "contact-point" : "contact", gen::str(y) << "\ninstead of " << gen::str(v));
    if (e.inside) PBT_CHECK(y[1] == 0 && y[2] == 0, "inside", gen::str(y));
    if (!e.inside) PBT_CHECK(std::hypot(y[1], y[2]) > 1e-9, "outside", gen::str(y));
    double M = c.contact->radius();
    w << 2 * (double)e.j * M + (e.inside ? e.log[1] : 0), 2 * (double)e.i * M + (e.inside ? e.log[2] : 0), e.log[3];
    vector_t z = val(*c.complement, q);
    PBT_CHECK((z - w).norm() < 1e-8, "complement", gen::str(z) << "\ninstead of " << gen::str(w));
    vector_t h = val(*c.hold, q);
    PBT_CHECK((h.head(5) - v).norm() < 1e-8 && (h.tail(3) - w).norm() < 1e-8, "hold", gen::str(h));
    PBT_CHECK(h.head(5) == val(*c.hold->contactConstraint(), q) && h.tail(3) == val(*c.hold->complement(), q), "hold-parts", gen::str(h));
    // opposite normals if and only if the orientation components are zero
    if (!point) {
      double al = e.rel.rotation()(0, 0);  // cosine between the normal of the object and the one of the reversed floor
      bool zero = std::hypot(y[3], y[4]) < 1e-9, par = al > 1 - 1e-15;
      if (zero) PBT_CHECK(al > 1 - 1e-12, "parallel", "cosine " << al << " value " << gen::str(y));
      if (par) PBT_CHECK(std::hypot(y[3], y[4]) < 1e-6, "parallel", "cosine " << al << " value " << gen::str(y));
    }
    s.label(e.inside ? "inside" : "outside");
    if (point) s.label("point");
    if (c.fl.size() * c.ob.size() > 1) s.nontrivial();
  }
}

// contact and complement determine the relative pose of the shapes
static void decode(Src& s) {
  Case c = make(s, false);
  for (int k = 0; k < 3; ++k) {
    Configuration_t q = closeConfig(s, c);
    Expect e = expect(c, q);
    if (!e.ok) continue;
    s.note() << "q = " << gen::str(q) << "\nfloor " << e.j << " object " << e.i << (e.inside ? " inside" : " outside") << "\n";
    // precision of offsets
    LiegroupElement h(val(*c.hold, q), LiegroupSpace::Rn(8)), r(LiegroupSpace::R3xSO3());
    std::size_t j = 77, i = 77;
    const ConvexShapeContactComplementPtr_t& cc = s.coin() ? c.complement : c.hold->complement();
    cc->computeRelativePoseRightHandSide(h, j, i, r);
    PBT_CHECK(j == e.j && i == e.i, "pair", "floor " << j << " object " << i << " instead of " << e.j << " " << e.i);
    Transform3s T(Eigen::Quaterniond(Eigen::Vector4d(r.vector().tail<4>())).toRotationMatrix(), r.vector().head<3>());
    vector3_t t = e.rel.translation();
    t[0] += c.margin;
    PBT_CHECK((T.translation() - t).norm() < 1e-8 && (T.rotation() - e.rel.rotation()).norm() < 1e-8, "pose",
              gen::str(T) << "\ninstead of " << gen::str(e.rel) << " margin " << c.margin);
    if (e.inside && (e.j || e.i)) s.nontrivial();
    s.label(e.inside ? "inside" : "outside");
  }
}

static void points(Src& s) {
  Case c = make(s, true);
  double margin = s.pick({0., .05, .3, 2.});
  for (int k = 0; k < 3; ++k) {
    Configuration_t q = closeConfig(s, c);
    s.note() << "q = " << gen::str(q) << "\n";
    FK fk(c.w.r, q);
    struct E { std::size_t j, i; };
    std::vector<E> ex;
    bool amb = false;
    for (std::size_t i = 0; i < c.ob.size(); ++i)
      for (std::size_t j = 0; j < c.fl.size(); ++j) {
        const Shape& f = c.fl[j];
        vector3_t x = fk.M(f.joint).actInv(fk.M(c.ob[i].joint).act(c.ob[i].c));
        double dn = f.n.dot(x - f.c), dp = f.distance(x - dn * f.n);
        if (std::abs(dp) < 1e-6 || std::abs(dn - margin) < 1e-6) amb = true;
        if (dp < 0 && dn < margin) ex.push_back({j, i});
      }
    if (amb) continue;
    auto got = c.contact->computeContactPoints(q, margin);
    PBT_CHECK(got.size() == ex.size(), "number", got.size() << " contacts instead of " << ex.size());
    for (std::size_t a = 0; a < ex.size(); ++a) {
      const Shape &f = c.fl[ex[a].j], &o = c.ob[ex[a].i];
      // the order of contacts is not specified
      bool found = false;
      for (auto& g : got) {
        bool same = (g.normal - f.n).norm() < 1e-9 && g.points.size() == o.p.size();
        for (std::size_t b = 0; same && b < o.p.size(); ++b) same = (g.points[b] - o.p[b]).norm() < 1e-12;
        auto idx = [](const JointPtr_t& j) { return j ? (long)j->index() : 0L; };
        found |= same && idx(g.joint) == idx(o.joint) && idx(g.supportJoint) == idx(f.joint);
      }
      PBT_CHECK(found, "contact", "no contact between object " << ex[a].i << " and floor " << ex[a].j);
    }
    if (!ex.empty()) s.nontrivial();
  }
}

static void structure(Src& s) {
  Case c = make(s, true);
  auto idx = [](const JointConstPtr_t& j) { return j ? (long)j->index() : 0L; };
  auto chk = [&](const std::pair<JointConstPtr_t, JointConstPtr_t>& p, const char* what) {
    if (c.sameF && c.sameO) {
      long a = idx(c.fl[0].joint), b = idx(c.ob[0].joint);
      PBT_CHECK(idx(p.first) == std::min(a, b) && idx(p.second) == std::max(a, b), std::string("joints-") + what,
                idx(p.first) << " " << idx(p.second) << " instead of " << a << " " << b);
    } else
      PBT_CHECK(!p.first && !p.second, std::string("joints-") + what, idx(p.first) << " " << idx(p.second));
  };
  chk(c.contact->dependsOnRelPoseBetween(c.w.r), "contact");
  chk(c.complement->dependsOnRelPoseBetween(c.w.r), "complement");
  PBT_CHECK(c.contact->floorContactSurfaces().size() == c.fl.size() && c.contact->objectContactSurfaces().size() == c.ob.size(),
            "surfaces", "");
  for (std::size_t j = 0; j < c.fl.size(); ++j) {
    const ConvexShape& f = c.contact->floorContactSurfaces()[j];
    PBT_CHECK((f.N_ - c.fl[j].n).norm() < 1e-9 && (f.C_ - c.fl[j].c).norm() < 1e-9, "floor", j);
  }
  for (std::size_t i = 0; i < c.ob.size(); ++i) {
    const ConvexShape& o = c.contact->objectContactSurfaces()[i];
    PBT_CHECK((o.C_ - c.ob[i].c).norm() < 1e-9 && idx(o.joint_) == idx(c.ob[i].joint), "object", i);
  }
  std::ostringstream os;
  os << *c.contact << *c.complement << *c.hold;
  for (auto& x : c.fl) {
    std::string n = x.joint ? x.joint->name() : "universe";
    PBT_CHECK(os.str().find(n) != std::string::npos, "print", os.str());
  }
  // unsupported shapes are rejected by exceptions
  Configuration_t q = config(s, c.w);
  long n = s.range(1, 2);
  Points few(c.jfl[0].second.begin(), c.jfl[0].second.begin() + n);
  JointAndShapes_t bad;
  bool line = s.coin();
  if (line) {
    // lines as objects: the Jacobian is documented as unsupported
    few = Points(c.jfl[0].second.begin(), c.jfl[0].second.begin() + 2);
    bad.push_back(JointAndShape_t(c.job[0].first, few));
    auto f = ConvexShapeContact::create("line", c.w.r, {c.jfl[0]}, bad);
    bool thrown = false;
    matrix_t J(5, c.w.r->numberDof());
    try {
      f->jacobian(J, q);
    } catch (const std::logic_error&) {
      thrown = true;
    }
    PBT_CHECK(thrown, "line", "no exception");
  }
  if (c.fl.size() > 1 || c.ob.size() > 1) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C17";
  p.rule = "several pairs of surfaces (value, structure), a pair different from the first one with the object inside (decode), at least "
           "one contact (points)";
  p.facets.push_back({"value", 5, value});
  p.facets.push_back({"decode", 3, decode});
  p.facets.push_back({"points", 2, points});
  p.facets.push_back({"structure", 1, structure});
  p.quick = 40000;
  p.thorough = 500000;
  return pbt::main(argc, argv, p);
}
