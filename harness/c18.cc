// C18: explicit and implicit forms of a constraint agree.
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit/relative-pose.hh>

#include "sys.hh"
using namespace pbt;
using namespace prob;

static vector_t pick(vectorIn_t q, const segments_t& s) {
  std::vector<long> in = indices(s);
  vector_t x((long)in.size());
  for (std::size_t k = 0; k < in.size(); ++k) x[(long)k] = q[in[k]];
  return x;
}
static void put(Configuration_t& q, const segments_t& s, vectorIn_t v) {
  std::vector<long> out = indices(s);
  for (std::size_t j = 0; j < out.size(); ++j) q[out[j]] = v[(long)j];
}
// distance between two elements, up to the sign of quaternions
static double diff(const LiegroupSpacePtr_t& sp, vectorIn_t a, vectorIn_t b) {
  LiegroupElement x(a, sp), y(b, sp);
  vector_t d = x - y;
  return d.size() ? d.norm() : 0;
}
static LiegroupSpacePtr_t groupOf(const Con& c) { return c.e->explicitFunction()->outputSpace(); }

static vector_t outputValue(const ExplicitPtr_t& e, vectorIn_t q, vectorIn_t rhs) {
  LiegroupElement y(e->explicitFunction()->outputSpace());
  LiegroupElement r(rhs, e->function().outputSpace());
  e->outputValue(y, pick(q, e->inputConf()), r);
  return y.vector();
}
static Con con(Src& s, const World& w) {
  Con c = explicitCon(s, w, 0, s.coin());
  s.note() << w.desc << c.desc << "\n";
  s.label(c.kind);
  return c;
}
static World wrld(Src& s) {
  if (s.chance(1, 4)) return abstractWorld(s, 1, 6);
  RobotOpts o;
  o.freeflyers = (int)s.range(0, 2);
  return robotWorld(s, o);
}
static vector_t anyRhs(Src& s, const Con& c, double amp) {
  LiegroupElement e(c.c->function().outputSpace()->neutral());
  e += vec(s, e.space()->nv(), amp);
  return e.vector();
}

// q_out = outputValue (q_in, rhs) if and only if the implicit function has value rhs
static void agree(Src& s) {
  World w = wrld(s);
  Con c = con(s, w);
  if (c.mask.size()) {
    // masks do not change the relation between the functions
  }
  Configuration_t q = config(s, w), x(q);
  vector_t rhs = s.chance(1, 5) ? vector_t(c.c->function().outputSpace()->neutral().vector()) : anyRhs(s, c, 1.2);
  s.note() << "q = " << gen::str(q) << "\nrhs = " << gen::str(rhs) << "\n";
  vector_t out = outputValue(c.e, q, rhs), ref = outputRef(w, c, q, rhs);
  // the reference of locked joints does not go through the library
  PBT_CHECK(diff(groupOf(c), out, ref) < 1e-8, "output-" + c.kind, gen::str(out) << "\ninstead of " << gen::str(ref));
  put(x, c.e->outputConf(), out);
  PBT_CHECK(normalized(w, x, 1e-8), "normalized", gen::str(x));
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  LiegroupElement y(sp);
  c.c->function().value(y, x);
  double e = diff(sp, y.vector(), rhs);
  PBT_CHECK(e < 1e-7, "implicit-" + c.kind, "implicit value " << gen::str(y.vector()) << " after setting the output");
  // conversely
  if (c.regular && !c.regular(q)) discard();
  c.c->function().value(y, q);
  LiegroupElement o(groupOf(c));
  vector_t cur = pick(q, c.e->outputConf());
  vector_t back = outputValue(c.e, q, y.vector());
  PBT_CHECK(diff(groupOf(c), back, cur) < 1e-7, "converse-" + c.kind,
            "right hand side of the configuration gives " << gen::str(back) << " instead of " << gen::str(cur));
  // a small displacement of the output is detected
  Configuration_t z(x);
  LiegroupElement zo(out, groupOf(c));
  vector_t d = vec(s, groupOf(c)->nv(), 1e-2);
  zo += d;
  put(z, c.e->outputConf(), zo.vector());
  c.c->function().value(y, z);
  double m = diff(sp, y.vector(), rhs);
  PBT_CHECK(m > 1e-4 * d.norm(), "displaced-" + c.kind, "output moved by " << d.norm() << ", implicit value by " << m);
  if (diff(groupOf(c), cur, out) > 1e-3) s.nontrivial();
}

// right hand side of the constraint object
static void object(Src& s) {
  World w = wrld(s);
  Con c = con(s, w);
  Configuration_t q = config(s, w), x(q), p = config(s, w);
  for (auto t : c.comp)
    if (t != Equality && t != EqualToZero) discard();
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  LiegroupElement r(sp);
  c.c->rightHandSideFromConfig(p, r);
  put(x, c.e->outputConf(), outputValue(c.e, q, r.vector()));
  LiegroupElement y(sp);
  c.c->function().value(y, x);
  PBT_CHECK(diff(sp, y.vector(), r.vector()) < 1e-7, "from-config", gen::str(y.vector()) << " instead of " << gen::str(r.vector()));
  bool all = true;
  for (auto t : c.comp) all &= t == Equality;
  if (all && c.kind != "locked") {
    // right hand side of p: the outputs of p are recovered
    vector_t o = outputValue(c.e, p, r.vector()), cur = pick(p, c.e->outputConf());
    PBT_CHECK(diff(groupOf(c), o, cur) < 1e-7, "recovered", gen::str(o) << " instead of " << gen::str(cur));
  }
  // components of equality type only
  vector_t v = r - sp->neutral();
  for (std::size_t i = 0; i < c.comp.size(); ++i)
    if (c.comp[i] == EqualToZero && !(sp->nq() == 7 && i >= 3))
      PBT_CHECK(std::abs(v[(long)i]) < 1e-10, "zero", "component " << i << " of " << gen::str(v));
  bool some = false;
  for (auto t : c.comp) some |= t == Equality;
  if (some) s.nontrivial();
}

// Jacobian of the implicit function and of the output value
static void derivatives(Src& s) {
  World w = wrld(s);
  Con c = con(s, w);
  Configuration_t q = config(s, w, 1.2);
  if (c.regular && !c.regular(q)) discard();
  vector_t rhs = s.chance(1, 5) ? vector_t(c.c->function().outputSpace()->neutral().vector()) : anyRhs(s, c, 1.);
  s.note() << "q = " << gen::str(q) << "\nrhs = " << gen::str(rhs) << "\n";
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  // logarithm at rotations of angle pi
  LiegroupElement y(sp);
  c.c->function().value(y, q);
  if (sp->isVectorSpace() && y.vector().size()) {
    const double n = y.vector().cwiseAbs().maxCoeff();
    if (groupOf(c)->nq() != groupOf(c)->nv() && n > 2.9) discard();
  }
  auto nd = numdiff(w.space, sp, [&](vectorIn_t x, LiegroupElement& v) { c.c->function().value(v, x); }, q);
  gen::checkJacobian(jacobian(c.c->function(), q), nd, "implicit-" + c.kind, "of the implicit function");

  LiegroupElement f(groupOf(c));
  c.e->explicitFunction()->value(f, pick(q, c.e->inputConf()));
  LiegroupElement r(rhs, sp);
  std::vector<long> iv = indices(c.e->inputVelocity());
  matrix_t J(groupOf(c)->nv(), (long)iv.size());
  J.setConstant(-2.3);
  c.e->jacobianOutputValue(pick(q, c.e->inputConf()), f, r, J);
  auto no = numdiff(w.space, groupOf(c), [&](vectorIn_t x, LiegroupElement& v) { v.vector() = outputValue(c.e, x, rhs); }, q);
  // columns of the inputs
  gen::NumDiff ni;
  ni.J.resize(no.J.rows(), J.cols());
  ni.ok.resize(no.J.rows(), J.cols());
  std::vector<bool> in((std::size_t)w.space->nv(), false);
  for (std::size_t k = 0; k < iv.size(); ++k) {
    ni.J.col((long)k) = no.J.col(iv[k]);
    ni.ok.col((long)k) = no.ok.col(iv[k]);
    in[(std::size_t)iv[k]] = true;
  }
  gen::checkJacobian(J, ni, "output-" + c.kind, "of the output value");
  for (long k = 0; k < w.space->nv(); ++k)
    if (!in[(std::size_t)k])
      for (long i = 0; i < no.J.rows(); ++i)
        PBT_CHECK(!no.ok(i, k) || std::abs(no.J(i, k)) < 1e-6, "inputs-" + c.kind, "the output depends on velocity " << k);
  if (J.size() && J.norm() > 1e-3) s.nontrivial();
}

// ---------------------------------------------------------------- contacts
struct Contact {
  World w;
  JointPtr_t obj;
  JointAndShapes_t fl, ob;
  double margin = 0;
  ImplicitPtr_t contact, complement;
  ExplicitPtr_t hold;
  std::vector<ConvexShape> cf, co;
  // signed distance from the projected centre (negative inside), height
  void pair(const FK& fk, std::size_t j, std::size_t i, double& dp, double& dn) const {
    const ConvexShape &f = cf[j], &o = co[i];
    Transform3s Mf = fk.M(f.joint_), Mo = fk.M(o.joint_);
    vector3_t c = Mf.actInv(Mo.act(o.C_));
    dn = f.N_.dot(c - f.C_);
    vector3_t p = c - dn * f.N_;
    dp = f.distanceLocal(p);
  }
};
static bool descends(const JointConstPtr_t& j, const JointConstPtr_t& a) {
  for (JointConstPtr_t k = j; k && k->index() != 0; k = k->parentJoint())
    if (k->index() == a->index()) return true;
  return false;
}
static Contact contact(Src& s) {
  Contact c;
  RobotOpts o;
  o.freeflyers = (int)s.range(1, 2);
  o.maxTrees = 2;
  c.w = robotWorld(s, o);
  std::vector<JointPtr_t> ff, fj;
  for (auto& b : c.w.blocks)
    if (b.joint && b.k == SE3K) ff.push_back(b.joint);
  if (ff.empty()) discard();
  c.obj = s.pick(ff);
  fj.push_back(JointPtr_t());
  for (auto& b : c.w.blocks)
    if (b.joint && !descends(b.joint, c.obj)) fj.push_back(b.joint);
  s.note() << c.w.desc;
  long nf = s.range(1, 3), no = s.range(1, 3);
  bool same = s.coin();
  JointPtr_t jf = s.pick(fj);
  for (long i = 0; i < nf; ++i) {
    if (i && !same) jf = s.pick(fj);
    c.fl.push_back(JointAndShape_t(jf, zoo::polygon(s, s.coin() ? 2. : .6)));
    s.note() << "floor on " << (jf ? jf->name() : std::string("world"));
    for (auto& p : c.fl.back().second) s.note() << gen::str(vector_t(p));
    s.note() << "\n";
  }
  for (long i = 0; i < no; ++i) {
    c.ob.push_back(JointAndShape_t(c.obj, zoo::polygon(s, .3)));
    s.note() << "object on " << c.obj->name();
    for (auto& p : c.ob.back().second) s.note() << gen::str(vector_t(p));
    s.note() << "\n";
  }
  c.margin = s.coin() ? s.real(0, .1) : 0;
  s.note() << "margin " << c.margin << "\n";
  auto t = explicit_::ConvexShapeContact::createConstraintAndComplement("contact", c.w.r, c.fl, c.ob, c.margin);
  c.contact = std::get<0>(t);
  c.complement = std::get<1>(t);
  c.hold = std::get<2>(t);
  if (s.chance(1, 3)) {
    s.label("copy");
    c.hold = HPP_DYNAMIC_PTR_CAST(Explicit, c.hold->copy());
    PBT_CHECK(c.hold, "copy", "copy is not explicit");
  }
  for (auto& x : c.fl) {
    c.cf.push_back(ConvexShape(x.second, x.first));
    c.cf.back().reverse();
  }
  for (auto& x : c.ob) c.co.push_back(ConvexShape(x.second, x.first));
  return c;
}
// configuration where the given object surface is placed on the given floor
static Configuration_t place(Src& s, const Contact& c, const Configuration_t& q0, std::size_t j, std::size_t i) {
  const ConvexShape &f = c.cf[j], &o = c.co[i];
  // point of the floor: convex combination of its vertices and of its centre
  vector3_t p = f.C_;
  for (auto& v : f.Pts_) p += (v - f.C_) * (s.real(0, .9) / (double)f.Pts_.size());
  p -= c.margin * f.N_;
  double a = s.real(-3, 3);
  Transform3s F(f.MinJoint_);
  F.translation() = p;
  Transform3s R = Transform3s::Identity();
  R.rotation() = Eigen::AngleAxisd(a, vector3_t::UnitX()).toRotationMatrix();
  FK fk(c.w.r, q0);
  const auto& m = c.w.r->model();
  JointIndex jo = c.obj->index();
  Transform3s P = (m.parents[jo] ? fk.M(m.parents[jo]) : Transform3s::Identity()) * m.jointPlacements[jo];
  Transform3s M = P.inverse() * (fk.M(f.joint_) * F * R * o.MinJoint_.inverse());
  Configuration_t q(q0);
  long iq = c.obj->rankInConfiguration();
  q.segment<3>(iq) = M.translation();
  q.segment<4>(iq + 3) = quat(M.rotation());
  return q;
}
// is (j, i) the selected pair, with some margin ?
static bool selected(const Contact& c, vectorIn_t q, std::size_t j, std::size_t i) {
  FK fk(c.w.r, q);
  double dp, dn;
  c.pair(fk, j, i, dp, dn);
  if (dp > -1e-6) return false;
  for (std::size_t a = 0; a < c.cf.size(); ++a)
    for (std::size_t b = 0; b < c.co.size(); ++b) {
      if (a == j && b == i) continue;
      double p, n;
      c.pair(fk, a, b, p, n);
      if (std::abs(p) < 1e-6 || n * n + (p > 0 ? p * p : 0) < dn * dn + 1e-8) return false;
    }
  return true;
}

static void contacts(Src& s) {
  Contact c = contact(s);
  const World& w = c.w;
  std::size_t j = s.raw(c.cf.size()), i = s.raw(c.co.size());
  Configuration_t q = place(s, c, config(s, w, 1.), j, i);
  if (!selected(c, q, j, i)) discard();
  s.note() << "contact " << j << " " << i << " at q = " << gen::str(q) << "\n";
  // placement as documented
  LiegroupElement v5(LiegroupSpace::Rn(5)), v3(LiegroupSpace::Rn(3)), v8(LiegroupSpace::Rn(8));
  c.contact->function().value(v5, q);
  PBT_CHECK(v5.vector().norm() < 1e-7, "contact-placed", gen::str(v5.vector()));
  c.complement->function().value(v3, q);
  c.hold->function().value(v8, q);
  PBT_CHECK((v8.vector().head(5) - v5.vector()).norm() < 1e-10 && (v8.vector().tail(3) - v3.vector()).norm() < 1e-10,
            "concatenation", gen::str(v8.vector()) << "\nwith " << gen::str(v5.vector()) << " and " << gen::str(v3.vector()));
  // right hand side from a configuration in contact
  LiegroupElement rhs(LiegroupSpace::Rn(8)), r3(LiegroupSpace::Rn(3));
  c.hold->rightHandSideFromConfig(q, rhs);
  c.complement->rightHandSideFromConfig(q, r3);
  PBT_CHECK(rhs.vector().head(5).norm() == 0 && (rhs.vector().tail(3) - r3.vector()).norm() < 1e-10, "rhs", gen::str(rhs.vector()));
  // any other configuration of the inputs
  Configuration_t x = config(s, w, 1.5);
  vector_t out = outputValue(c.hold, x, rhs.vector());
  put(x, c.hold->outputConf(), out);
  s.note() << "x = " << gen::str(x) << "\n";
  PBT_CHECK(normalized(w, x, 1e-8), "normalized", gen::str(x));
  // relative pose of the surfaces
  FK f0(w.r, q), f1(w.r, x);
  auto rel = [&](const FK& f) {
    return Transform3s((f.M(c.cf[j].joint_) * c.cf[j].MinJoint_).inverse() * (f.M(c.obj) * c.co[i].MinJoint_));
  };
  Transform3s A = rel(f0), B = rel(f1);
  PBT_CHECK((A.translation() - B.translation()).norm() < 1e-7 && (A.rotation() - B.rotation()).norm() < 1e-7, "relative-pose",
            gen::str(A) << "\nthen " << gen::str(B));
  bool moved = diff(LiegroupSpace::SE3(), pick(q, c.hold->outputConf()), out) > 1e-3;
  if (selected(c, x, j, i)) {
    c.contact->function().value(v5, x);
    PBT_CHECK(v5.vector().norm() < 1e-6, "contact", gen::str(v5.vector()));
    c.complement->function().value(v3, x);
    vector_t d = v3.vector() - r3.vector();
    d[2] -= 2 * M_PI * std::round(d[2] / (2 * M_PI));
    PBT_CHECK(d.norm() < 1e-6, "complement", gen::str(v3.vector()) << " instead of " << gen::str(r3.vector()));
    s.label("selected after");
    if (moved) s.nontrivial();
  }
}

static void contactDerivatives(Src& s) {
  Contact c = contact(s);
  const World& w = c.w;
  std::size_t j = s.raw(c.cf.size()), i = s.raw(c.co.size());
  Configuration_t q = place(s, c, config(s, w, 1.), j, i);
  if (!selected(c, q, j, i)) discard();
  LiegroupElement rhs(LiegroupSpace::Rn(8));
  c.hold->rightHandSideFromConfig(q, rhs);
  Configuration_t x = config(s, w, 1.2);
  s.note() << "x = " << gen::str(x) << "\n";
  LiegroupElement f(LiegroupSpace::SE3());
  c.hold->explicitFunction()->value(f, pick(x, c.hold->inputConf()));
  std::vector<long> iv = indices(c.hold->inputVelocity());
  matrix_t J(6, (long)iv.size());
  J.setConstant(-2.3);
  c.hold->jacobianOutputValue(pick(x, c.hold->inputConf()), f, rhs, J);
  auto no = numdiff(w.space, LiegroupSpace::SE3(),
                    [&](vectorIn_t y, LiegroupElement& v) { v.vector() = outputValue(c.hold, y, rhs.vector()); }, x);
  gen::NumDiff ni;
  ni.J.resize(6, J.cols());
  ni.ok.resize(6, J.cols());
  for (std::size_t k = 0; k < iv.size(); ++k) {
    ni.J.col((long)k) = no.J.col(iv[k]);
    ni.ok.col((long)k) = no.ok.col(iv[k]);
  }
  gen::checkJacobian(J, ni, "contact-jacobian", "of the output value");
  bool several = false;
  for (auto& z : c.cf) several |= z.joint_ != c.cf[0].joint_;
  if (several) s.label("several joints");
  if (J.size() && J.norm() > 1e-3) s.nontrivial();
}

// the solver with the three constraints or with the explicit one
static void contactSolver(Src& s) {
  Contact c = contact(s);
  const World& w = c.w;
  std::size_t j = s.raw(c.cf.size()), i = s.raw(c.co.size());
  Configuration_t q = place(s, c, config(s, w, 1.), j, i);
  if (!selected(c, q, j, i)) discard();
  solver::BySubstitution b(w.space);
  b.errorThreshold(1e-5);
  b.maxIterations(20);
  PBT_CHECK(b.add(c.hold), "add", "not added");
  PBT_CHECK(b.explicitConstraintSet().contains(c.hold), "explicit", "hold constraint not handled as explicit");
  b.rightHandSideFromConfig(q);
  Configuration_t x = config(s, w, 1.5);
  Configuration_t x0(x);
  auto st = b.solve(x);
  s.note() << "solution " << gen::str(x) << "\n";
  if (!selected(c, x, j, i)) discard();
  PBT_CHECK(st == solver::HierarchicalIterative::SUCCESS, "solve", "status " << (int)st);
  LiegroupElement v5(LiegroupSpace::Rn(5));
  c.contact->function().value(v5, x);
  PBT_CHECK(v5.vector().norm() < 1e-5, "contact", gen::str(v5.vector()));
  std::vector<long> out = indices(c.hold->outputConf());
  for (long k = 0; k < x.size(); ++k)
    if (std::find(out.begin(), out.end(), k) == out.end()) PBT_CHECK(x[k] == x0[k], "others", "variable " << k);
  if ((x - x0).norm() > 1e-3) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C18";
  p.rule = "the outputs of the configuration are moved (agree, contact, solver), the Jacobian is not zero (derivatives), some component "
           "is of equality type (object)";
  p.facets.push_back({"agree", 4, agree});
  p.facets.push_back({"object", 2, object});
  p.facets.push_back({"derivatives", 3, derivatives});
  p.facets.push_back({"contact", 3, contacts});
  p.facets.push_back({"contactDerivatives", 2, contactDerivatives});
  p.facets.push_back({"contactSolver", 1, contactSolver});
  p.quick = 50000;
  p.thorough = 600000;
  return pbt::main(argc, argv, p);
}
