#include "prob.hh"

#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/pinocchio/extra-config-space.hh>

namespace prob {

static LiegroupSpacePtr_t spaceOf(Kind k, long n) {
  switch (k) {
    case VEC: return LiegroupSpace::Rn(n);
    case SO2K: return LiegroupSpace::SO2();
    case SO3K: return LiegroupSpace::SO3();
    case SE2K: return LiegroupSpace::SE2();
    case SE3K: return LiegroupSpace::SE3();
    default: return LiegroupSpace::R3xSO3();
  }
}
static const char* kname[] = {"R", "SO2", "SO3", "SE2", "SE3", "R3xSO3"};

World abstractWorld(Src& s, int lo, int hi, bool vectorOnly) {
  World w;
  long n = s.range(lo, hi), iq = 0, iv = 0;
  w.space = LiegroupSpace::createCopy(LiegroupSpace::empty());
  w.desc = "space:";
  for (long i = 0; i < n; ++i) {
    Block b;
    b.k = vectorOnly ? VEC : (Kind)s.weighted({6, 1, 1, 1, 1, 1});
    b.sp = spaceOf(b.k, b.k == VEC ? s.range(1, 4) : 0);
    b.iq = iq;
    b.iv = iv;
    b.nq = b.sp->nq();
    b.nv = b.sp->nv();
    iq += b.nq;
    iv += b.nv;
    w.blocks.push_back(b);
    w.space = w.space * b.sp;
    w.desc += std::string(" ") + kname[b.k] + (b.k == VEC ? std::to_string(b.nq) : "");
  }
  w.desc += "\n";
  return w;
}
World robotWorld(Src& s, const RobotOpts& o) {
  World w;
  w.r = robot(s, o);
  w.space = w.r->configSpace();
  const auto& m = w.r->model();
  for (JointIndex i = 1; i < (JointIndex)m.joints.size(); ++i) {
    Block b;
    b.joint = hpp::pinocchio::Joint::create(w.r, i);
    b.iq = m.joints[i].idx_q();
    b.nq = m.joints[i].nq();
    b.iv = m.joints[i].idx_v();
    b.nv = m.joints[i].nv();
    b.sp = b.joint->configurationSpace();
    b.k = b.nq == 1 ? VEC : b.nq == 2 ? SO2K : b.nq == 4 ? (b.nv == 3 ? SE2K : VEC) : SE3K;
    w.blocks.push_back(b);
  }
  if (long d = w.r->extraConfigSpace().dimension()) {
    Block b;
    b.iq = m.nq;
    b.iv = m.nv;
    b.nq = b.nv = d;
    b.k = VEC;
    b.sp = LiegroupSpace::Rn(d);
    w.blocks.push_back(b);
  }
  w.desc = describe(w.r);
  return w;
}
World world(Src& s) {
  if (s.coin()) return abstractWorld(s, 1, 6);
  RobotOpts o;
  o.freeflyers = (int)s.range(0, 2);
  return robotWorld(s, o);
}
Configuration_t config(Src& s, const World& w, double amp) {
  if (w.r) return gen::config(s, w.r, amp);
  return element(s, w.space, amp).vector();
}
Configuration_t near(Src& s, const World& w, const Configuration_t& q, double amp) {
  if (w.r) return gen::near(s, w.r, q, amp);
  LiegroupElement e(q, w.space);
  e += vec(s, w.space->nv(), amp);
  return e.vector();
}
bool normalized(const World& w, vectorIn_t q, double tol) {
  for (auto& b : w.blocks) {
    double n = 1;
    if (b.k == SO2K) n = q.segment(b.iq, 2).norm();
    if (b.k == SO3K) n = q.segment(b.iq, 4).norm();
    if (b.k == SE2K) n = q.segment(b.iq + 2, 2).norm();
    if (b.k == SE3K || b.k == R3SO3K) n = q.segment(b.iq + 3, 4).norm();
    if (!(std::abs(n - 1) < tol)) return false;
  }
  return true;
}
// four entries of the rotation matrix of a quaternion: functions of the
// configuration must not depend on the sign of quaternions
static Eigen::Vector4d features(const Eigen::Vector4d& q, Eigen::Matrix<double, 4, 3>* D = nullptr) {
  Eigen::Matrix3d R = Eigen::Quaterniond(q).toRotationMatrix();
  static const int I[4] = {0, 1, 2, 0}, J[4] = {1, 2, 0, 0};
  Eigen::Vector4d f;
  for (int k = 0; k < 4; ++k) {
    f[k] = R(I[k], J[k]);
    // dR = R [w]x
    if (D)
      for (int a = 0; a < 3; ++a) (*D)(k, a) = (R * skew(vector3_t(vector3_t::Unit(a))))(I[k], J[k]);
  }
  return f;
}
static Eigen::Matrix<double, 4, 3> dfeatures(const Eigen::Vector4d& q) {
  Eigen::Matrix<double, 4, 3> D;
  features(q, &D);
  return D;
}
static matrix_t dqdv(const std::vector<Block>& bs, vectorIn_t q) {
  long nq = 0, nv = 0;
  for (auto& b : bs) nq += b.nq, nv += b.nv;
  matrix_t D(matrix_t::Zero(nq, nv));
  long iq = 0, iv = 0;
  for (auto& b : bs) {
    switch (b.k) {
      case VEC: D.block(iq, iv, b.nq, b.nv).setIdentity(); break;
      case SO2K:
        D(iq, iv) = -q[iq + 1];
        D(iq + 1, iv) = q[iq];
        break;
      case SO3K: D.block<4, 3>(iq, iv) = dfeatures(q.segment<4>(iq)); break;
      case SE2K: {
        double c = q[iq + 2], d = q[iq + 3];
        D(iq, iv) = c;
        D(iq, iv + 1) = -d;
        D(iq + 1, iv) = d;
        D(iq + 1, iv + 1) = c;
        D(iq + 2, iv + 2) = -d;
        D(iq + 3, iv + 2) = c;
        break;
      }
      case SE3K:
      case R3SO3K:
        if (b.k == SE3K)
          D.block<3, 3>(iq, iv) = Eigen::Quaterniond(Eigen::Vector4d(q.segment<4>(iq + 3))).toRotationMatrix();
        else
          D.block<3, 3>(iq, iv).setIdentity();
        D.block<4, 3>(iq + 3, iv + 3) = dfeatures(q.segment<4>(iq + 3));
    }
    iq += b.nq;
    iv += b.nv;
  }
  return D;
}

static vector_t phi(const std::vector<Block>& bs, vectorIn_t q) {
  vector_t f(q);
  long iq = 0;
  for (auto& b : bs) {
    if (b.k == SO3K) f.segment<4>(iq) = features(q.segment<4>(iq));
    if (b.k == SE3K || b.k == R3SO3K) f.segment<4>(iq + 3) = features(q.segment<4>(iq + 3));
    iq += b.nq;
  }
  return f;
}
Smooth::Ptr Smooth::create(const std::vector<Block>& in, const LiegroupSpacePtr_t& out, const matrix_t& A,
                           const vector_t& b, double amp, const std::string& name) {
  long nq = 0, nv = 0;
  for (auto& x : in) nq += x.nq, nv += x.nv;
  return Ptr(new Smooth(in, nq, nv, out, A, b, amp, name));
}
Smooth::Smooth(const std::vector<Block>& in, long nq, long nv, const LiegroupSpacePtr_t& out, const matrix_t& A_,
               const vector_t& b_, double amp_, const std::string& name)
    : DifferentiableFunction(nq, nv, out, name), A(A_), b(b_), amp(amp_), in_(in) {
  long iq = 0, iv = 0;
  for (auto& x : in_) {
    bool any = false;
    for (long i = 0; i < x.nq; ++i) {
      bool a = A.rows() && !A.col(iq + i).isZero(0);
      any |= a;
      if (x.k == VEC) activeParameters_[iq + i] = activeDerivativeParameters_[iv + i] = a;
    }
    if (x.k != VEC) {
      activeParameters_.segment(iq, x.nq).setConstant(any);
      activeDerivativeParameters_.segment(iv, x.nv).setConstant(any);
    }
    iq += x.nq;
    iv += x.nv;
  }
}
vector_t Smooth::ref(vectorIn_t q) const {
  vector_t u = amp * (A * phi(in_, q) + b).array().sin().matrix();
  LiegroupElement e(outputSpace()->neutral());
  e += u;
  return e.vector();
}
void Smooth::zeroAt(vectorIn_t q) { b = -A * phi(in_, q); }
void Smooth::impl_compute(LiegroupElementRef y, vectorIn_t q) const {
  ++values;
  y.vector() = ref(q);
}
void Smooth::impl_jacobian(matrixOut_t J, vectorIn_t q) const {
  ++jacobians;
  vector_t z = A * phi(in_, q) + b;
  vector_t u = amp * z.array().sin().matrix();
  matrix_t K = amp * z.array().cos().matrix().asDiagonal() * A * dqdv(in_, q);
  LiegroupElement n(outputSpace()->neutral());
  outputSpace()->dIntegrate_dv<hpp::pinocchio::DerivativeTimesInput>(n, u, K);
  J = K;
}
bool Smooth::isEqual(const DifferentiableFunction& o) const {
  const Smooth& x = dynamic_cast<const Smooth&>(o);
  return DifferentiableFunction::isEqual(o) && A.rows() == x.A.rows() && A.cols() == x.A.cols() && A == x.A &&
         b == x.b && amp == x.amp;
}

LiegroupSpacePtr_t outSpace(Src& s, bool vectorOnly) {
  switch (vectorOnly ? 0 : s.weighted({8, 1, 1, 1, 1, 1, 1})) {
    case 0: return LiegroupSpace::Rn(s.range(1, 4));
    case 1: return LiegroupSpace::SO3();
    case 2: return LiegroupSpace::SE3();
    case 3: return LiegroupSpace::R3xSO3();
    case 4: return LiegroupSpace::SE2();
    case 5: return LiegroupSpace::SO2();
    default: return LiegroupSpace::R2() * LiegroupSpace::SO3();
  }
}

static Smooth::Ptr smoothOn(Src& s, const std::vector<Block>& in, const std::vector<bool>& use, LiegroupSpacePtr_t out,
                            double amp, const std::string& name) {
  long nq = 0;
  for (auto& b : in) nq += b.nq;
  matrix_t A(matrix_t::Zero(out->nv(), nq));
  long iq = 0;
  for (std::size_t i = 0; i < in.size(); ++i) {
    if (use[i])
      for (long j = 0; j < in[i].nq; ++j) {
        if (in[i].k == VEC && s.chance(1, 4)) continue;
        for (long k = 0; k < A.rows(); ++k) A(k, iq + j) = s.real(-1, 1);
      }
    iq += in[i].nq;
  }
  return Smooth::create(in, out, A, vec(s, A.rows(), 1.), amp, name);
}

Smooth::Ptr smooth(Src& s, const World& w, const std::string& name, LiegroupSpacePtr_t out, double amp) {
  if (!out) out = outSpace(s);
  std::vector<bool> use(w.blocks.size());
  bool any = false;
  for (std::size_t i = 0; i < use.size(); ++i) any |= (use[i] = s.coin());
  if (!any) use[s.raw(use.size())] = true;
  return smoothOn(s, w.blocks, use, out, amp, name);
}

std::string str(const ComparisonTypes_t& c) {
  std::string r;
  for (auto x : c) r += x == Equality ? '=' : x == EqualToZero ? '0' : x == Superior ? '>' : '<';
  return r;
}
ComparisonTypes_t comparisons(Src& s, long n, bool all) {
  ComparisonTypes_t c((std::size_t)n, EqualToZero);
  switch (s.weighted({2, 3, 3})) {
    case 0: break;
    case 1: c.assign((std::size_t)n, Equality); break;
    default:
      for (auto& x : c) x = all ? s.pick({EqualToZero, Equality, Superior, Inferior}) : s.pick({EqualToZero, Equality});
  }
  return c;
}

Con implicit(Src& s, const World& w, int i, bool inequalities, bool partialMasks, const Configuration_t* zero) {
  Con c;
  DifferentiableFunctionPtr_t f;
  if (!w.r || s.coin()) {
    Smooth::Ptr g = smooth(s, w, "f" + std::to_string(i), LiegroupSpacePtr_t(), 1.);
    if (zero) g->zeroAt(*zero);
    f = c.g = g;
    c.kind = "smooth";
    c.desc = "smooth " + f->outputSpace()->name();
  } else {
    zoo::Fun F = s.chance(2, 3) ? zoo::pose(s, w.r) : zoo::simple(s, w.r);
    f = F.f;
    c.kind = F.kind;
    c.desc = F.desc;
    c.regular = F.regular;
  }
  long n = f->outputSpace()->nv();
  bool vs = f->outputSpace()->isVectorSpace();
  c.comp = comparisons(s, n, inequalities && vs);
  c.mask = partialMasks ? mask(s, (std::size_t)n) : std::vector<bool>((std::size_t)n, true);
  c.c = Implicit::create(f, c.comp, c.mask);
  c.desc += " comparison " + str(c.comp) + " mask " + gen::str(c.mask);
  return c;
}

std::vector<long> indices(const segments_t& s) {
  std::vector<long> r;
  for (auto& x : s)
    for (long k = 0; k < x.second; ++k) r.push_back(x.first + k);
  return r;
}
static void merge(segments_t& v, long a, long n) {
  if (!v.empty() && v.back().first + v.back().second == a)
    v.back().second += n;
  else
    v.push_back(segment_t(a, n));
}
static std::string str(const segments_t& v) {
  std::ostringstream o;
  for (auto& x : v) o << "[" << x.first << "," << x.first + x.second - 1 << "]";
  return o.str();
}

Con customExplicit(Src& s, const World& w, int i, bool partialMasks) {
  Con c;
  c.kind = "custom";
  std::size_t o = s.raw(w.blocks.size());
  const Block& ob = w.blocks[o];
  segments_t inC, inV, outC, outV;
  LiegroupSpacePtr_t out = ob.sp;
  std::vector<std::size_t> outs(1, o);
  if (ob.k == VEC && ob.nq > 1 && s.coin()) {
    long a = s.range(0, ob.nq - 1), n = s.range(1, ob.nq - a);
    outC = {segment_t(ob.iq + a, n)};
    outV = {segment_t(ob.iv + a, n)};
    out = LiegroupSpace::Rn(n);
  } else if (o + 1 < w.blocks.size() && s.chance(1, 4) && ob.nv > 0 && w.blocks[o + 1].nv > 0) {
    const Block& b2 = w.blocks[o + 1];
    outs.push_back(o + 1);
    outC = {segment_t(ob.iq, ob.nq + b2.nq)};
    outV = {segment_t(ob.iv, ob.nv + b2.nv)};
    out = ob.sp * b2.sp;
  } else {
    outC = {segment_t(ob.iq, ob.nq)};
    outV = {segment_t(ob.iv, ob.nv)};
  }
  std::vector<Block> in;
  for (std::size_t k = 0; k < w.blocks.size(); ++k) {
    const Block& b = w.blocks[k];
    if (std::find(outs.begin(), outs.end(), k) != outs.end()) continue;
    if (!s.chance(2, 5)) continue;
    Block x = b;
    if (b.k == VEC && b.nq > 1 && s.chance(1, 3)) {
      long a = s.range(0, b.nq - 1), n = s.range(1, b.nq - a);
      x.iq += a;
      x.iv += a;
      x.nq = x.nv = n;
      x.sp = LiegroupSpace::Rn(n);
    }
    in.push_back(x);
    merge(inC, x.iq, x.nq);
    merge(inV, x.iv, x.nv);
  }
  c.g = smoothOn(s, in, std::vector<bool>(in.size(), true), out, 1., "g" + std::to_string(i));
  c.comp = comparisons(s, out->nv(), false);
  c.mask = partialMasks ? mask(s, (std::size_t)out->nv()) : std::vector<bool>((std::size_t)out->nv(), true);
  c.e = Explicit::create(w.space, c.g, inC, outC, inV, outV, c.comp, c.mask);
  c.c = c.e;
  c.desc = "explicit " + str(inC) + " -> " + str(outC) + " velocity " + str(inV) + " -> " + str(outV) + " " +
           out->name() + " comparison " + str(c.comp) + " mask " + gen::str(c.mask);
  return c;
}

Con lockedJoint(Src& s, const World& w) {
  Con c;
  c.kind = "locked";
  if (!w.r) return c;
  std::size_t o = s.raw(w.blocks.size());
  const Block& b = w.blocks[o];
  LockedJointPtr_t lj;
  if (b.joint && b.k == VEC && b.nq > 0 && s.chance(1, 3)) {
    long a = s.range(0, b.nq - 1), n = s.range(1, b.nq - a);
    c.value = vec(s, n, 2);
    lj = LockedJoint::create(b.joint, a, c.value);
    c.desc = "partially locked joint " + b.joint->name() + " from " + std::to_string(a) + " " + gen::str(c.value);
  } else if (b.joint) {
    LiegroupElement v = element(s, b.sp, 1.5);
    c.value = v.vector();
    lj = LockedJoint::create(b.joint, v);
    c.desc = "locked joint " + b.joint->name() + " " + gen::str(c.value);
  } else {
    long a = s.range(0, b.nq - 1), n = s.range(1, b.nq - a);
    c.value = vec(s, n, 2);
    lj = LockedJoint::create(w.r, a, c.value);
    c.desc = "locked extra " + std::to_string(a) + " " + gen::str(c.value);
  }
  if (s.chance(1, 3)) lj->comparisonType(comparisons(s, lj->function().outputDerivativeSize(), false));
  c.e = lj;
  c.c = lj;
  c.comp = lj->comparisonType();
  c.mask.assign(c.comp.size(), true);
  c.desc += " comparison " + str(c.comp);
  return c;
}

static bool descends(const JointConstPtr_t& j, const JointConstPtr_t& a) {
  for (JointConstPtr_t k = j; k && k->index() != 0; k = k->parentJoint())
    if (k->index() == a->index()) return true;
  return false;
}
Con relativePose(Src& s, const World& w, int i) {
  Con c;
  c.kind = "relpose";
  if (!w.r) return c;
  std::vector<JointPtr_t> ff, all;
  for (auto& b : w.blocks)
    if (b.joint) {
      all.push_back(b.joint);
      if (b.k == SE3K) ff.push_back(b.joint);
    }
  if (ff.empty()) return c;
  JointPtr_t j2 = s.pick(ff), j1;
  if (s.chance(3, 4)) j1 = s.pick(all);
  if (j1 && descends(j1, j2)) return c;
  c.F1 = transform(s);
  c.F2 = transform(s);
  c.comp = comparisons(s, 6, false);
  c.mask.assign(6, true);
  c.j1 = j1;
  c.j2 = j2;
  auto rp = explicit_::RelativePose::create("rp" + std::to_string(i), w.r, j1, j2, c.F1, c.F2, c.comp, c.mask);
  c.e = rp;
  c.c = rp;
  c.desc = "relative pose " + (j1 ? j1->name() : std::string("world")) + " " + j2->name() + " F1 " + gen::str(c.F1) +
           " F2 " + gen::str(c.F2) + " comparison " + str(c.comp);
  return c;
}
Con explicitCon(Src& s, const World& w, int i, bool partialMasks) {
  Con c;
  if (w.r) switch (s.weighted({2, 1, 2})) {
      case 1: c = lockedJoint(s, w); break;
      case 2: c = relativePose(s, w, i);
      default:;
    }
  if (!c.c) c = customExplicit(s, w, i, partialMasks);
  return c;
}

vector_t outputRef(const World& w, const Con& c, vectorIn_t q, vectorIn_t rhs) {
  if (c.kind == "relpose") {
    FK fk(w.r, q);
    // placement of the joint for the zero configuration of its free-flyer
    const auto& m = w.r->model();
    JointIndex j = c.j2->index();
    Transform3s P = (m.parents[j] ? fk.M(m.parents[j]) : Transform3s::Identity()) * m.jointPlacements[j];
    Transform3s R(Eigen::Quaterniond(Eigen::Vector4d(rhs.tail<4>())).toRotationMatrix(), rhs.head<3>());
    Transform3s M = P.inverse() * (fk.M(c.j1) * c.F1 * R * c.F2.inverse());
    vector_t v(7);
    v.head<3>() = M.translation();
    v.tail<4>() = quat(M.rotation());
    return v;
  }
  LiegroupElement e(c.e->explicitFunction()->outputSpace());
  if (c.kind == "locked")
    e.vector() = c.value;
  else {
    std::vector<long> in = indices(c.e->inputConf());
    vector_t x((long)in.size());
    for (std::size_t k = 0; k < in.size(); ++k) x[(long)k] = q[in[k]];
    e.vector() = c.g->ref(x);
  }
  e += rhs;
  return e.vector();
}

vector_t rightHandSide(Src& s, const Con& c, double amp) {
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  vector_t v = vec(s, sp->nv(), amp);
  for (std::size_t i = 0; i < c.comp.size(); ++i)
    if (c.comp[i] != Equality) v[(long)i] = 0;
  LiegroupElement e(sp->neutral());
  e += v;
  return e.vector();
}

vector_t error(const Con& c, vectorIn_t q, vectorIn_t rhs, double thr) {
  LiegroupSpacePtr_t sp = c.c->function().outputSpace();
  LiegroupElement y(sp), z(rhs, sp);
  c.c->function().value(y, q);
  vector_t e = y - z;
  for (long i = 0; i < e.size(); ++i) {
    if (!c.mask[(std::size_t)i])
      e[i] = 0;
    else if (c.comp[(std::size_t)i] == Superior)
      e[i] = std::min(e[i] - thr, 0.);
    else if (c.comp[(std::size_t)i] == Inferior)
      e[i] = std::max(e[i] + thr, 0.);
  }
  return e;
}
}  // namespace prob
