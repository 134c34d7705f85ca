// C10: explicit constraint sets: acceptance, index sets, resolution, Jacobian.
#include <hpp/constraints/explicit-constraint-set.hh>

#include "prob.hh"
using namespace pbt;
using namespace prob;

typedef ExplicitConstraintSet Set;

static std::string ids(const std::vector<long>& v) {
  std::ostringstream o;
  for (long x : v) o << x << " ";
  return o.str();
}
static std::string segs(const segments_t& v) {
  std::ostringstream o;
  for (auto& x : v) o << "[" << x.first << "+" << x.second << "]";
  return o.str();
}

struct Model {
  const World* w;
  std::vector<Con> cons;
  std::vector<int> conf, vel;  // owner of each variable
  explicit Model(const World& w_) : w(&w_), conf((std::size_t)w_.space->nq(), -1), vel((std::size_t)w_.space->nv(), -1) {}
  // does variable i depend on one of the outputs of c ?
  bool reaches(long i, const std::vector<long>& out, std::vector<bool>& seen) const {
    if (std::find(out.begin(), out.end(), i) != out.end()) return true;
    int k = conf[(std::size_t)i];
    if (k < 0 || seen[(std::size_t)k]) return false;
    seen[(std::size_t)k] = true;
    for (long j : indices(cons[(std::size_t)k].e->inputConf()))
      if (reaches(j, out, seen)) return true;
    return false;
  }
  bool accepts(const Con& c) const {
    for (auto t : c.comp)
      if (t != Equality && t != EqualToZero) return false;
    std::vector<long> out = indices(c.e->outputConf());
    for (long i : out)
      if (conf[(std::size_t)i] >= 0) return false;
    std::vector<bool> seen(cons.size(), false);
    for (long i : indices(c.e->inputConf()))
      if (reaches(i, out, seen)) return false;
    return true;
  }
  void add(const Con& c) {
    for (long i : indices(c.e->outputConf())) conf[(std::size_t)i] = (int)cons.size();
    for (long i : indices(c.e->outputVelocity())) vel[(std::size_t)i] = (int)cons.size();
    cons.push_back(c);
  }
  // positions of the constraints such that inputs are computed before
  std::vector<int> order() const {
    std::vector<int> o;
    std::vector<bool> done(cons.size(), false);
    while (o.size() < cons.size()) {
      for (std::size_t k = 0; k < cons.size(); ++k) {
        if (done[k]) continue;
        bool ok = true;
        for (long j : indices(cons[k].e->inputConf()))
          if (conf[(std::size_t)j] >= 0 && !done[(std::size_t)conf[(std::size_t)j]]) ok = false;
        if (ok) {
          done[k] = true;
          o.push_back((int)k);
        }
      }
    }
    return o;
  }
};

static void sets(const Set& set, const Model& m, const std::string& when) {
  const long nq = m.w->space->nq(), nv = m.w->space->nv();
  std::vector<long> in, out, notOut, inV, outV, notOutV;
  std::vector<bool> isIn((std::size_t)nq, false), isInV((std::size_t)nv, false);
  for (auto& c : m.cons) {
    for (long i : indices(c.e->inputConf())) isIn[(std::size_t)i] = true;
    for (long i : indices(c.e->inputVelocity())) isInV[(std::size_t)i] = true;
  }
  for (long i = 0; i < nq; ++i) {
    (m.conf[(std::size_t)i] >= 0 ? out : notOut).push_back(i);
    if (m.conf[(std::size_t)i] < 0 && isIn[(std::size_t)i]) in.push_back(i);
  }
  for (long i = 0; i < nv; ++i) {
    (m.vel[(std::size_t)i] >= 0 ? outV : notOutV).push_back(i);
    if (m.vel[(std::size_t)i] < 0 && isInV[(std::size_t)i]) inV.push_back(i);
  }
  auto cmp = [&](const char* name, const segments_t& s, long n, const std::vector<long>& e) {
    PBT_CHECK(indices(s) == e, std::string("indices-") + name, when << ": " << segs(s) << " instead of " << ids(e));
    PBT_CHECK(n == (long)e.size(), std::string("number-") + name, when << ": " << n << " indices instead of " << e.size());
  };
  cmp("inArgs", set.inArgs().indices(), set.inArgs().nbIndices(), in);
  cmp("outArgs", set.outArgs().indices(), set.outArgs().nbIndices(), out);
  cmp("notOutArgs", set.notOutArgs().indices(), set.notOutArgs().nbIndices(), notOut);
  cmp("inDers", set.inDers().indices(), set.inDers().nbIndices(), inV);
  cmp("outDers", set.outDers().indices(), set.outDers().nbIndices(), outV);
  cmp("notOutDers", set.notOutDers().indices(), set.notOutDers().nbIndices(), notOutV);
  cmp("activeParameters", set.activeParameters().indices(), set.activeParameters().nbIndices(), in);
  cmp("activeDerivativeParameters", set.activeDerivativeParameters().indices(),
      set.activeDerivativeParameters().nbIndices(), inV);
  long es = 0, rs = 0;
  for (auto& c : m.cons) {
    es += c.c->function().outputSpace()->nv();
    rs += c.c->function().outputSpace()->nq();
  }
  PBT_CHECK(set.errorSize() == es, "errorSize", when << ": " << set.errorSize() << " instead of " << es);
  PBT_CHECK(set.rightHandSideSize() == rs, "rightHandSideSize", when);
  for (auto& c : m.cons) PBT_CHECK(set.contains(c.e), "contains", when << ": " << c.desc);
}

/// set of explicit constraints in a random order
static void build(Src& s, Set& set, Model& m, bool inequalities, bool masks = false) {
  const World& w = *m.w;
  long n = s.range(1, 7);
  std::vector<Con> cand;
  for (long i = 0; i < n; ++i) {
    Con c = explicitCon(s, w, (int)i, masks);
    if (inequalities && c.kind == "custom" && c.e->function().outputSpace()->isVectorSpace() && s.chance(1, 6)) {
      c.comp[s.raw(c.comp.size())] = s.coin() ? Superior : Inferior;
      c.e = Explicit::create(w.space, c.g, c.e->inputConf(), c.e->outputConf(), c.e->inputVelocity(),
                             c.e->outputVelocity(), c.comp, c.mask);
      c.c = c.e;
      c.desc += " -> comparison " + prob::str(c.comp);
    }
    s.note() << i << ": " << c.desc << "\n";
    bool in = false;
    for (auto& x : m.cons) in |= *x.e == *c.e;
    bool yes = m.accepts(c);
    long r = set.add(c.e);
    if (yes) {
      PBT_CHECK(r == (long)m.cons.size(), "accept", "compatible constraint " << i << " refused (returns " << r << ")");
      m.add(c);
      s.label("accepted " + c.kind);
    } else {
      PBT_CHECK(r == -1, "refuse", "incompatible constraint " << i << " accepted (returns " << r << ")");
      s.label("refused");
    }
    (void)in;
    sets(set, m, "after constraint " + std::to_string(i));
  }
}

static double diff(const World& w, vectorIn_t a, vectorIn_t b) {
  // coordinates, quaternions up to their sign
  double e = 0;
  for (auto& x : w.blocks) {
    vector_t u = a.segment(x.iq, x.nq), v = b.segment(x.iq, x.nq);
    if (x.k == SO3K && u.dot(v) < 0) v = -v;
    if ((x.k == SE3K || x.k == R3SO3K) && u.tail(4).dot(v.tail(4)) < 0) v.tail(4) = -v.tail(4);
    if (x.nq) e = std::max(e, (u - v).cwiseAbs().maxCoeff());
  }
  return e;
}

static std::vector<vector_t> setRhs(Src& s, Set& set, const Model& m, double amp) {
  std::vector<vector_t> rhs;
  bool one = s.coin();
  vector_t all(set.rightHandSideSize());
  long row = 0;
  for (std::size_t k = 0; k < m.cons.size(); ++k) {
    vector_t v = s.chance(1, 4) ? vector_t(m.cons[k].c->function().outputSpace()->neutral().vector())
                                : rightHandSide(s, m.cons[k], amp);
    rhs.push_back(v);
    all.segment(row, v.size()) = v;
    row += v.size();
    if (one) {
      if (s.coin())
        set.rightHandSide(m.cons[k].e, v);
      else
        set.rightHandSide((long)k, v);
    }
    s.note() << "rhs " << k << ": " << gen::str(v) << "\n";
  }
  if (!one) set.rightHandSide(all);
  vector_t got = set.rightHandSide();
  PBT_CHECK((got - all).norm() < 1e-9 || m.cons.empty(), "rhs", "set " << gen::str(all) << "\nget " << gen::str(got));
  return rhs;
}

static void solve(Src& s) {
  World w = world(s);
  s.note() << w.desc;
  Set set(w.space);
  Model m(w);
  sets(set, m, "empty");
  bool masks = s.chance(1, 3);
  build(s, set, m, true, masks);
  std::vector<vector_t> rhs = setRhs(s, set, m, 1.2);
  Configuration_t q = config(s, w), x(q), e(q);
  s.note() << "q = " << gen::str(q) << "\n";
  set.solve(x);
  for (int k : m.order()) {
    vector_t v = outputRef(w, m.cons[(std::size_t)k], e, rhs[(std::size_t)k]);
    std::vector<long> out = indices(m.cons[(std::size_t)k].e->outputConf());
    for (std::size_t j = 0; j < out.size(); ++j) e[out[j]] = v[(long)j];
  }
  for (long i = 0; i < q.size(); ++i)
    if (m.conf[(std::size_t)i] < 0)
      PBT_CHECK(x[i] == q[i], "others", "variable " << i << " is not an output: " << q[i] << " -> " << x[i]);
  PBT_CHECK(diff(w, x, e) < 1e-8, "outputs", "solve gives " << gen::str(x) << "\ninstead of " << gen::str(e));
  PBT_CHECK(normalized(w, x), "normalized", gen::str(x));
  // every constraint holds
  vector_t err(set.errorSize());
  err.setConstant(17.);
  PBT_CHECK(set.isSatisfied(x, err, 1e-6), "satisfied", "error " << gen::str(err));
  PBT_CHECK(set.isSatisfied(x, 1e-6), "satisfied", "without error");
  PBT_CHECK(err.size() == 0 || err.cwiseAbs().maxCoeff() < 1e-6, "error", gen::str(err));
  Configuration_t y(x);
  set.solve(y);
  PBT_CHECK(diff(w, x, y) < 1e-9, "idempotent", gen::str(x) << "\nthen " << gen::str(y));
  // the error at any configuration is the one of the constraints
  set.isSatisfied(q, err, 1e-6);
  long row = 0;
  bool sat = true, edge = false;
  for (std::size_t k = 0; k < m.cons.size(); ++k) {
    const Con& c = m.cons[k];
    vector_t r = prob::error(c, q, rhs[k]);
    PBT_CHECK((err.segment(row, r.size()) - r).norm() < 1e-8, "error-of", "constraint " << k << "\n"
              << gen::str(err.segment(row, r.size())) << "\ninstead of " << gen::str(r));
    row += r.size();
    if (r.norm() > 1e-6) sat = false;
    if (std::abs(r.norm() - 1e-6) < 1e-9) edge = true;
    bool found;
    vector_t er(r.size());
    set.errorThreshold(1e-6);
    bool ok = set.isConstraintSatisfied(c.c, q, er, found);
    PBT_CHECK(found && (er - r).norm() < 1e-8, "error-one", "constraint " << k << ": " << gen::str(er) << " instead of " << gen::str(r));
    if (!edge) PBT_CHECK(ok == (r.norm() < 1e-6), "satisfied-one", "constraint " << k << " " << gen::str(r));
  }
  if (!edge) PBT_CHECK(set.isSatisfied(q, err, 1e-6) == sat, "satisfied-any", gen::str(err));
  bool chain = false;
  for (auto& c : m.cons)
    for (long i : indices(c.e->inputConf())) chain |= m.conf[(std::size_t)i] >= 0;
  if (chain) s.label("chained");
  if (m.cons.size() > 1 && diff(w, x, q) > 1e-3) s.nontrivial();
}

static void jacobians(Src& s) {
  World w = world(s);
  s.note() << w.desc;
  Set set(w.space);
  Model m(w);
  build(s, set, m, false);
  setRhs(s, set, m, .8);
  Configuration_t q = config(s, w, 1.);
  s.note() << "q = " << gen::str(q) << "\n";
  set.solve(q);
  const long nv = w.space->nv();
  matrix_t J(nv, nv);
  J.setConstant(-3.7);
  set.jacobian(J, q);
  auto nd = numdiff(w.space, w.space, [&](vectorIn_t x, LiegroupElement& y) {
    Configuration_t z(x);
    set.solve(z);
    y.vector() = z;
  }, q);
  gen::checkJacobian(J, nd, "jacobian", "of solve");
  // sub-block of outputs with respect to the others
  auto v = set.jacobianNotOutToOut(J);
  std::vector<long> o = indices(set.outDers().indices()), n = indices(set.notOutDers().indices());
  matrix_t V = v.eval();
  PBT_CHECK(V.rows() == (long)o.size() && V.cols() == (long)n.size(), "block-size", V.rows() << "x" << V.cols());
  for (std::size_t a = 0; a < o.size(); ++a)
    for (std::size_t b = 0; b < n.size(); ++b)
      PBT_CHECK(V((long)a, (long)b) == J(o[a], n[b]), "block", "entry " << a << "," << b);
  // dependencies
  Eigen::MatrixXi dep = set.inOutDofDependencies();
  std::vector<long> in = indices(set.inDers().indices());
  PBT_CHECK(dep.cols() == (long)in.size() && (in.empty() || dep.rows() == (long)o.size()), "dependency-size", "");
  if (!in.empty())
    for (std::size_t a = 0; a < o.size(); ++a)
      for (std::size_t b = 0; b < in.size(); ++b) {
        PBT_CHECK(dep((long)a, (long)b) >= 0, "dependency-sign", "");
        PBT_CHECK(dep((long)a, (long)b) > 0 || std::abs(J(o[a], in[b])) < 1e-12, "dependency",
                  "output " << o[a] << " depends on " << in[b]);
      }
  PBT_CHECK(set.inOutDependencies().rows() == (long)m.cons.size(), "dependencies", "");
  if (m.cons.size() > 1 && !in.empty()) s.nontrivial();
}

static void malformed(Src& s) {
  World w = abstractWorld(s, 1, 4, true);
  const long nq = w.space->nq();
  if (nq < 2) discard();
  s.note() << w.desc;
  Set set(w.space);
  Model m(w);
  build(s, set, m, false);
  // input and output overlap
  long a = s.range(0, nq - 2), n = s.range(1, (nq - a) / 2);
  long b = s.range(std::max(0L, a - n + 1), std::min(a + n - 1, nq - n)), k = n;
  segments_t in{segment_t(b, k)}, out{segment_t(a, n)};
  Block ib;
  ib.iq = ib.iv = b;
  ib.nq = ib.nv = k;
  ib.k = VEC;
  ib.sp = LiegroupSpace::Rn(k);
  if (k + n > nq) discard();
  auto g = Smooth::create({ib}, LiegroupSpace::Rn(n), matrix_t::Random(n, k), vector_t::Zero(n), 1, "bad");
  s.note() << "malformed " << segs(in) << " -> " << segs(out) << "\n";
  ExplicitPtr_t e = Explicit::create(w.space, g, in, out, in, out);
  bool thrown = false;
  try {
    set.add(e);
  } catch (const std::logic_error&) {
    thrown = true;
  }
  PBT_CHECK(thrown, "malformed", "no exception");
  sets(set, m, "after the malformed constraint");
  s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C10";
  p.rule = "at least two constraints are in the set and the resolution moves the configuration (solve), or some outputs depend on "
           "inputs (jacobian), or a malformed constraint is submitted";
  p.facets.push_back({"solve", 5, solve});
  p.facets.push_back({"jacobian", 3, jacobians});
  p.facets.push_back({"malformed", 1, malformed});
  p.quick = 12000;
  p.thorough = 150000;
  return pbt::main(argc, argv, p);
}
