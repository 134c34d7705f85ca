// C04: combinators of functions.
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/symbolic-function.hh>

#include "prob.hh"
using namespace pbt;
using namespace prob;

namespace {
// a function together with its reference
struct Node {
  DifferentiableFunctionPtr_t f;
  LiegroupSpacePtr_t out;
  std::string desc;
  std::function<vector_t(vectorIn_t)> value;
  std::function<matrix_t(vectorIn_t)> jac;
  ArrayXb act, actV;
  bool exact = true;    // active parameters are exactly those
  bool diff = true;     // the Jacobian is the derivative of the value
  int combinators = 0;
};
LiegroupSpacePtr_t mul(const LiegroupSpacePtr_t& a, const LiegroupSpacePtr_t& b) {
  LiegroupSpacePtr_t c = LiegroupSpace::createCopy(a);
  *c *= b;
  return c;
}
World part(const World& w, std::size_t i, std::size_t n) {
  World x;
  x.space = LiegroupSpace::createCopy(LiegroupSpace::empty());
  long iq = 0, iv = 0;
  for (std::size_t k = i; k < i + n; ++k) {
    Block b(w.blocks[k]);
    b.iq = iq;
    b.iv = iv;
    iq += b.nq;
    iv += b.nv;
    x.blocks.push_back(b);
    x.space = mul(x.space, b.sp);
  }
  return x;
}
bool same(const LiegroupSpacePtr_t& sp, const vector_t& a, const vector_t& b, double tol = 1e-9) {
  if (a.size() != b.size() || a.size() != sp->nq()) return false;
  vector_t d = LiegroupElement(a, sp) - LiegroupElement(b, sp);
  return d.size() == 0 || d.cwiseAbs().maxCoeff() <= tol * (1 + a.cwiseAbs().maxCoeff());
}
NumDiff num(const World& w, const Node& n, vectorIn_t q) {
  return numdiff(w.space, n.out, [&](vectorIn_t x, LiegroupElement& y) { y.vector() = n.value(x); }, q);
}

Node node(Src& s, const World& w, int depth);

Node leaf(Src& s, const World& w) {
  Node n;
  long nq = w.space->nq(), nv = w.space->nv();
  std::vector<int> kinds{0, 3};
  if (nq == nv) kinds.push_back(1), kinds.push_back(1);
  kinds.push_back(2);
  kinds.push_back(0);
  int k = s.pick(kinds);
  switch (k) {
    case 0: {
      auto f = smooth(s, w, "smooth");
      n.f = f;
      n.out = f->outputSpace();
      n.value = [f](vectorIn_t q) { return f->ref(q); };
      World ww(w);
      auto out = n.out;
      n.jac = [f](vectorIn_t q) { return gen::jacobian(*f, q); };
      n.act = f->activeParameters();
      n.actV = f->activeDerivativeParameters();
      n.desc = "smooth";
      break;
    }
    case 1: {
      long m = s.range(1, 4);
      matrix_t A(matrix_t::Zero(m, nv));
      for (long i = 0; i < m; ++i)
        for (long j = 0; j < nv; ++j)
          if (s.coin()) A(i, j) = s.real(-2, 2);
      vector_t b(vector_t::Zero(m));
      if (s.coin()) {
        b = vec(s, m, 2.);
        n.f = AffineFunction::create(A, b);
      } else
        n.f = AffineFunction::create(A);
      n.out = LiegroupSpace::Rn(m);
      n.value = [A, b](vectorIn_t q) { return vector_t(A * q + b); };
      n.jac = [A](vectorIn_t) { return A; };
      n.act = (A.array() != 0).colwise().any();
      n.actV = n.act;
      n.desc = "affine";
      break;
    }
    case 2: {
      LiegroupSpacePtr_t sp = outSpace(s);
      LiegroupElement e = element(s, sp);
      if (sp->isVectorSpace() && s.coin())
        n.f = ConstantFunction::create(e.vector(), nq, nv);
      else
        n.f = ConstantFunction::create(e, nq, nv);
      n.out = sp;
      vector_t v(e.vector());
      long m = sp->nv();
      n.value = [v](vectorIn_t) { return v; };
      n.jac = [m, nv](vectorIn_t) { return matrix_t(matrix_t::Zero(m, nv)); };
      n.act.setConstant(nq, false);
      n.actV.setConstant(nv, false);
      n.exact = false;
      n.desc = "constant";
      break;
    }
    default:
      n.f = Identity::create(w.space, "id");
      n.out = w.space;
      n.value = [](vectorIn_t q) { return vector_t(q); };
      n.jac = [nv](vectorIn_t) { return matrix_t(matrix_t::Identity(nv, nv)); };
      n.act.setConstant(nq, true);
      n.actV.setConstant(nv, true);
      n.desc = "id";
  }
  return n;
}

Node setNode(Src& s, const World& w, int depth) {
  Node n;
  long k = s.range(1, 4);
  auto fs = DifferentiableFunctionSet::create("set");
  std::vector<Node> c;
  for (long i = 0; i < k; ++i) c.push_back(node(s, w, depth - 1));
  // functions are added one by one, or another set is merged
  long direct = s.range(0, k);
  auto other = DifferentiableFunctionSet::create("other");
  for (long i = 0; i < k; ++i) (i < direct ? fs : other)->add(c[(std::size_t)i].f);
  if (direct < k) fs->merge(other);
  PBT_CHECK((long)fs->functions().size() == k, "functions", fs->functions().size() << " functions");
  for (long i = 0; i < k; ++i) PBT_CHECK(fs->functions()[(std::size_t)i] == c[(std::size_t)i].f, "functions", "function " << i);
  n.f = fs;
  n.out = LiegroupSpace::createCopy(LiegroupSpace::empty());
  n.desc = "set(";
  n.act.setConstant(w.space->nq(), false);
  n.actV.setConstant(w.space->nv(), false);
  for (auto& x : c) {
    n.out = mul(n.out, x.out);
    n.desc += x.desc + ",";
    n.act = n.act || x.act;
    n.actV = n.actV || x.actV;
    n.exact &= x.exact;
    n.diff &= x.diff;
    n.combinators += x.combinators;
  }
  ++n.combinators;
  n.desc += ")";
  long nq = n.out->nq(), nv = n.out->nv(), cols = w.space->nv();
  n.value = [c, nq](vectorIn_t q) {
    vector_t v(nq);
    long r = 0;
    for (auto& x : c) {
      vector_t y = x.value(q);
      v.segment(r, y.size()) = y;
      r += y.size();
    }
    return v;
  };
  n.jac = [c, nv, cols](vectorIn_t q) {
    matrix_t J(nv, cols);
    long r = 0;
    for (auto& x : c) {
      matrix_t y = x.jac(q);
      J.middleRows(r, y.rows()) = y;
      r += y.rows();
    }
    return J;
  };
  return n;
}

Node subsetNode(Src& s, const World& w, int depth) {
  std::size_t nb = w.blocks.size(), i = (std::size_t)s.range(0, (long)nb - 1), k = (std::size_t)s.range(1, (long)(nb - i));
  World p = part(w, i, k);
  Node c = node(s, p, depth - 1), n(c);
  segment_t sa(w.blocks[i].iq, p.space->nq()), sd(w.blocks[i].iv, p.space->nv());
  long nq = w.space->nq(), nv = w.space->nv();
  n.f = function::OfParameterSubset::create(c.f, nq, nv, sa, sd);
  n.act.setConstant(nq, false);
  n.actV.setConstant(nv, false);
  n.act.segment(sa.first, sa.second) = c.act;
  n.actV.segment(sd.first, sd.second) = c.actV;
  n.value = [c, sa](vectorIn_t q) { return c.value(q.segment(sa.first, sa.second)); };
  n.jac = [c, sa, sd, nv](vectorIn_t q) {
    matrix_t j = c.jac(q.segment(sa.first, sa.second)), J(matrix_t::Zero(j.rows(), nv));
    J.middleCols(sd.first, sd.second) = j;
    return J;
  };
  n.desc = "subset[" + std::to_string(sa.first) + ":" + std::to_string(sa.second) + "](" + c.desc + ")";
  ++n.combinators;
  return n;
}

// difference of the values for two isomorphic intervals of parameters
bool differenceNode(Src& s, const World& w, int depth, Node& n) {
  struct Pair {
    std::size_t i, j, k;
  };
  std::vector<Pair> pairs;
  std::size_t nb = w.blocks.size();
  for (std::size_t k = 1; k <= nb; ++k)
    for (std::size_t i = 0; i + k <= nb; ++i)
      for (std::size_t j = 0; j + k <= nb; ++j) {
        if (i == j) continue;
        bool ok = true;
        for (std::size_t a = 0; a < k; ++a)
          ok &= w.blocks[i + a].k == w.blocks[j + a].k && w.blocks[i + a].nq == w.blocks[j + a].nq;
        if (ok) pairs.push_back({i, j, k});
      }
  if (pairs.empty()) return false;
  Pair c = s.pick(pairs);
  World p = part(w, c.i, c.k);
  Node in = node(s, p, depth - 1);
  if (!in.diff) return false;
  n = in;
  segment_t la(w.blocks[c.i].iq, p.space->nq()), lv(w.blocks[c.i].iv, p.space->nv()), ra(w.blocks[c.j].iq, p.space->nq()),
      rv(w.blocks[c.j].iv, p.space->nv());
  long nq = w.space->nq(), nv = w.space->nv();
  n.f.reset(new function::Difference(in.f, nq, nv, la, lv, ra, rv));
  n.out = LiegroupSpace::Rn(in.out->nv());
  n.act.setConstant(nq, false);
  n.actV.setConstant(nv, false);
  for (long k = 0; k < la.second; ++k) {
    if (in.act[k]) n.act[la.first + k] = n.act[ra.first + k] = true;
  }
  for (long k = 0; k < lv.second; ++k) {
    if (in.actV[k]) n.actV[lv.first + k] = n.actV[rv.first + k] = true;
  }
  n.value = [in, la, ra](vectorIn_t q) {
    LiegroupElement l(in.value(q.segment(la.first, la.second)), in.out), r(in.value(q.segment(ra.first, ra.second)), in.out);
    return vector_t(l - r);
  };
  LiegroupSpacePtr_t osp = in.out;
  n.jac = [in, la, lv, ra, rv, nv, osp](vectorIn_t q) {
    vector_t ql = q.segment(la.first, la.second), qr = q.segment(ra.first, ra.second);
    matrix_t jl = in.jac(ql), jr = in.jac(qr);
    vector_t l = in.value(ql), r = in.value(qr);
    matrix_t J(matrix_t::Zero(jl.rows(), nv));
    if (osp->isVectorSpace()) {
      J.middleCols(lv.first, lv.second) += jl;
      J.middleCols(rv.first, rv.second) -= jr;
    } else {
      // derivatives of the difference of two elements, numerically
      LiegroupSpacePtr_t R = LiegroupSpace::Rn(osp->nv());
      NumDiff D1 = numdiff(osp, R, [&](vectorIn_t x, LiegroupElement& y) {
        y.vector() = LiegroupElement(x, osp) - LiegroupElement(r, osp);
      }, l);
      NumDiff D0 = numdiff(osp, R, [&](vectorIn_t x, LiegroupElement& y) {
        y.vector() = LiegroupElement(l, osp) - LiegroupElement(x, osp);
      }, r);
      // rotations of pi: the difference is not continuous
      if (D0.unreliable || D1.unreliable) discard();
      J.middleCols(lv.first, lv.second) += D1.J * jl;
      J.middleCols(rv.first, rv.second) += D0.J * jr;
    }
    return J;
  };
  n.desc = "difference[" + std::to_string(la.first) + "-" + std::to_string(ra.first) + ":" + std::to_string(la.second) + "](" +
           in.desc + ")";
  ++n.combinators;
  return true;
}

Node activeSetNode(Src& s, const World& w, int depth) {
  Node c = node(s, w, depth - 1), n(c);
  long nv = w.space->nv();
  segments_t seg;
  long k = s.range(0, 2);
  std::vector<bool> zero((std::size_t)nv, false);
  n.desc = "active[";
  for (long i = 0; i < k; ++i) {
    long a = s.range(0, nv - 1), b = s.range(1, nv - a);
    seg.push_back(segment_t(a, b));
    n.desc += std::to_string(a) + ":" + std::to_string(b) + " ";
    for (long j = a; j < a + b; ++j) zero[(std::size_t)j] = true;
  }
  n.desc += "](" + c.desc + ")";
  auto f = std::make_shared<ActiveSetDifferentiableFunction>(c.f, seg);
  PBT_CHECK(f->functionPtr() == c.f && &f->function() == c.f.get(), "active-function", "inner function");
  n.f = f;
  n.jac = [c, zero](vectorIn_t q) {
    matrix_t J = c.jac(q);
    for (std::size_t j = 0; j < zero.size(); ++j)
      if (zero[j]) J.col((long)j).setZero();
    return J;
  };
  for (std::size_t j = 0; j < zero.size(); ++j)
    if (zero[j]) n.actV[(long)j] = false;
  n.exact = false;
  n.diff = c.diff && k == 0;
  ++n.combinators;
  return n;
}

// function expressed by the symbolic calculus
bool symbolicNode(Src& s, const World& w, int depth, Node& n) {
  Node c = node(s, w, depth - 1);
  if (!c.out->isVectorSpace()) return false;
  typedef FunctionExp<DifferentiableFunction> E;
  n = c;
  long nq = w.space->nq(), nv = w.space->nv();
  auto e = E::create(c.f);
  n.f = SymbolicFunction<E>::create("symbolic", nq, nv, c.out->nq(), e);
  n.exact = false;
  n.desc = "symbolic(" + c.desc + ")";
  ++n.combinators;
  return true;
}

Node node(Src& s, const World& w, int depth) {
  if (depth > 0) {
    Node n;
    switch (s.weighted({2, 3, 3, 3, 2, 1})) {
      case 1: return setNode(s, w, depth);
      case 2: return subsetNode(s, w, depth);
      case 3:
        if (differenceNode(s, w, depth, n)) return n;
        return setNode(s, w, depth);
      case 4: return activeSetNode(s, w, depth);
      case 5:
        if (symbolicNode(s, w, depth, n)) return n;
        return subsetNode(s, w, depth);
      default: break;
    }
  }
  return leaf(s, w);
}

World twice(Src& s) {
  World w = abstractWorld(s, 1, 3);
  if (s.chance(2, 3)) {
    // repeat blocks, so that there are isomorphic intervals
    std::size_t n = w.blocks.size();
    long k = s.range(1, 3);
    for (long a = 0; a < k; ++a) {
      Block b(w.blocks[(std::size_t)s.range(0, (long)n - 1)]);
      b.iq = w.space->nq();
      b.iv = w.space->nv();
      w.blocks.push_back(b);
      w.space = mul(w.space, b.sp);
      w.desc += " +R/G" + std::to_string(b.nq);
    }
  }
  return w;
}

void check(Src& s, const World& w, const Node& n) {
  s.note() << w.desc << n.desc << "\n";
  const DifferentiableFunction& f = *n.f;
  PBT_CHECK(f.inputSize() == w.space->nq() && f.inputDerivativeSize() == w.space->nv(), "input-size",
            n.desc << " " << f.inputSize() << " " << f.inputDerivativeSize());
  PBT_CHECK(f.outputSize() == n.out->nq() && f.outputDerivativeSize() == n.out->nv(), "output-size",
            n.desc << " " << f.outputSize() << " " << f.outputDerivativeSize());
  PBT_CHECK(f.activeParameters().size() == w.space->nq() && f.activeDerivativeParameters().size() == w.space->nv(), "active-size",
            n.desc);
  // dependencies are all declared; nothing else is for exact combinators
  for (long i = 0; i < n.act.size(); ++i)
    PBT_CHECK(n.exact ? f.activeParameters()[i] == n.act[i] : (f.activeParameters()[i] || !n.act[i]), "active",
              n.desc << "\nparameter " << i << ": " << f.activeParameters().transpose() << "\nexpected " << n.act.transpose());
  for (long i = 0; i < n.actV.size(); ++i)
    PBT_CHECK(n.exact ? f.activeDerivativeParameters()[i] == n.actV[i] : (f.activeDerivativeParameters()[i] || !n.actV[i]),
              "active-derivative",
              n.desc << "\nparameter " << i << ": " << f.activeDerivativeParameters().transpose() << "\nexpected " << n.actV.transpose());
  long k = s.range(1, 3);
  for (long a = 0; a < k; ++a) {
    Configuration_t q = prob::config(s, w);
    s.note() << "q " << str(q) << "\n";
    bool first = s.coin();
    matrix_t J;
    if (first) J = gen::jacobian(f, q);
    // the result holds something else before
    LiegroupElement y = element(s, f.outputSpace());
    f.value(y, q);
    vector_t ref = n.value(q);
    PBT_CHECK(same(n.out, y.vector(), ref), "value", n.desc << "\n" << gen::str(y.vector()) << " instead of " << gen::str(ref));
    PBT_CHECK(same(n.out, f(q).vector(), ref), "value-call", n.desc << "\n" << gen::str(f(q).vector()) << " instead of " << gen::str(ref));
    if (!first) J = gen::jacobian(f, q);
    matrix_t K = n.jac(q);
    PBT_CHECK(J.rows() == K.rows() && J.cols() == K.cols(), "jacobian-size", n.desc);
    double e = J.size() ? (J - K).cwiseAbs().maxCoeff() : 0, sc = K.size() ? K.cwiseAbs().maxCoeff() : 0;
    PBT_CHECK(e <= 1e-6 * (1 + sc), "jacobian", n.desc << "\n" << gen::strM(J) << "\ninstead of\n" << gen::strM(K));
    if (n.diff && s.chance(1, 3)) {
      s.label("numerical derivative");
      checkJacobian(J, num(w, n, q), "jacobian-derivative", n.desc);
    }
  }
  std::ostringstream os;
  os << f;
  PBT_CHECK(os.str().find(f.name()) != std::string::npos, "print", os.str());
  if (n.combinators) s.nontrivial();
  s.label("combinators:" + std::to_string(std::min(n.combinators, 6)));
}

void leaves(Src& s) {
  World w = abstractWorld(s, 1, 4, s.coin());
  Node n = leaf(s, w);
  check(s, w, n);
  s.nontrivial();
}
void compose(Src& s) {
  World w = twice(s);
  Node n = node(s, w, (int)s.range(1, 3));
  check(s, w, n);
}
}  // namespace

int main(int argc, char** argv) {
  Property p;
  p.id = "C04";
  p.rule = "the function is a composition with at least one combinator (facet compose) or a leaf evaluated at a random point";
  p.assumptions = {"constant functions, restrictions to active columns and symbolic wrappers may declare more active parameters than needed",
                   "the difference of two Lie group elements is computed by hpp-pinocchio"};
  p.facets.push_back({"leaves", 1, leaves});
  p.facets.push_back({"compose", 4, compose});
  p.quick = 150000;
  p.thorough = 4000000;
  return pbt::main(argc, argv, p);
}
