// C21: serialisation round trips.
#include <boost/archive/archive_exception.hpp>
#include <boost/serialization/vector.hpp>
#include <hpp/pinocchio/serialization.hh>
//
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/explicit/implicit-function.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/locked-joint.hh>

#include "state.hh"
using namespace pbt;
using namespace sys;
using boost::serialization::make_nvp;

namespace boost {
namespace serialization {
template <class Archive>
void serialize(Archive& ar, prob::Block& b, const unsigned int) {
  ar& make_nvp("iq", b.iq);
  ar& make_nvp("nq", b.nq);
  ar& make_nvp("iv", b.iv);
  ar& make_nvp("nv", b.nv);
  int k = b.k;
  ar& make_nvp("k", k);
  b.k = (prob::Kind)k;
  ar& make_nvp("sp", b.sp);
}
}  // namespace serialization
}  // namespace boost
BOOST_CLASS_EXPORT(prob::Smooth)

static const char* formats[] = {"text", "xml", "binary"};
template <class Out, class T>
static void write(std::stringstream& ss, const DevicePtr_t& r, const T& t) {
  Out oa(ss);
  if (r) oa.insert(r->name(), r.get());
  oa.initialize();
  oa << make_nvp("object", t);
}
template <class In, class T>
static void read(std::stringstream& ss, const DevicePtr_t& r, T& t) {
  In ia(ss);
  if (r) ia.insert(r->name(), r.get());
  ia.initialize();
  ia >> make_nvp("object", t);
}
template <class T>
static void roundTrip(int format, const DevicePtr_t& r, const T& t, T& u) {
  std::stringstream ss;
  std::string step = "write";
  try {
    switch (format) {
      case 0: write<hpp::serialization::text_oarchive>(ss, r, t); break;
      case 1: write<hpp::serialization::xml_oarchive>(ss, r, t); break;
      default: write<hpp::serialization::binary_oarchive>(ss, r, t);
    }
    step = "read";
    switch (format) {
      case 0: read<hpp::serialization::text_iarchive>(ss, r, u); break;
      case 1: read<hpp::serialization::xml_iarchive>(ss, r, u); break;
      default: read<hpp::serialization::binary_iarchive>(ss, r, u);
    }
  } catch (const boost::archive::archive_exception& e) {
    // classes that are not serialisable
    if (e.code == boost::archive::archive_exception::unregistered_class) discard();
    PBT_CHECK(false, "archive-" + step, formats[format] << ": " << e.what());
  }
}

struct Obj {
  DifferentiableFunctionPtr_t f;
  std::string kind;
  bool byValue = true;  // compared by values
  std::function<bool(vectorIn_t)> regular;
};
static Obj makeFunction(Src& s, const World& w, int i) {
  Obj o;
  std::string name = "f" + std::to_string(i);
  long nq = w.space->nq(), nv = w.space->nv();
  switch (s.weighted({w.r ? 6u : 0u, w.r ? 2u : 0u, 1, 1, nq == nv ? 2u : 0u, 2, w.r ? 2u : 0u, 2})) {
    case 0: {
      zoo::Fun F = zoo::pose(s, w.r);
      o.f = F.f;
      o.kind = F.kind;
      s.note() << F.desc;
      break;
    }
    case 1: {
      zoo::Fun F = zoo::relativeCom(s, w.r);
      o.f = F.f;
      o.kind = F.kind;
      s.note() << F.desc;
      o.byValue = false;
      break;
    }
    case 2:
      o.f = smooth(s, w, name);
      o.kind = "smooth";
      break;
    case 3:
      o.f = Identity::create(w.space, name);
      o.kind = "identity";
      break;
    case 4: {
      long m = s.range(1, 3);
      matrix_t A(matrix_t::Zero(m, nv));
      for (long i = 0; i < m; ++i)
        for (long j = 0; j < nv; ++j)
          if (s.coin()) A(i, j) = s.real(-2, 2);
      o.f = AffineFunction::create(A, vec(s, m, 2.), name);
      o.kind = "affine";
      break;
    }
    case 5:
      o.f = ConstantFunction::create(element(s, outSpace(s)), nq, nv, name);
      o.kind = "constant";
      break;
    case 6: {
      // explicit function of a relative pose
      Con c = explicitCon(s, w, i);
      if (!c.e) discard();
      s.note() << c.desc;
      if (s.coin()) {
        o.f = c.e->explicitFunction();
        o.kind = "explicit function of " + c.kind;
      } else {
        o.f = c.c->functionPtr();
        o.kind = "implicit function of " + c.kind;
      }
      o.regular = c.regular;
      o.byValue = false;
      break;
    }
    default: {
      Con c = explicitCon(s, w, i);
      if (!c.e) discard();
      o.f = c.c->functionPtr();
      o.kind = "implicit function of " + c.kind;
      o.byValue = false;
      s.note() << c.desc;
    }
  }
  s.note() << " " << o.kind << "\n";
  s.label(o.kind);
  return o;
}
static std::string print(const DifferentiableFunction& f) {
  std::ostringstream o;
  o << f;
  return o.str();
}
static std::vector<bool> bits(const ArrayXb& a) {
  std::vector<bool> v;
  for (long i = 0; i < a.size(); ++i) v.push_back(a[i]);
  return v;
}
static int idx(const JointConstPtr_t& j) { return j ? (int)j->index() : -1; }

static void sameFunction(const DifferentiableFunction& f, const DifferentiableFunction& g, const World& w, const std::vector<vector_t>& xs,
                         const std::string& k) {
  PBT_CHECK(f.inputSize() == g.inputSize() && f.inputDerivativeSize() == g.inputDerivativeSize(), "input-size-" + k,
            g.inputSize() << " " << g.inputDerivativeSize());
  PBT_CHECK(*f.outputSpace() == *g.outputSpace(), "output-space-" + k, g.outputSpace()->name());
  PBT_CHECK(f.name() == g.name() && f.context() == g.context(), "name-" + k, g.name());
  // these vectors are not resized when there is no parameter
  PBT_CHECK(bits(f.activeParameters()) == bits(g.activeParameters()) &&
                bits(f.activeDerivativeParameters()) == bits(g.activeDerivativeParameters()),
            "active-" + k, f.activeParameters().transpose() << " -> " << g.activeParameters().transpose());
  PBT_CHECK(print(f) == print(g), "print-" + k, print(f) << "\n->\n" << print(g));
  if (w.r) {
    auto a = f.dependsOnRelPoseBetween(w.r), b = g.dependsOnRelPoseBetween(w.r);
    PBT_CHECK(idx(a.first) == idx(b.first) && idx(a.second) == idx(b.second), "joints-" + k,
              idx(a.first) << " " << idx(a.second) << " -> " << idx(b.first) << " " << idx(b.second));
  }
  for (auto& x : xs) {
    vector_t u = zoo::value(f, x), v = zoo::value(g, x);
    PBT_CHECK(same(u, v), "value-" + k, gen::str(u) << " -> " << gen::str(v));
    matrix_t J(matrix_t::Constant(f.outputDerivativeSize(), f.inputDerivativeSize(), 7.)),
        K(matrix_t::Constant(f.outputDerivativeSize(), f.inputDerivativeSize(), -3.));
    f.jacobian(J, x);
    g.jacobian(K, x);
    for (long c = 0; c < J.cols(); ++c) PBT_CHECK(same(J.col(c), K.col(c), 1e-10), "jacobian-" + k, "column " << c << "\n" << J << "\n->\n" << K);
  }
}

static void functions(Src& s) {
  World w = s.chance(3, 4) ? robotWorld(s) : abstractWorld(s, 1, 4);
  s.note() << w.desc;
  int format = (int)s.weighted({2, 1, 2});
  s.note() << formats[format] << "\n";
  s.label(formats[format]);
  long n = s.range(1, 3);
  std::vector<Obj> fs;
  for (long i = 0; i < n; ++i) fs.push_back(makeFunction(s, w, (int)i));
  if (s.coin()) fs.push_back(s.pick(fs));
  std::vector<DifferentiableFunctionPtr_t> in, out;
  for (auto& f : fs) in.push_back(f.f);
  std::vector<std::vector<vector_t>> xs;
  bool moved = s.coin();
  for (auto& f : fs) {
    std::vector<vector_t> v;
    for (int i = 0; i < 2; ++i) {
      Configuration_t q = config(s, w);
      if (f.f->inputSize() == q.size())
        v.push_back(q);
      else if (f.f->inputSize() == 0)
        v.push_back(vector_t(0));
      else {
        // explicit functions of some coordinates
        if (dynamic_cast<const Smooth*>(f.f.get())) {
          vector_t x(f.f->inputSize());
          for (long j = 0; j < x.size(); ++j) x[j] = s.real(-2, 2);
          v.push_back(x);
        }
      }
      if (moved && !v.empty()) zoo::value(*f.f, v.back());
    }
    xs.push_back(v);
  }
  roundTrip(format, w.r, in, out);
  PBT_CHECK(out.size() == in.size(), "number", out.size());
  for (std::size_t i = 0; i < in.size(); ++i) {
    PBT_CHECK(out[i] && out[i] != in[i], "restored", "function " << i);
    sameFunction(*in[i], *out[i], w, xs[i], fs[i].kind);
    if (fs[i].byValue) PBT_CHECK(*in[i] == *out[i] && *out[i] == *in[i], "equal-" + fs[i].kind, "the restored function differs");
    for (std::size_t j = 0; j < i; ++j)
      PBT_CHECK((in[i] == in[j]) == (out[i] == out[j]), "shared", "functions " << j << " and " << i << ": " << (in[i] == in[j]) << " before "
                                                                               << (out[i] == out[j]) << " after");
  }
  // written and read again, and the first ones may disappear
  std::vector<DifferentiableFunctionPtr_t> again;
  roundTrip((int)s.raw(3), w.r, out, again);
  if (s.coin()) out.clear();
  for (std::size_t i = 0; i < in.size(); ++i) sameFunction(*in[i], *again[i], w, xs[i], fs[i].kind + "-again");
  s.nontrivial();
}

static DifferentiableFunctionPtr_t timeFunction(Src& s, const LiegroupSpacePtr_t& out) {
  matrix_t A(out->nv(), 1);
  for (long i = 0; i < A.rows(); ++i) A(i, 0) = s.real(-1, 1);
  if (out->isVectorSpace() && s.coin()) return AffineFunction::create(A, vec(s, A.rows(), 1.), "time");
  return sys::timeFunction(s, out, "time");
}

static void constraints(Src& s) {
  World w = s.chance(3, 4) ? robotWorld(s) : abstractWorld(s, 1, 4);
  s.note() << w.desc;
  int format = (int)s.weighted({2, 1, 2});
  s.note() << formats[format] << "\n";
  long n = s.range(1, 3);
  std::vector<Con> cs;
  std::vector<ImplicitPtr_t> in, out;
  std::vector<DifferentiableFunctionPtr_t> fs, fout;
  for (long i = 0; i < n; ++i) {
    if (i && s.chance(1, 4)) {
      // another constraint on the same function
      Con c(s.pick(cs));
      if (s.coin()) {
        c.comp = comparisons(s, c.c->function().outputDerivativeSize(), c.c->function().outputSpace()->isVectorSpace());
        c.mask = gen::mask(s, (std::size_t)c.c->function().outputDerivativeSize());
        c.c = Implicit::create(c.c->functionPtr(), c.comp, c.mask);
        c.e = ExplicitPtr_t();
        c.kind = "shared";
      }
      cs.push_back(c);
    } else
      cs.push_back(s.coin() ? implicit(s, w, (int)i) : explicitCon(s, w, (int)i));
    Con& c = cs.back();
    s.note() << i << ": " << c.kind << " " << c.desc << "\n";
    s.label(c.kind);
    if (allEquality(c.c) && s.chance(1, 3)) {
      c.c->rightHandSideFunction(timeFunction(s, c.c->function().outputSpace()));
      s.label("time function");
    }
    in.push_back(c.c);
    fs.push_back(c.c->functionPtr());
  }
  std::vector<Configuration_t> qs{config(s, w), config(s, w)};
  std::pair<std::vector<ImplicitPtr_t>, std::vector<DifferentiableFunctionPtr_t>> a(in, fs), b;
  std::vector<std::string> before;
  for (auto& c : in) before.push_back(observe(c, qs));
  roundTrip(format, w.r, a, b);
  out = b.first;
  fout = b.second;
  PBT_CHECK(out.size() == in.size(), "number", out.size());
  for (std::size_t i = 0; i < in.size(); ++i) {
    std::string k = cs[i].kind;
    PBT_CHECK(out[i] && out[i] != in[i], "restored", "constraint " << i);
    PBT_CHECK(observe(in[i], qs) == before[i], "original-" + k, "changed by writing it");
    PBT_CHECK(observe(out[i], qs) == before[i], "constraint-" + k, observe(out[i], qs) << "instead of\n" << before[i]);
    PBT_CHECK(out[i]->functionPtr() == fout[i], "shared-function", "function of constraint " << i << " is not shared any more");
    std::ostringstream o1, o2;
    if (LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, in[i])) o1 << *l;
    if (LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, out[i])) o2 << *l;
    PBT_CHECK(o1.str() == o2.str(), "print-constraint-" + k, o1.str() << "\n->\n" << o2.str());
    PBT_CHECK(!HPP_DYNAMIC_PTR_CAST(LockedJoint, in[i]) == !HPP_DYNAMIC_PTR_CAST(LockedJoint, out[i]) &&
                  !HPP_DYNAMIC_PTR_CAST(Explicit, in[i]) == !HPP_DYNAMIC_PTR_CAST(Explicit, out[i]) &&
                  !HPP_DYNAMIC_PTR_CAST(explicit_::RelativePose, in[i]) == !HPP_DYNAMIC_PTR_CAST(explicit_::RelativePose, out[i]),
              "type-" + k, "restored with another type");
    if (w.r) {
      auto x = in[i]->doesConstrainRelPoseBetween(w.r), y = out[i]->doesConstrainRelPoseBetween(w.r);
      PBT_CHECK(idx(x.first) == idx(y.first) && idx(x.second) == idx(y.second), "constraint-joints-" + k,
                idx(x.first) << " " << idx(x.second) << " -> " << idx(y.first) << " " << idx(y.second));
    }
    for (std::size_t j = 0; j < i; ++j) {
      PBT_CHECK((in[i] == in[j]) == (out[i] == out[j]), "shared-constraints", j << " " << i);
      PBT_CHECK((in[i]->functionPtr() == in[j]->functionPtr()) == (out[i]->functionPtr() == out[j]->functionPtr()), "shared-function",
                j << " " << i);
      PBT_CHECK((!!in[i]->rightHandSideFunction() && in[i]->rightHandSideFunction() == in[j]->rightHandSideFunction()) ==
                    (!!out[i]->rightHandSideFunction() && out[i]->rightHandSideFunction() == out[j]->rightHandSideFunction()),
                "shared-time-function", j << " " << i);
    }
    // copies of the restored constraint
    ImplicitPtr_t c = out[i]->copy();
    PBT_CHECK(c && c != out[i], "copy-restored-" + k, "no copy");
    PBT_CHECK(observe(c, qs) == before[i], "copy-restored-" + k, observe(c, qs) << "instead of\n" << before[i]);
    PBT_CHECK(*c == *out[i], "copy-restored-" + k, "copy different from the restored constraint");
  }
  s.nontrivial();
}

// indentation of streams is not restored by all print methods
static std::string lines(const HierarchicalIterative& h) {
  std::ostringstream o;
  o << h;
  std::istringstream in(o.str());
  std::string r, l;
  while (std::getline(in, l)) {
    std::size_t b = l.find_first_not_of(' ');
    if (b == std::string::npos) b = l.size();
    l = l.substr(b);
    // right hand sides are compared as numbers
    if (l.compare(0, 4, "Rhs:") && l.compare(0, 4, "rhs:")) r += l + "\n";
  }
  return r;
}

static void solvers(Src& s) {
  Opts o;
  o.minCons = 0;
  o.maxCons = 4;
  o.guard = false;
  System y = system(s, o);
  int format = (int)s.weighted({2, 1, 2});
  s.note() << formats[format] << "\n";
  s.label(formats[format]);
  if (format != 2)
    // infinite values cannot be read from texts
    if (auto b = std::dynamic_pointer_cast<solver::saturation::Bounds>(y.h->saturation())) {
      b->lb = b->lb.cwiseMax(-1e6);
      b->ub = b->ub.cwiseMin(1e6);
    }
  System z(y);
  bool pointer = s.coin();
  s.label(pointer ? "pointer" : "value");
  if (pointer) {
    if (y.sub) {
      std::shared_ptr<BySubstitution> a(std::static_pointer_cast<BySubstitution>(y.h)), b;
      roundTrip(format, y.w.r, a, b);
      z.h = b;
    } else {
      std::shared_ptr<HierarchicalIterative> b;
      roundTrip(format, y.w.r, y.h, b);
      z.h = b;
    }
    PBT_CHECK(z.h && z.h != y.h, "restored", "no solver");
  } else {
    if (y.sub) {
      auto b = std::make_shared<BySubstitution>(y.w.space);
      roundTrip(format, y.w.r, *y.b(), *b);
      z.h = b;
    } else {
      auto b = std::make_shared<HierarchicalIterative>(y.w.space);
      roundTrip(format, y.w.r, *y.h, *b);
      z.h = b;
    }
  }
  PBT_CHECK(*z.h->configSpace() == *y.w.space, "space", z.h->configSpace()->name());
  PBT_CHECK(z.h->constraints().size() == y.h->constraints().size(), "number", z.h->constraints().size());
  PBT_CHECK(z.h->numberStacks() == y.h->numberStacks(), "stacks", z.h->numberStacks());
  // the right hand side is not stored
  vector_t r = rhsOf(y);
  // set it in both: rotations by pi change sign when they are set again
  for (System* x : {&y, &z})
    if (x->sub)
      x->b()->rightHandSide(r);
    else
      x->h->rightHandSide(r);
  std::string o1 = lines(*y.h), o2 = lines(*z.h);
  PBT_CHECK(o1 == o2, "print-solver", o1 << "\n->\n" << o2);
  std::vector<Configuration_t> qs{y.start(s), y.start(s)};
  sameState(state(z, qs), state(y, qs), "solver", -1);
  if (!y.cons.empty()) s.nontrivial();
  // the solver can be modified as the original
  if (s.coin()) {
    Con c = s.coin() ? implicit(s, y.w, 50) : explicitCon(s, y.w, 50);
    s.note() << "add " << c.desc << "\n";
    bool a = false, b = false;
    std::size_t p = y.h->numberStacks() ? s.raw(y.h->numberStacks()) : 0;
    try {
      a = y.h->add(c.c, p);
    } catch (const std::logic_error&) {
      discard();
    }
    b = z.h->add(c.c, p);
    PBT_CHECK(a == b, "add", a << " -> " << b);
    r = rhsOf(y);
    for (System* x : {&y, &z})
      if (x->sub)
        x->b()->rightHandSide(r);
      else
        x->h->rightHandSide(r);
    sameState(state(z, qs), state(y, qs), "solver-added", -1);
    s.label("constraint added");
  }
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C21";
  p.rule = "functions, constraints: always; solvers: the solver has constraints";
  p.facets.push_back({"functions", 3, functions});
  p.facets.push_back({"constraints", 3, constraints});
  p.facets.push_back({"solvers", 3, solvers});
  p.quick = 40000;
  p.thorough = 400000;
  return pbt::main(argc, argv, p);
}
