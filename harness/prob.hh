// Random constraint satisfaction problems: configuration spaces (robots or
// abstract products of Lie groups), smooth functions with exact Jacobians,
// implicit and explicit constraints.
#ifndef PROB_HH
#define PROB_HH
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/constraints/locked-joint.hh>

#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>

#include "zoo.hh"

namespace prob {
using namespace gen;

enum Kind { VEC, SO2K, SO3K, SE2K, SE3K, R3SO3K };
struct Block {
  long iq, nq, iv, nv;
  Kind k;
  LiegroupSpacePtr_t sp;
  JointPtr_t joint;  // for robots
};
struct World {
  DevicePtr_t r;  // null for abstract spaces
  LiegroupSpacePtr_t space;
  std::vector<Block> blocks;
  std::string desc;
};
World abstractWorld(Src& s, int minBlocks, int maxBlocks, bool vectorOnly = false);
World robotWorld(Src& s, const RobotOpts& o = RobotOpts());
World world(Src& s);  // one or the other
Configuration_t config(Src& s, const World& w, double amp = 2.);
Configuration_t near(Src& s, const World& w, const Configuration_t& q, double amp);
bool normalized(const World& w, vectorIn_t q, double tol = 1e-9);

/// value = exp (amp * sin (A phi (q) + b)), exact Jacobian, counts evaluations.
/// phi (q) is q where quaternions are replaced by entries of the rotation matrix
class Smooth : public DifferentiableFunction {
 public:
  typedef std::shared_ptr<Smooth> Ptr;
  static Ptr create(const std::vector<Block>& in, const LiegroupSpacePtr_t& out, const matrix_t& A, const vector_t& b,
                    double amp, const std::string& name);
  vector_t ref(vectorIn_t q) const;  // value
  void zeroAt(vectorIn_t q);         // changes b
  matrix_t A;
  vector_t b;
  double amp;
  mutable long values = 0, jacobians = 0;

 protected:
  Smooth(const std::vector<Block>& in, long nq, long nv, const LiegroupSpacePtr_t& out, const matrix_t& A,
         const vector_t& b, double amp, const std::string& name);
  void impl_compute(LiegroupElementRef y, vectorIn_t q) const;
  void impl_jacobian(matrixOut_t J, vectorIn_t q) const;
  bool isEqual(const DifferentiableFunction& o) const;

 private:
  std::vector<Block> in_;
  Smooth() {}
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::make_nvp("base", boost::serialization::base_object<DifferentiableFunction>(*this));
    ar& boost::serialization::make_nvp("A", A);
    ar& boost::serialization::make_nvp("b", b);
    ar& boost::serialization::make_nvp("amp", amp);
    ar& boost::serialization::make_nvp("in", in_);
  }
};

/// random Smooth defined on the configuration space, depending on a few blocks
Smooth::Ptr smooth(Src& s, const World& w, const std::string& name, LiegroupSpacePtr_t out = LiegroupSpacePtr_t(),
                   double amp = 1.);
LiegroupSpacePtr_t outSpace(Src& s, bool vectorOnly = false);

struct Con {
  ImplicitPtr_t c;
  ExplicitPtr_t e;  // null if implicit
  std::string kind, desc;
  std::vector<bool> mask;
  ComparisonTypes_t comp;
  Smooth::Ptr g;  // explicit function, when custom
  JointConstPtr_t j1, j2;
  Transform3s F1, F2;  // relative poses
  vector_t value;      // locked joints
  std::function<bool(vectorIn_t)> regular;
};
std::string str(const ComparisonTypes_t& c);
/// kinds of comparisons: 0 equality types only, 1 all
ComparisonTypes_t comparisons(Src& s, long n, bool all);

/// implicit constraint on the configuration space
/// the value of smooth functions is neutral at zero, if given
Con implicit(Src& s, const World& w, int i, bool inequalities = true, bool partialMasks = true,
             const Configuration_t* zero = nullptr);
/// explicit constraint with a custom function; returns false in c.c if no block
Con customExplicit(Src& s, const World& w, int i, bool partialMasks = false);
Con lockedJoint(Src& s, const World& w);
/// null if the robot has no free-flying joint
Con relativePose(Src& s, const World& w, int i);
/// any explicit constraint
Con explicitCon(Src& s, const World& w, int i, bool partialMasks = false);

/// coordinates written by an explicit constraint
std::vector<long> indices(const segments_t& s);

/// reference value of the output variables of an explicit constraint for a
/// configuration and a right hand side of the implicit form
vector_t outputRef(const World& w, const Con& c, vectorIn_t q, vectorIn_t rhs);
/// random right hand side (zero where the comparison type imposes it)
vector_t rightHandSide(Src& s, const Con& c, double amp = 1.);
/// error of a constraint as documented, from its function, right hand side,
/// comparison types and mask
vector_t error(const Con& c, vectorIn_t q, vectorIn_t rhs, double ineqThr = 0);
}  // namespace prob
#endif
