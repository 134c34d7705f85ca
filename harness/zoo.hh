// Random instances of the differentiable functions of the library, each with
// its documented value as a closed-form oracle.
#ifndef ZOO_HH
#define ZOO_HH
#include "gen.hh"

namespace zoo {
using namespace gen;

struct Fun {
  DifferentiableFunctionPtr_t f;
  std::string kind, desc;
  /// documented value (empty when there is no closed form)
  std::function<vector_t(vectorIn_t)> ref;
  /// distance to the set where the function is not differentiable, at least
  /// as a rough indication (empty: regular everywhere)
  std::function<bool(vectorIn_t)> regular;
  int quatAt = -1;  // position of a quaternion in the value
  int rvecAt = -1;  // position of a complete rotation vector in the value
  bool thread = false;  // documented / designed for concurrent evaluation
  double jacTol = 0;    // accuracy of the Jacobian when it is computed iteratively
  bool serial = false;  // serialisable
  JointConstPtr_t j1, j2;
  std::function<std::string()> accessors;  // empty when the getters agree with the definition
};

/// centre of mass of one or two subtrees (d: description)
CenterOfMassComputationPtr_t comc(Src& s, const DevicePtr_t& r, std::vector<JointIndex>& roots, std::string& d);
/// when set, centre of mass computations on the same roots are shared
typedef std::vector<std::pair<std::vector<JointIndex>, CenterOfMassComputationPtr_t>> ComPool;
extern ComPool* comPool;
/// one of the ten pose functions
Fun pose(Src& s, const DevicePtr_t& r, int forceKind = -1);
Fun relativeCom(Src& s, const DevicePtr_t& r);
Fun comBetweenFeet(Src& s, const DevicePtr_t& r);
Fun configuration(Src& s, const DevicePtr_t& r);
Fun distancePoints(Src& s, const DevicePtr_t& r);
/// the robot must have geometric objects
Fun distanceBodies(Src& s, const DevicePtr_t& r);
Fun manipulability(Src& s, const DevicePtr_t& r);
Fun staticStability(Src& s, const DevicePtr_t& r);
Fun qpStaticStability(Src& s, const DevicePtr_t& r);
/// contact constraint; which: 0 contact, 1 complement, 2 hold
Fun contact(Src& s, const DevicePtr_t& r, int which);
/// any of pose, relativeCom, comBetweenFeet, configuration, distancePoints
Fun simple(Src& s, const DevicePtr_t& r);
/// anything
Fun any(Src& s, const DevicePtr_t& r);

/// random convex polygon, counter-clockwise in a random plane, 3 to 6 points
std::vector<vector3_t> polygon(Src& s, double size = .5);

/// empty if the value agrees with the reference
/// no discontinuity around q (selection of other shapes)
bool stable(const Fun& f, const DevicePtr_t& r, vectorIn_t q);
std::string differs(const Fun& f, vectorIn_t value, vectorIn_t ref, double tol = 1e-8);
vector_t value(const DifferentiableFunction& f, vectorIn_t q);
}  // namespace zoo
#endif
