// Generators shared by the harnesses: random robots, configurations, frames,
// and reference computations (forward kinematics, numerical derivatives) that
// do not use the library under test.
#ifndef GEN_HH
#define GEN_HH
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/fwd.hh>
#include <hpp/pinocchio/configuration.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <pinocchio/multibody/data.hpp>
#include <pinocchio/multibody/model.hpp>

#include "pbt.hh"

namespace gen {
using namespace hpp::constraints;
using hpp::pinocchio::Device;
using hpp::pinocchio::JointIndex;
using pbt::Src;

struct RobotOpts {
  int minTrees = 1, maxTrees = 2;
  int minJoints = 1, maxJoints = 5;
  int maxExtra = 2;
  int freeflyers = 0;  // number of additional free-flying single bodies
  bool geometry = false;
  bool fixedJoints = true;
  bool vectorOnly = false;  // vector space of configurations
};
DevicePtr_t robot(Src& s, const RobotOpts& o = RobotOpts());

/// random configuration, within the joint bounds
Configuration_t config(Src& s, const DevicePtr_t& r, double amp = 2.);
/// configuration at a small random displacement of q, within the joint bounds
Configuration_t near(Src& s, const DevicePtr_t& r, const Configuration_t& q, double amp);
vector_t velocity(Src& s, long n, double amp);
vector_t vec(Src& s, long n, double amp);
matrix3_t rotation(Src& s);
Transform3s transform(Src& s, double amp = 1.);
/// a joint of the robot; null (the world) once in a while if allowed
JointPtr_t joint(Src& s, const DevicePtr_t& r, bool allowNull);
std::vector<bool> mask(Src& s, std::size_t n, bool allowEmpty = false);
/// element of a Lie group
LiegroupElement element(Src& s, const LiegroupSpacePtr_t& sp, double amp = 2.);

/// clamp the vector-space coordinates to the joint bounds
void clamp(const DevicePtr_t& r, Configuration_t& q);

/// reference forward kinematics (own pinocchio::Data)
struct FK {
  ::pinocchio::DataTpl<double> data;
  const hpp::pinocchio::Model* model;
  FK(const DevicePtr_t& r, vectorIn_t q);
  Transform3s M(const JointConstPtr_t& j) const;  // identity for null
  Transform3s M(std::size_t idx) const { return data.oMi[idx]; }
};
/// centre of mass of all bodies moved by joint subtrees in roots (all if empty)
vector3_t com(const DevicePtr_t& r, const FK& fk, const std::vector<JointIndex>& roots);
double mass(const DevicePtr_t& r, const std::vector<JointIndex>& roots);

/// so(3) logarithm through quaternions with atan2, valid for all angles
vector3_t logR(const matrix3_t& R);
Eigen::Vector4d quat(const matrix3_t& R);
Eigen::Matrix3d expR(const vector3_t& w);
Eigen::Matrix3d skew(const vector3_t& w);

/// numerical derivative of a function between Lie groups
struct NumDiff {
  matrix_t J;                                           // estimate
  Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> ok;  // reliable entries
  long unreliable = 0;
};
typedef std::function<void(vectorIn_t, LiegroupElement&)> Fn;
NumDiff numdiff(const LiegroupSpacePtr_t& in, const LiegroupSpacePtr_t& out, const Fn& f, vectorIn_t q,
                double h = 1e-3);
NumDiff numdiff(const DifferentiableFunction& f, const LiegroupSpacePtr_t& in, vectorIn_t q);
/// compare a Jacobian with its numerical estimate
void checkJacobian(const matrix_t& J, const NumDiff& nd, const std::string& tag, const std::string& what);
/// evaluate the Jacobian in a buffer filled with garbage
matrix_t jacobian(const DifferentiableFunction& f, vectorIn_t q);

std::string str(const Transform3s& M);
std::string str(vectorIn_t v);
std::string strM(const matrix_t& M);
std::string str(const std::vector<bool>& m);
std::string describe(const DevicePtr_t& r);
}  // namespace gen
#endif
