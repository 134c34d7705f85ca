// Random systems of constraints handled by the solvers.
#ifndef SYS_HH
#define SYS_HH
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>

#include "prob.hh"

namespace sys {
using namespace prob;
using solver::BySubstitution;
using solver::HierarchicalIterative;

struct Opts {
  bool inequalities = true, masks = true, restrictFree = true, saturation = true, levels = true;
  bool bySubstitution = true;  // allow
  bool hierarchical = true;    // allow
  int minCons = 0, maxCons = 5;
  bool rhs = true;
  bool explicitCons = true;
  bool twins = false;  // implicit constraints proportional to others
  bool guard = true;  // discard diverging iterations
};
struct System {
  World w;
  Configuration_t target;  // satisfies the constraints that can be satisfied by choosing the right hand sides
  std::vector<Con> cons;
  std::vector<std::size_t> prio;
  std::vector<vector_t> rhs;
  std::vector<bool> expl;  // handled as explicit
  std::vector<bool> free;  // velocity variables
  bool sub = false, optional = false, level = false;
  double thr = 1e-4, ineq = 0;
  long maxIter = 40;
  int ls = 0, sat = 0;
  vector_t lb, ub;
  std::shared_ptr<HierarchicalIterative> h;
  BySubstitution* b() const { return static_cast<BySubstitution*>(h.get()); }
  std::vector<Smooth::Ptr> counters;

  long levels() const;
  bool isOptional(std::size_t i) const;
  /// error of constraint i as documented
  vector_t error(std::size_t i, vectorIn_t q) const;
  /// squared norm of the greatest error of the constraints that are not optional
  double error2(vectorIn_t q) const;
  HierarchicalIterative::Status solve(vectorOut_t q, bool optimize = false) const;
  bool isSatisfied(vectorIn_t q) const { return sub ? b()->isSatisfied(q) : h->isSatisfied(q); }
  bool isSatisfied(vectorIn_t q, double t) const { return sub ? b()->isSatisfied(q, t) : h->isSatisfied(q, t); }
  bool isSatisfied(std::size_t i, vectorIn_t q, vectorOut_t e, bool& found) const {
    return sub ? b()->isConstraintSatisfied(cons[i].c, q, e, found) : h->isConstraintSatisfied(cons[i].c, q, e, found);
  }
  void setRhs(std::size_t i, vectorIn_t v) const {
    if (sub)
      b()->rightHandSide(cons[i].c, v);
    else
      h->rightHandSide(cons[i].c, v);
  }
  bool getRhs(std::size_t i, vectorOut_t v) const {
    return sub ? b()->getRightHandSide(cons[i].c, v) : h->getRightHandSide(cons[i].c, v);
  }
  /// indices of the velocity variables that are outputs of explicit constraints
  std::vector<bool> outputs() const;
  bool regular(vectorIn_t q) const;
  Configuration_t start(Src& s) const;
};
System system(Src& s, const Opts& o = Opts());
/// right hand side such that target satisfies the equality components
vector_t rhsFrom(const Con& c, vectorIn_t q);
const char* name(HierarchicalIterative::Status s);
}  // namespace sys
#endif
