// C01: Jacobians of the kinematic functions against numerical derivatives of
// their values (Richardson extrapolation on the Lie group, with a reliability
// estimate), on output matrices filled with garbage.
#include "zoo.hh"
using namespace pbt;
using namespace gen;

static void check(Src& s, const DevicePtr_t& r, const zoo::Fun& F, double tol = 0) {
  s.label(F.kind);
  s.note() << describe(r) << F.desc << "\n";
  Configuration_t q = config(s, r);
  s.note() << "q = " << str(q) << "\n";
  if (F.regular && !F.regular(q)) discard();
  matrix_t J = jacobian(*F.f, q);
  NumDiff nd = numdiff(*F.f, r->configSpace(), q);
  if (tol > 0) {
    // derivative computed by the library by finite differences itself
    for (long i = 0; i < J.rows(); ++i)
      for (long j = 0; j < J.cols(); ++j)
        if (nd.ok(i, j))
          PBT_CHECK(std::abs(J(i, j) - nd.J(i, j)) <= tol * (1 + std::abs(nd.J(i, j))), F.kind + "-jacobian",
                    F.desc << "\nentry " << i << "," << j << "\n" << J << "\nnumerical\n" << nd.J);
  } else
    checkJacobian(J, nd, F.kind + "-jacobian", F.desc);
  // writing in a block of a larger matrix gives the same coefficients and
  // touches nothing else
  matrix_t B(matrix_t::Constant(J.rows() + 2, J.cols() + 3, 42.));
  F.f->jacobian(B.block(1, 2, J.rows(), J.cols()), q);
  PBT_CHECK(B.block(1, 2, J.rows(), J.cols()).isApprox(J, 1e-9) ||
                (B.block(1, 2, J.rows(), J.cols()) - J).cwiseAbs().maxCoeff() < std::max(1e-9, tol * (1 + J.cwiseAbs().maxCoeff())),
            F.kind + "-block", F.desc << "\nJacobian in a block\n" << B << "\nJacobian\n" << J);
  B.block(1, 2, J.rows(), J.cols()).setConstant(42.);
  PBT_CHECK((B.array() == 42.).all(), F.kind + "-block-outside", F.desc << "\n" << B);
  if (nd.unreliable) s.label("some entries not differentiable numerically");
  if (nd.J.cwiseAbs().maxCoeff() > 1e-6 && nd.unreliable * 2 < nd.J.size()) s.nontrivial();
}

static void finiteDiff(Src& s) {
  RobotOpts o;
  const bool rob = s.coin();
  o.vectorOnly = !rob;
  auto r = robot(s, o);
  zoo::Fun F = zoo::simple(s, r);
  s.label(F.kind + (rob ? " robot" : " vector space"));
  s.note() << describe(r) << F.desc << "\n";
  Configuration_t q = config(s, r);
  if (!rob && s.range(0, 3) == 0) q[s.range(0, q.size() - 1)] += 1e-9;  // a coordinate close to zero
  s.note() << "q = " << str(q) << "\n";
  if (F.regular && !F.regular(q)) discard();
  NumDiff nd = numdiff(*F.f, r->configSpace(), q);
  const bool central = s.coin();
  const double eps = s.coin() ? 1e-6 : std::sqrt(Eigen::NumTraits<double>::epsilon());
  matrix_t J(matrix_t::Constant(F.f->outputDerivativeSize(), F.f->inputDerivativeSize(), 42.));
  if (central)
    F.f->finiteDifferenceCentral(J, q, rob ? r : DevicePtr_t(), eps);
  else
    F.f->finiteDifferenceForward(J, q, rob ? r : DevicePtr_t(), eps);
  const double scale = 1 + nd.J.cwiseAbs().maxCoeff() + zoo::value(*F.f, q).cwiseAbs().maxCoeff();
  for (long i = 0; i < J.rows(); ++i)
    for (long j = 0; j < J.cols(); ++j)
      if (nd.ok(i, j))
        PBT_CHECK(std::abs(J(i, j) - nd.J(i, j)) <= 2e-4 * scale * scale, central ? "central" : "forward",
                  F.desc << "\nentry " << i << "," << j << "\n" << J << "\nnumerical\n" << nd.J);
  if (nd.J.cwiseAbs().maxCoeff() > 1e-6 && nd.unreliable * 2 < nd.J.size()) s.nontrivial();
}

int main(int argc, char** argv) {
  Property p;
  p.id = "C01";
  p.rule = "the numerical derivative is not zero and reliable for most entries";
  p.assumptions = {"entries where two orders of the extrapolation disagree by more than 1e-6 are not judged"};
  p.facets.push_back({"pose", 12, [](Src& s) { auto r = robot(s); check(s, r, zoo::pose(s, r)); }});
  p.facets.push_back({"relativeCom", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::relativeCom(s, r)); }});
  p.facets.push_back({"comBetweenFeet", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::comBetweenFeet(s, r)); }});
  p.facets.push_back({"configuration", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::configuration(s, r)); }});
  p.facets.push_back({"distancePoints", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::distancePoints(s, r)); }});
  p.facets.push_back({"distanceBodies", 2, [](Src& s) {
                        RobotOpts o;
                        o.geometry = true;
                        auto r = robot(s, o);
                        auto F = zoo::distanceBodies(s, r);
                        check(s, r, F, F.jacTol);
                      }});
  p.facets.push_back({"contact", 3, [](Src& s) { auto r = robot(s); int k = (int)s.range(0, 2); check(s, r, zoo::contact(s, r, k)); }});
  p.facets.push_back({"staticStability", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::staticStability(s, r)); }});
  p.facets.push_back({"qpStaticStability", 3, [](Src& s) { auto r = robot(s); check(s, r, zoo::qpStaticStability(s, r)); }});
  p.facets.push_back({"manipulability", 1, [](Src& s) { auto r = robot(s); check(s, r, zoo::manipulability(s, r), 3e-4); }});
  p.facets.push_back({"finiteDifference", 2, finiteDiff});
  p.quick = 12000;
  p.thorough = 200000;
  return pbt::main(argc, argv, p);
}
