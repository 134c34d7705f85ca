// C02: values of the kinematic functions against a closed-form oracle
// evaluated on an independent forward kinematics.
#include "zoo.hh"
using namespace pbt;
using namespace gen;

static void check(Src& s, const DevicePtr_t& r, const zoo::Fun& F) {
  s.label(F.kind);
  s.note() << describe(r) << F.desc << "\n";
  PBT_CHECK(F.f->inputSize() == r->configSize() && F.f->inputDerivativeSize() == r->numberDof(), F.kind + "-input-size", F.desc);
  for (int k = 0; k < 3; ++k) {
    Configuration_t q = config(s, r);
    s.note() << "q = " << str(q) << "\n";
    vector_t v = zoo::value(*F.f, q), ref = F.ref(q);
    std::string d = zoo::differs(F, v, ref);
    PBT_CHECK(d.empty(), F.kind + "-value", d << "\nq = " << str(q));
    LiegroupElement y = (*F.f)(q);
    PBT_CHECK(y.vector() == v, F.kind + "-operator", "operator() differs from value()");
    if (ref.norm() > 1e-6) s.nontrivial();
  }
}
static DevicePtr_t rob(Src& s) { return robot(s); }

int main(int argc, char** argv) {
  Property p;
  p.id = "C02";
  p.rule = "the expected value is not zero for at least one of the three configurations";
  p.facets.push_back({"pose", 10, [](Src& s) {
                        auto r = rob(s);
                        zoo::Fun F = zoo::pose(s, r);
                        // documented output space
                        const bool lie = F.quatAt >= 0;
                        auto sp = F.f->outputSpace();
                        if (!lie) {
                          PBT_CHECK(*sp == *LiegroupSpace::Rn(sp->nv()), F.kind + "-space", sp->name());
                        } else {
                          LiegroupSpacePtr_t e = LiegroupSpace::SO3();
                          if (F.quatAt == 3)
                            e = LiegroupSpace::R3xSO3();
                          else if (F.quatAt > 0)
                            e = LiegroupSpace::Rn(F.quatAt) * e;
                          PBT_CHECK(sp->nq() == F.quatAt + 4 && sp->nv() == F.quatAt + 3 && *sp == *e, F.kind + "-space",
                                    sp->name() << " instead of " << e->name());
                        }
                        std::string a = F.accessors();
                        PBT_CHECK(a.empty(), F.kind + "-accessors", F.desc << ": " << a);
                        check(s, r, F);
                      }});
  p.facets.push_back({"relativeCom", 3, [](Src& s) { auto r = rob(s); check(s, r, zoo::relativeCom(s, r)); }});
  p.facets.push_back({"comBetweenFeet", 3, [](Src& s) { auto r = rob(s); check(s, r, zoo::comBetweenFeet(s, r)); }});
  p.facets.push_back({"configuration", 2, [](Src& s) { auto r = rob(s); check(s, r, zoo::configuration(s, r)); }});
  p.facets.push_back({"distancePoints", 2, [](Src& s) { auto r = rob(s); check(s, r, zoo::distancePoints(s, r)); }});
  p.facets.push_back({"manipulability", 1, [](Src& s) { auto r = rob(s); check(s, r, zoo::manipulability(s, r)); }});
  p.facets.push_back({"distanceBodies", 2, [](Src& s) {
                        RobotOpts o;
                        o.geometry = true;
                        auto r = robot(s, o);
                        zoo::Fun F = zoo::distanceBodies(s, r);
                        s.label(F.kind);
                        s.note() << describe(r) << F.desc << "\n";
                        for (int k = 0; k < 4; ++k) {
                          Configuration_t q = config(s, r);
                          s.note() << "q = " << str(q) << "\n";
                          double d = zoo::value(*F.f, q)[0], ref = F.ref(q)[0];
                          if (ref > 1e-3) {
                            // distances between boxes are computed iteratively
                            PBT_CHECK(std::abs(d - ref) < 1e-4, F.kind + "-value", d << " instead of " << ref);
                            s.nontrivial();
                          } else
                            PBT_CHECK(d < 2e-3, F.kind + "-penetration", d << " instead of " << ref);
                        }
                      }});
  p.quick = 12000;
  p.thorough = 200000;
  return pbt::main(argc, argv, p);
}
