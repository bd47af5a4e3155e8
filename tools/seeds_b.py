import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
if 0: mk("I01b","I01",[("src/ir/operations/SymbolicOperation.cpp","""    std::swap(parameter[1], parameter[2]);
    std::swap(symbolicParameter[1], symbolicParameter[2]);
    break;""","""    // the parameters are symbolic, so only the expressions change places
    std::swap(symbolicParameter[1], symbolicParameter[2]);
    break;""")],r'''
#include "ir/QuantumComputation.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include <cmath>
using namespace qc;
int main() {
  // U(x, 0.3, 0.9): only theta is symbolic
  auto x = sym::Variable("x");
  SymbolicOperation op(Targets{0}, U, {Symbolic(sym::Term<fp>(x)), 0.3, 0.9});
  op.invert();
  const auto p = op.getParameters();
  // the inverse is U(-x, -0.9, -0.3)
  return std::abs(p.at(1) + 0.9) < 1e-9 && std::abs(p.at(2) + 0.3) < 1e-9 ? 0 : 1;
}
''',"inverting a U gate that mixes symbolic and numeric angles","the numeric phi and lambda of a partly symbolic U gate are not exchanged")
mk("D01b","D01",[("src/dd/GateMatrixDefinitions.cpp","""TwoQubitGateMatrix rzxMat(const fp theta) {
  const auto cosTheta = std::cos(theta / 2.);
  const auto sinTheta = std::sin(theta / 2.);""","""TwoQubitGateMatrix rzxMat(const fp theta) {
  // keep the angle within one turn for better accuracy
  const auto reduced = std::remainder(theta, 2. * PI);
  const auto cosTheta = std::cos(reduced / 2.);
  const auto sinTheta = std::sin(reduced / 2.);""")],r'''
#include "dd/GateMatrixDefinitions.hpp"
#include <cmath>
#include <complex>
int main() {
  const double th = 7.0;   // more than one full turn: RZX has period 4 pi
  auto m = dd::opToTwoQubitGateMatrix(qc::RZX, {th});
  return std::abs(m[0][0] - std::cos(th / 2)) < 1e-9 ? 0 : 1;
}
''',"an RZX angle beyond half a turn from zero (e.g. 7.0) where the sign is observable (controlled gate)","RZX(theta + 2 pi) is treated as RZX(theta)")
mk("I01c","I01",[("src/ir/operations/StandardOperation.cpp","""  case XXminusYY:
  case XXplusYY:
    parameter[0] = -parameter[0];
    break;
  case DCX:""","""  case XXminusYY:
  case XXplusYY:
    for (auto& p : parameter) {
      p = -p;
    }
    break;
  case DCX:""")],r'''
#include "ir/operations/StandardOperation.hpp"
#include <cmath>
using namespace qc;
int main() {
  StandardOperation op(0, 1, XXplusYY, {0.7, 0.4});
  op.invert();
  return std::abs(op.getParameter().at(0) + 0.7) < 1e-9 && std::abs(op.getParameter().at(1) - 0.4) < 1e-9 ? 0 : 1;
}
''',"inverting an XX+YY / XX-YY gate with a non-trivial beta","the inverse also negates beta, which is not the adjoint")
mk("I02a","I02",[("src/ir/operations/OpType.cpp","""      {"csxdg", OpType::SXdg},""","""      {"csxdg", OpType::Vdg},""")],r'''
#include "ir/operations/OpType.hpp"
int main() { return qc::opTypeFromString("csxdg") == qc::opTypeFromString("sxdg") ? 0 : 1; }
''',"using the controlled spelling csxdg","csxdg denotes a controlled Vdg, which differs by a relative phase")
