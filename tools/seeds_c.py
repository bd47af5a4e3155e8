import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk("D07a","D07",[("src/dd/Package.cpp","""  conjugateVector.insert(a.p, res);
  res.w = res.w * ComplexNumbers::conj(a.w);
  return res;""","""  res.w = res.w * ComplexNumbers::conj(a.w);
  conjugateVector.insert(a.p, res);
  return res;""")],r'''
#include "dd/Package.hpp"
#include <complex>
using namespace dd;
int main() {
  auto p = std::make_unique<Package>(1);
  const std::complex<double> w(0.6, 0.8);
  auto v = p->makeStateFromVector({w * 0.8, w * std::complex<double>(0., 0.6)});
  p->incRef(v);
  bool ok = true;
  for (int k = 0; k < 2; ++k) {   // the second call is answered from the table
    const auto r = p->conjugate(v).getVector();
    ok = ok && std::abs(r[0] - std::conj(w * 0.8)) < 1e-9;
  }
  return ok ? 0 : 1;
}
''',"conjugating the same node twice with a top weight other than 1","the conjugate stored in the compute table already contains the first operand's top weight")
mk("D07b","D07",[("include/mqt-core/dd/Package.hpp","""        if (y.isIdentity() || y.p->v < var) {
          // [ 0 | 1 ]   [ y | 0 ]
          // --------- = ---------
          // [ 2 | 3 ]   [ 0 | y ]
          if (i == 0 || i == 3) {
            e2 = y;
          }""","""        if (y.isIdentity() || y.p->v < var) {
          // [ 0 | 1 ]   [ y | 0 ]
          // --------- = ---------
          // [ 2 | 3 ]   [ 0 | y ]
          if (i == 0 || (i == 3 && !x.isIdentity())) {
            e2 = y;
          }""")],r'''
#include "dd/Package.hpp"
#include "dd/GateMatrixDefinitions.hpp"
using namespace dd;
int main() {
  auto p = std::make_unique<Package>(3);
  const auto a = Package::makeIdent();
  const auto b = p->makeGateDD(opToSingleQubitGateMatrix(qc::X), 0); // no node on the upper qubits
  const auto m = p->add(a, b).getMatrix(1);
  const auto c = p->add(p->makeGateDD(opToSingleQubitGateMatrix(qc::Z), 2), p->add(a, b)).getMatrix(3);
  // Z on qubit 2 plus (1 + X on qubit 0)
  bool ok = std::abs(c[4][5] - 1.) < 1e-9 && std::abs(m[0][1] - 1.) < 1e-9;
  const auto d = p->add(a, p->kronecker(p->makeGateDD(opToSingleQubitGateMatrix(qc::I), 0), b, 1)).getMatrix(3);
  auto x = p->add2(mCachedEdge{a.p, 1.}, mCachedEdge{b.p, 1.}, 2);
  const auto e = mEdge{x.p, p->cn.lookup(x.w)}.getMatrix(3);
  return ok && std::abs(e[6][7] - 1.) < 1e-9 ? 0 : 1;
}
''',"adding an identity and a diagram that skips the top level","the lower right block loses the second operand")
mk("D07c","D07",[("include/mqt-core/dd/Package.hpp","""    auto& computeTable = getAddMagnitudesComputeTable<Node>();
    if (const auto* r = computeTable.lookup(x, y); r != nullptr) {""","""    auto& computeTable = getAddComputeTable<Node>();
    if (const auto* r = computeTable.lookup(x, y); r != nullptr) {""")],r'''
#include "dd/Package.hpp"
#include <cmath>
using namespace dd;
int main() {
  auto p = std::make_unique<Package>(2);
  auto a = p->makeStateFromVector({0.5, 0.5, 0.5, 0.5});
  auto b = p->makeStateFromVector({0.5, -0.5, 0.5, 0.1});
  p->incRef(a); p->incRef(b);
  p->add(a, b);   // fills the table of the addition
  auto r = p->addMagnitudes(vCachedEdge{a.p, a.w}, vCachedEdge{b.p, b.w}, 1);
  const auto v = vEdge{r.p, p->cn.lookup(r.w)}.getVector();
  return std::abs(std::abs(v[1]) - std::sqrt(0.5)) < 1e-9 ? 0 : 1;
}
''',"adding magnitudes of two diagrams whose sum was computed before","results of the addition are returned as sums of magnitudes")
mk("D07d","D07",[("src/dd/Package.cpp","""    if (!x.isTerminal() && x.p->v == w) {
      e1 = x.p->e[i];
      e1.w = ComplexNumbers::conj(e1.w);
    } else {
      e1 = {x.p, Complex::one()};
    }""","""    if (!x.isTerminal() && x.p->v == w) {
      e1 = x.p->e[i];
      if (!e1.isTerminal()) {
        e1.w = ComplexNumbers::conj(e1.w);
      }
    } else {
      e1 = {x.p, Complex::one()};
    }""")],r'''
#include "dd/Package.hpp"
#include <complex>
using namespace dd;
int main() {
  auto p = std::make_unique<Package>(1);
  const std::complex<double> i(0., 1.);
  auto v = p->makeStateFromVector({std::sqrt(0.5), i * std::sqrt(0.5)});
  const auto r = p->innerProduct(v, v);
  return std::abs(r.r - 1.) < 1e-9 ? 0 : 1;
}
''',"an inner product whose left state has a complex amplitude on the lowest level","the lowest level's weights are not conjugated")
