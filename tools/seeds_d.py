import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk("S01a","S01",[("include/mqt-core/ir/operations/Expression.hpp","""      while (next != terms.end() && t->getVar() == next->getVar()) {
        t->addCoeff(next->getCoeff());""","""      if (next != terms.end() && t->getVar() == next->getVar()) {
        t->addCoeff(next->getCoeff());""")],r'''
#include "ir/operations/Expression.hpp"
using namespace sym;
int main() {
  Variable x("x");
  Expression<double, double> e(Term<double>(x, 1.), Term<double>(x, 2.), Term<double>(x, 4.));
  return e.numTerms() == 1 && e[0].getCoeff() == 7. ? 0 : 1;
}
''',"building an expression from three or more terms over the same variable","only pairs of equal terms are merged, so a variable occurs twice")
mk("S01b","S01",[("include/mqt-core/ir/operations/Expression.hpp","""    if (rhs.isZero()) {
      return *this;
    }

    auto t = rhs.begin();""","""    if (rhs.isConstant()) {
      constant = rhs.constant;
      return *this;
    }

    auto t = rhs.begin();""")],r'''
#include "ir/operations/Expression.hpp"
using namespace sym;
int main() {
  Variable x("x");
  Expression<double, double> e(Term<double>(x, 1.));
  e.setConst(2.);
  e += Expression<double, double>(3.);
  return e.getConst() == 5. ? 0 : 1;
}
''',"adding a constant expression to an expression that already has a constant","the constant is replaced instead of added")
