// Instantiates the expression templates over a constant type distinct from the coefficient type,
// so that every overload is part of the analysed program.
#include "ir/operations/Expression.hpp"
namespace vp {
struct Num {
  double v;
  Num(double d) : v(d) {}
  Num() : v(0.) {}
  explicit operator double() const { return v; }
  Num& operator+=(const Num& o) { v += o.v; return *this; }
  Num& operator-=(const Num& o) { v -= o.v; return *this; }
  Num& operator*=(const Num& o) { v *= o.v; return *this; }
  Num& operator/=(const Num& o) { v /= o.v; return *this; }
  Num operator-() const { return Num(-v); }
  bool operator==(const Num& o) const { return v == o.v; }
  bool operator!=(const Num& o) const { return v != o.v; }
};
using E = sym::Expression<double, Num>;
using D = sym::Expression<double, double>;
using T = sym::Term<double>;
E e_add(E a, const E& b) { return a + b; }
E e_sub(E a, const E& b) { return a - b; }
E e_addt(E a, const T& b) { return a + b; }
E e_tadd(const T& a, E b) { return a + b; }
E e_subt(E a, const T& b) { return a - b; }
E e_tsub(const T& a, E b) { return a - b; }
E e_addu(E a, const Num& b) { return a + b; }
E e_uadd(const Num& a, E b) { return a + b; }
E e_dadd(const double& a, E b) { return a + b; }
E e_subu(E a, const Num& b) { return a - b; }
E e_usub(const Num& a, E b) { return a - b; }
E e_mul(E a, const double& b) { return a * b; }
E e_lmul(const double& a, E b) { return a * b; }
E e_mulu(E a, const Num& b) { return a * b; }
E e_lmulu(const Num& a, E b) { return a * b; }
E e_div(E a, const double& b) { return a / b; }
E e_divu(E a, const Num& b) { return a / b; }
E e_divi(E a, std::int64_t b) { return a / b; }
E e_neg(const E& a) { return -a; }
bool e_eq(const E& a, const E& b) { return a == b; }
bool e_ne(const E& a, const E& b) { return a != b; }
E e_make2(const T& a, const T& b) { return E(a, b); }
E e_make3(const T& a, const T& b, const T& c) { return E(a, b, c); }
double e_eval(const E& a, const sym::VariableAssignment& m) { return a.evaluate(m); }
T t_mul(T a, double b) { return a * b; }
T t_lmul(double a, const T& b) { return a * b; }
T t_div(T a, double b) { return a / b; }
T t_ldiv(double a, const T& b) { return a / b; }
T t_neg(const T& a) { return -a; }
D d_add(D a, const D& b) { return a + b; }
D d_sub(D a, const D& b) { return a - b; }
D d_mul(D a, const double& b) { return a * b; }
D d_div(D a, const double& b) { return a / b; }
D d_addt(D a, const T& b) { return a + b; }
D d_tadd(const T& a, D b) { return a + b; }
D d_subt(D a, const T& b) { return a - b; }
D d_tsub(const T& a, D b) { return a - b; }
D d_neg(const D& a) { return -a; }
bool d_eq(const D& a, const D& b) { return a == b; }
} // namespace vp
