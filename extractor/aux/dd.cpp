// Instantiates the package templates that the library itself leaves to its users.
#include "dd/Package.hpp"
namespace vp {
dd::vEdge k_add(dd::Package& p, const dd::vEdge& a, const dd::vEdge& b) { return p.add(a, b); }
dd::mEdge k_add(dd::Package& p, const dd::mEdge& a, const dd::mEdge& b) { return p.add(a, b); }
dd::vEdge k_kron(dd::Package& p, const dd::vEdge& a, const dd::vEdge& b, std::size_t n) { return p.kronecker(a, b, n); }
dd::mEdge k_kron(dd::Package& p, const dd::mEdge& a, const dd::mEdge& b, std::size_t n) { return p.kronecker(a, b, n); }
dd::ComplexValue k_trace(dd::Package& p, const dd::mEdge& a, std::size_t n) { return p.trace(a, n); }
dd::vEdge k_mul(dd::Package& p, const dd::mEdge& a, const dd::vEdge& b) { return p.multiply(a, b); }
dd::mEdge k_mul(dd::Package& p, const dd::mEdge& a, const dd::mEdge& b) { return p.multiply(a, b); }
dd::vCachedEdge k_mag(dd::Package& p, const dd::vCachedEdge& a, const dd::vCachedEdge& b) { return p.addMagnitudes(a, b, 1); }
dd::mCachedEdge k_mag(dd::Package& p, const dd::mCachedEdge& a, const dd::mCachedEdge& b) { return p.addMagnitudes(a, b, 1); }
} // namespace vp
