// Every differentiation mode of an expression against the chain-rule specification.
#pragma once
#include "opaque.hpp"
namespace opq {
enum { AUTO = 1, FWD = 2, DYN = 4, DYNREV = 8, TYPED = 16, REV = 32, ALL = 63 };
static const char *const LN[SLOTS] = {"/x", "/y", "/z", "/u"};
template <std::size_t... I, class Tup> void tupleIs(std::index_sequence<I...>, const Tup &t, const Sp &s, const int *slot, const int *dim) { valIs(std::get<0>(t), s); (jacIs(LN[slot[I]], std::get<I + 1>(t), s, slot[I], dim[I]), ...); }
// x...: leaves in slot order 0, 1, ... (present or absent from the tree)
template <int M, class E, class... X> void modes(const E &e, const Sp &s, const X &... x) {
    const int slot[] = {0, 1, 2, 3}; const int dim[] = {dimOf(x)...}; const std::index_sequence_for<X...> I{};
    if constexpr (M & AUTO) { vc::Ctx c("auto"); int k = 0; ((jacIs(LN[k], e.jacobian(x), s, k, dimOf(x)), ++k), ...); tupleIs(I, e.evalWithJacobians(x...), s, slot, dim); }
    if constexpr (M & FWD) { vc::Ctx c("forward"); tupleIs(I, internal::evaluateWithJacobians(e, x...), s, slot, dim); int k = 0; ((jacIs(LN[k], internal::evaluateJacobian(e, x), s, k, dimOf(x)), ++k), ...); }
    if constexpr (M & DYN) { vc::Ctx c("dynamic"); tupleIs(I, internal::evaluateWithDynamicJacobians(e, x...), s, slot, dim); int k = 0; ((jacIs(LN[k], internal::evaluateDynamicJacobian(e, x), s, k, dimOf(x)), ++k), ...); }
    if constexpr (M & DYNREV) { vc::Ctx c("dynamic reverse"); auto t = internal::evaluateWithDynamicReverseJacobians(e); valIs(t.first, s); int k = 0; ((t.second.count(&x) ? jacIs(LN[k], t.second.at(&x), s, k, dimOf(x)) : vc_ensure(LN[k], !s.has[k]), vc_ensure("listed", (t.second.count(&x) != 0) == s.has[k]), ++k), ...); }
}
// unique leaf types only: x... must be the leaves of the tree from left to right; then additional modes apply
template <std::size_t... I, class E, class... X> void typedModes(std::index_sequence<I...> seq, const E &e, const Sp &s, const X &... x) {
    const int slot[] = {int(I)...}; const int dim[] = {dimOf(x)...};
    { vc::Ctx c("typed"); tupleIs(seq, internal::evaluateWithTypedJacobians(e, x...), s, slot, dim); int k = 0; ((jacIs(LN[slot[k]], internal::evaluateTypedJacobian(e, x), s, slot[k], dimOf(x)), ++k), ...); }
    { vc::Ctx c("reverse"); tupleIs(seq, e.evalWithJacobians(), s, slot, dim); }
}
template <class E, class... X> void allModes(const E &e, const Sp &s, const X &... x) { modes<AUTO | FWD | DYN | DYNREV>(e, s, x...); if constexpr (internal::unique_leaves_t<E>{}) typedModes(std::index_sequence_for<X...>{}, e, s, x...); }
}  // namespace opq
