// User-defined compound types used by the contracts (the pattern documented by the library's own examples).
#pragma once
#include "wvc.hpp"
#include <wave/geometry/estimation.hpp>
namespace cmp {
template <class A = wave::Scalar<double>, class B = wave::Scalar<double>>
struct Pair : wave::CompoundVectorBase<Pair<A, B>>, wave::NaryStorage<Pair<A, B>, A, B> {
    using Storage = wave::NaryStorage<Pair<A, B>, A, B>; using Storage::Storage; using Storage::operator=; Pair() = default;
};
template <class A = wave::Scalar<double>, class B = A, class C = A>
struct Triple : wave::CompoundVectorBase<Triple<A, B, C>>, wave::NaryStorage<Triple<A, B, C>, A, B, C> {
    using Storage = wave::NaryStorage<Triple<A, B, C>, A, B, C>; using Storage::Storage; using Storage::operator=;
};
// rotation, point, translation
template <class R = wave::RotationMd, class P = wave::Pointd, class V = wave::Translationd>
struct State : wave::CompoundBase<State<R, P, V>>, wave::NaryStorage<State<R, P, V>, R, P, V> {
    using Storage = wave::NaryStorage<State<R, P, V>, R, P, V>; using Storage::Storage; using Storage::operator=;
};
}  // namespace cmp
namespace wave { namespace internal {
template <class A, class B> struct traits<cmp::Pair<A, B>> : compound_vector_traits_base<cmp::Pair<A, B>, A, B>, frameable_vector_traits {};
template <class A, class B, class C> struct traits<cmp::Triple<A, B, C>> : compound_vector_traits_base<cmp::Triple<A, B, C>, A, B, C>, frameable_vector_traits {};
template <class R, class P, class V> struct traits<cmp::State<R, P, V>> : compound_traits_base<cmp::State<R, P, V>, R, P, V>, frameable_transform_traits {
    using TangentType = cmp::Triple<typename eval_traits<R>::TangentType, typename eval_traits<P>::TangentType, typename eval_traits<V>::TangentType>;
};
}}  // namespace wave::internal
