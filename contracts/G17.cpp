// G17: rotations and rigid transforms produced by the library from valid operands are valid.
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace {
// the evaluated result and its conversion to every representation
template <class E> void ev(const char *l, const E &e) { Ctx c(l); valid(eval(e)); }
template <class C, class E> void to(const char *l, const E &e) { Ctx c(l); const C x{e}; valid(x); }
template <class A, class B> void products() {
    In<A> a("A"); In<B> b("B"); const A &x = a.leaf; const B &y = b.leaf;
    ev("x*y", x * y);
}
template <class A> void unary() {
    In<A> a("A"); const A &x = a.leaf; ev("inverse", inverse(x)); ev("inverse of inverse", inverse(inverse(x))); ev("x", x); valid(A{x}); A y{x}; y = inverse(y); valid(y);
}
template <class A, class B> void chain() { In<A> a("A"); In<B> b("B"); const A &x = a.leaf; const B &y = b.leaf; ev("inverse(x)*y", inverse(x) * y); ev("inverse(x*y)", inverse(x * y)); }
template <class A> void power() { In<A> a("A"); const A &x = a.leaf; ev("x*(x*x)", x * (x * x)); ev("x*inverse(x)", x * inverse(x)); A y{x}; for (int i = 0; i < 3; ++i) y = y * x; valid(y); }
template <class C, class A> void conv() { In<A> a("A"); to<C>("construct", a.leaf); C y{C::Identity()}; y = a.leaf; valid(y); }
template <class A> void partsOf() { In<A> a("A"); ev("rotation", a.leaf.rotation()); ev("rotation of inverse", inverse(a.leaf).rotation()); ev("rotation*rotation", a.leaf.rotation() * a.leaf.rotation()); }
template <class A, class B> void setParts() { In<A> a("A"); In<B> b("B"); In<TR> v("v"); A x{a.leaf}; x.rotation() = b.leaf; valid(x); x.translation() = v.leaf; valid(x); A y{b.leaf, v.leaf}; valid(y); }
}
#define P(a, b, A, B) H(G17_product_##a##b, products<A, B>())
P(M, M, RM, RM) P(M, Q, RM, RQ) P(M, A, RM, RA) P(Q, M, RQ, RM) P(Q, Q, RQ, RQ) P(Q, A, RQ, RA) P(A, M, RA, RM) P(A, Q, RA, RQ) P(A, A, RA, RA)
P(TM, TM, TM, TM) P(TM, TQ, TM, TQ) P(TQ, TM, TQ, TM) P(TQ, TQ, TQ, TQ)
#define U(a, A) H(G17_unary_##a, unary<A>())
U(M, RM) U(Q, RQ) U(A, RA) U(TM, TM) U(TQ, TQ)
#define C(a, b, A, B) H(G17_chain_##a##b, chain<A, B>())
C(M, M, RM, RM) C(M, Q, RM, RQ) C(Q, M, RQ, RM) C(Q, Q, RQ, RQ) C(TM, TM, TM, TM) C(TM, TQ, TM, TQ) C(TQ, TM, TQ, TM) C(TQ, TQ, TQ, TQ)
#define W(a, A) H(G17_power_##a, power<A>())
W(M, RM) W(Q, RQ) W(TM, TM) W(TQ, TQ)
#define V(a, b, A, B) H(G17_conv_##a##b, conv<A, B>())
V(M, Q, RM, RQ) V(M, A, RM, RA) V(Q, M, RQ, RM) V(Q, A, RQ, RA) V(A, M, RA, RM) V(A, Q, RA, RQ) V(TM, TQ, TM, TQ) V(TQ, TM, TQ, TM)
H(G17_parts_M, partsOf<TM>()) H(G17_parts_Q, partsOf<TQ>())
#define S(a, b, A, B) H(G17_set_##a##b, setParts<A, B>())
S(M, M, TM, RM) S(M, Q, TM, RQ) S(M, A, TM, RA) S(Q, M, TQ, RM) S(Q, Q, TQ, RQ) S(Q, A, TQ, RA)
H(G17_random_M, valid(RM::Random())) H(G17_random_Q, valid(RQ::Random())) H(G17_random_A, valid(RA::Random())) H(G17_random_TM, valid(TM::Random())) H(G17_random_TQ, valid(TQ::Random()))
