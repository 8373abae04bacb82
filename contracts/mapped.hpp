// Contracts for leaves over external storage: reads, Jacobians, exact write set, aliasing.
#pragma once
#include <wave/geometry/dynamic.hpp>
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace mem {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using PT = Pointd; using SD = Scalar<double>;
// the numbers of an owning leaf, in a fixed order
template <class I> double raw(const MatrixRotation<I> &x, int i) { return x.value().coeff(i % 3, i / 3); }
template <class I> double raw(const MatrixRigidTransform<I> &x, int i) { return x.value().coeff(i % 4, i / 4); }
template <class I> double raw(const QuaternionRotation<I> &x, int i) { return x.value().coeffs().coeff(i); }
template <class Q, class V> double raw(const CompactRigidTransform<Q, V> &x, int i) { return i < 4 ? x.rotationBlock().value().coeffs().coeff(i) : x.translationBlock().value().coeff(i - 4); }
template <class I> double raw(const wave::Translation<I> &x, int i) { return x.value().coeff(i); }
template <class I> double raw(const Point<I> &x, int i) { return x.value().coeff(i); }
template <class I> double raw(const RelativeRotation<I> &x, int i) { return x.value().coeff(i); }
template <class I> double raw(const Twist<I> &x, int i) { return x.value().coeff(i); }
template <class O> constexpr int count = std::is_same<O, RM>{} ? 9 : std::is_same<O, RQ>{} ? 4 : std::is_same<O, TM>{} ? 16 : std::is_same<O, TQ>{} ? 7 : std::is_same<O, TW>{} ? 6 : 3;
template <class T> using EMap = Eigen::Map<T>;
using V3d = Eigen::Vector3d; using V6d = Eigen::Matrix<double, 6, 1>; using M3d = Eigen::Matrix3d; using M4d = Eigen::Matrix4d; using M3r = Eigen::Matrix<double, 3, 3, Eigen::RowMajor>; using M4r = Eigen::Matrix<double, 4, 4, Eigen::RowMajor>; using Qd = Eigen::Quaterniond;
// A layout: Own = the owning leaf, Leaf = the leaf over memory, N cells of memory, idx(i) = cell of number i, make(p) = the leaf over p
template <class O, class L> struct Lay { using Own = O; using Leaf = L; };
template <class O, template <class> class T, class I> struct Contig : Lay<O, T<EMap<I>>> { static constexpr int N = count<O> + 2; static int idx(int i) { return i + 1; } static T<EMap<I>> make(double *p) { return T<EMap<I>>{EMap<I>{p + 1}}; } };
template <class O, template <class> class T, class I> struct Const : Lay<O, T<EMap<const I>>> { static constexpr int N = count<O> + 2; static int idx(int i) { return i + 1; } static T<EMap<const I>> make(double *p) { return T<EMap<const I>>{EMap<const I>{p + 1}}; } };
template <class O, template <class> class T, class I> using SMap = T<Eigen::Map<I, 0, Eigen::InnerStride<2>>>;
template <class O, template <class> class T, class I> struct Strided : Lay<O, SMap<O, T, I>> { static constexpr int N = 2 * count<O> + 1; static int idx(int i) { return 2 * i + 1; } static SMap<O, T, I> make(double *p) { return SMap<O, T, I>{Eigen::Map<I, 0, Eigen::InnerStride<2>>{p + 1}}; } };
template <class O, template <class> class T, class I> struct RefTo : Lay<O, T<Eigen::Ref<I>>> { static constexpr int N = count<O> + 2; static int idx(int i) { return i + 1; } static T<Eigen::Ref<I>> make(double *p) { EMap<I> m{p + 1}; return T<Eigen::Ref<I>>{Eigen::Ref<I>{m}}; } };
// block at the top left (or, for vectors, in the last column) of a column-major 4x4
template <class O, template <class> class T, int C> using VBlk = T<Eigen::Block<EMap<M4d>, 3, 1>>;
template <class O, template <class> class T, int C> struct ColBlock : Lay<O, VBlk<O, T, C>> { static constexpr int N = 16; static int idx(int i) { return 4 * C + i; } static VBlk<O, T, C> make(double *p) { EMap<M4d> m{p}; return VBlk<O, T, C>{m.block<3, 1>(0, C)}; } };
struct RotBlock : Lay<RM, MatrixRotation<Eigen::Block<EMap<M4d>, 3, 3>>> { static constexpr int N = 16; static int idx(int i) { return 4 * (i / 3) + i % 3; } static Leaf make(double *p) { EMap<M4d> m{p}; return Leaf{m.block<3, 3>(0, 0)}; } };
struct RotRef : Lay<RM, MatrixRotation<Eigen::Ref<M3d>>> { static constexpr int N = 16; static int idx(int i) { return 4 * (i / 3) + 4 + i % 3 + 1; } static Leaf make(double *p) { EMap<M4d> m{p}; return Leaf{Eigen::Ref<M3d>{m.block<3, 3>(1, 1)}}; } };
struct RotRow : Lay<RM, MatrixRotation<EMap<M3r>>> { static constexpr int N = 11; static int idx(int i) { return 1 + 3 * (i % 3) + i / 3; } static Leaf make(double *p) { return Leaf{EMap<M3r>{p + 1}}; } };
struct RotOuter : Lay<RM, MatrixRotation<Eigen::Map<M3d, 0, Eigen::OuterStride<5>>>> { static constexpr int N = 16; static int idx(int i) { return 1 + 5 * (i / 3) + i % 3; } static Leaf make(double *p) { return Leaf{Eigen::Map<M3d, 0, Eigen::OuterStride<5>>{p + 1}}; } };
struct RigidRow : Lay<TM, MatrixRigidTransform<EMap<M4r>>> { static constexpr int N = 18; static int idx(int i) { return 1 + 4 * (i % 4) + i / 4; } static Leaf make(double *p) { return Leaf{EMap<M4r>{p + 1}}; } };
struct RigidBlock : Lay<TM, MatrixRigidTransform<Eigen::Block<EMap<Eigen::Matrix<double, 5, 5>>, 4, 4>>> { static constexpr int N = 25; static int idx(int i) { return 5 * (i / 4) + 5 + i % 4; } static Leaf make(double *p) { EMap<Eigen::Matrix<double, 5, 5>> m{p}; return Leaf{m.block<4, 4>(0, 1)}; } };
template <class Q, class V, int Gap> struct Compact : Lay<TQ, CompactRigidTransform<EMap<Q>, EMap<V>>> { static constexpr int N = 9 + Gap; static int idx(int i) { return i < 4 ? 1 + i : 1 + Gap + i; } static CompactRigidTransform<EMap<Q>, EMap<V>> make(double *p) { return CompactRigidTransform<EMap<Q>, EMap<V>>{EMap<Q>{p + 1}, EMap<V>{p + 5 + Gap}}; } };
using CompactQ = Compact<Qd, V3d, 0>; using CompactGap = Compact<Qd, V3d, 3>; using CompactConst = Compact<const Qd, const V3d, 0>;

// memory holding the numbers of an owning leaf between other cells
template <class Y> struct Mem {
    using O = typename Y::Own; static constexpr int n = count<O>; double b[Y::N]; double g[Y::N]; typename Y::Leaf leaf;
    explicit Mem(const O &x) : leaf(Y::make(b)) { for (int i = 0; i < Y::N; ++i) b[i] = g[i] = vc_sym_i("cell", i); put(x); }
    Mem(const Mem &) = delete;
    void put(const O &x) { for (int i = 0; i < n; ++i) b[Y::idx(i)] = raw(x, i); }
    // exactly the leaf's numbers hold x; every other cell is what it was
    void holds(const char *l, const O &x) const { Ctx c(l); bool own[Y::N] = {}; for (int i = 0; i < n; ++i) { own[Y::idx(i)] = true; vc_ensure_eq("number", b[Y::idx(i)], raw(x, i)); } for (int i = 0; i < Y::N; ++i) if (!own[i]) vc_ensure_eq("other memory", b[i], g[i]); }
};
template <class O> void eqRaw(const char *l, const O &a, const O &b) { Ctx c(l); for (int i = 0; i < count<O>; ++i) vc_ensure_eq("number", raw(a, i), raw(b, i)); }
template <class J, class K> void same(const char *l, const J &a, const K &b) { ensureEqMat(l, a, b); }
template <class E, class G> void sameVal(const E &e, const G &g) { ensureEq("value", view(eval(e)), view(eval(g))); }
// other operands
struct Kit { In<RM> R; In<RQ> Q; In<RR> r; In<TM> T; In<TQ> U; In<TW> t; In<TR> v; Kit() : R("kR"), Q("kQ"), r("kr"), T("kT"), U("kU"), t("kt"), v("kv") {} };
struct None {};
// f(x): an expression. Values and Jacobians agree with those over the owning leaf; memory is only read; later changes of the memory are seen.
template <class Y, class K, class G> void reads(G fk) {
    const K k; auto f = [&](const auto &x) { return fk(x, k); };
    using O = typename Y::Own; In<O> x("x"), z("z"); Mem<Y> m(x.leaf);
    auto e = f(m.leaf); sameVal(e, f(x.leaf)); same("jacobian", e.jacobian(m.leaf), f(x.leaf).jacobian(x.leaf)); same("dynamic", internal::evaluateDynamicJacobian(e, m.leaf), f(x.leaf).jacobian(x.leaf)); same("with", std::get<1>(e.evalWithJacobians(m.leaf)), f(x.leaf).jacobian(x.leaf)); m.holds("only read", x.leaf);
    { Ctx c("memory changed"); m.put(z.leaf); sameVal(e, f(z.leaf)); same("jacobian", e.jacobian(m.leaf), f(z.leaf).jacobian(z.leaf)); }
}
template <class Y> void readsLeaf() { using O = typename Y::Own; In<O> x("x"), z("z"); Mem<Y> m(x.leaf); ensureEq("view", view(m.leaf), x.val()); const O o{m.leaf}; eqRaw("copy", o, x.leaf); O q{z.leaf}; q = m.leaf; eqRaw("assigned", q, x.leaf); m.put(z.leaf); ensureEq("changed", view(m.leaf), z.val()); eqRaw("copy kept", o, x.leaf); m.holds("memory", z.leaf); auto k = m.leaf; ensureEq("copy of leaf", view(k), z.val()); auto v = std::move(k); ensureEq("moved leaf", view(v), z.val()); }
// writes: assigning leaves, other views and expressions over other objects and over itself
template <class Y> void writesLeaf() { using O = typename Y::Own; In<O> x("x"), z("z"); 
    { Ctx c("owning leaf"); Mem<Y> m(x.leaf); auto &r = (m.leaf = z.leaf); vc_ensure("returns itself", (void *)&r == (void *)&m.leaf); m.holds("", z.leaf); ensureEq("view", view(m.leaf), z.val()); }
    { Ctx c("other view"); Mem<Y> m(x.leaf), n(z.leaf); m.leaf = n.leaf; m.holds("to", z.leaf); n.holds("from", z.leaf); n.put(x.leaf); m.holds("independent", z.leaf); m.leaf = std::move(n.leaf); m.holds("moved", x.leaf); }
    { Ctx c("itself"); Mem<Y> m(x.leaf); auto &s = m.leaf; m.leaf = s; m.holds("", x.leaf); }
    { Ctx c("temporary"); Mem<Y> m(x.leaf); m.leaf = O{z.leaf}; m.holds("", z.leaf); } }
template <class Y, class K, class G> void writes(G fk) {
    const K k; auto f = [&](const auto &x) { return fk(x, k); };
    using O = typename Y::Own; In<O> x("x"), z("z"); const O want{f(x.leaf)}, wantz{f(z.leaf)};
    { Ctx c("itself"); Mem<Y> m(x.leaf); auto &r = (m.leaf = f(m.leaf)); vc_ensure("returns itself", (void *)&r == (void *)&m.leaf); m.holds("", want); }
    { Ctx c("stored"); Mem<Y> m(x.leaf); auto e = f(m.leaf); m.leaf = e; m.holds("", want); }
    { Ctx c("other"); Mem<Y> m(x.leaf), n(z.leaf); m.leaf = f(n.leaf); m.holds("to", wantz); n.holds("from", z.leaf); m.leaf = f(x.leaf); m.holds("owning", want); }
    { Ctx c("to owning"); Mem<Y> m(x.leaf); O o{z.leaf}; o = f(m.leaf); eqRaw("", o, want); m.holds("from", x.leaf); const O p{f(m.leaf)}; eqRaw("constructed", p, want); }
}
// logarithm: any rotation with angle below pi
inline RM rotOfPhi(const PhiIn &p, RM *) { return RM{p.m()}; } inline RQ rotOfPhi(const PhiIn &p, RQ *) { return RQ{p.q()}; }
template <class Y> void readsLog() { using O = typename Y::Own; PhiIn p("p", true); const O x = rotOfPhi(p, (O *)nullptr); Mem<Y> m(x); auto e = log(m.leaf); auto g = log(x); sameVal(e, g); same("jacobian", e.jacobian(m.leaf), g.jacobian(x)); m.holds("only read", x); }
// owning leaves: the same aliasing contract
template <class O, class K, class G> void alias(G fk) { const K k; auto f = [&](const auto &x) { return fk(x, k); }; In<O> x("x"), z("z"); const O want{f(x.leaf)}; { Ctx c("itself"); O o{x.leaf}; auto &r = (o = f(o)); vc_ensure("returns itself", &r == &o); eqRaw("", o, want); } { Ctx c("stored"); O o{x.leaf}; auto e = f(o); o = e; eqRaw("", o, want); } { Ctx c("twice"); O o{x.leaf}; auto e = f(o); o = e; o = e; O w{f(want)}; eqRaw("", o, w); } }
}
using namespace mem;
#ifndef KIT
#define KIT None
#endif
#define READ(n, Y, ...) H(G21_read_##n, reads<Y, KIT>([](const auto &x, const auto &k) { return __VA_ARGS__; }))
#define WRITE(n, Y, ...) H(G21_write_##n, writes<Y, KIT>([](const auto &x, const auto &k) { return __VA_ARGS__; }))
#define SELF(n, O, ...) H(G21_self_##n, alias<O, KIT>([](const auto &x, const auto &k) { return __VA_ARGS__; }))
