// G19: block-addressed matrices: every block is exactly the rows and columns of its variable, nothing else is touched;
// MatrixMap: every key addresses exactly its own columns.
#include "dense.hpp"
#include <boost/container/flat_map.hpp>
using namespace vc;
using Eigen::Matrix; using Eigen::Matrix3d; using Eigen::Vector3d;
namespace {
// offsets of the variables of each type, written down independently
template <class L> struct Off;
template <> struct Off<Twistd> { static constexpr int n = 2, at[] = {0, 3, 6}; };
template <> struct Off<RigidTransformMd> { static constexpr int n = 2, at[] = {0, 3, 6}; };
template <> struct Off<RigidTransformQd> { static constexpr int n = 2, at[] = {0, 3, 6}; };
template <> struct Off<Translationd> { static constexpr int n = 1, at[] = {0, 3}; };
template <> struct Off<RotationMd> { static constexpr int n = 1, at[] = {0, 3}; };
template <> struct Off<RotationQd> { static constexpr int n = 1, at[] = {0, 3}; };
template <> struct Off<RotationAd> { static constexpr int n = 1, at[] = {0, 3}; };
template <> struct Off<Pointd> { static constexpr int n = 1, at[] = {0, 3}; };
template <> struct Off<Scalar<double>> { static constexpr int n = 1, at[] = {0, 1}; };
template <> struct Off<double> { static constexpr int n = 1, at[] = {0, 1}; };
using C1 = cmp::Triple<Scalar<double>, Translationd, Twistd>;
using C2 = cmp::Pair<RelativeRotationd, Scalar<double>>;
using C3 = cmp::State<RotationQd, Pointd, Translationd>;
template <> struct Off<C1> { static constexpr int n = 3, at[] = {0, 1, 4, 10}; };
template <> struct Off<C2> { static constexpr int n = 2, at[] = {0, 3, 4}; };
template <> struct Off<C3> { static constexpr int n = 3, at[] = {0, 3, 6, 9}; };

template <class L, class R, int I, int J> void block1(const D &m, const BlockMatrix<L, R> &B) {
    Ctx c(IX[I]); Ctx e(IX[J]);
    const int i0 = Off<L>::at[I], j0 = Off<R>::at[J], r = Off<L>::at[I + 1] - i0, cc = Off<R>::at[J + 1] - j0;
    const BlockMatrix<L, R> &K = B;
    same("read const", K.template blockWrt<I, J>(), dblk(m, i0, j0, r, cc));
    BlockMatrix<L, R> W{B};
    same("read", W.template blockWrt<I, J>(), dblk(m, i0, j0, r, cc));
    const D n = dvar("N", r, cc); const Eigen::MatrixXd N = dyn(n);
    W.template blockWrt<I, J>() = N; same("write", W, dset(m, i0, j0, n));
    W = B; W.template blockWrt<I, J>() += N; same("add", W, dset(m, i0, j0, dblk(m, i0, j0, r, cc) + n));
    W = B; W.template blockWrt<I, J>().setZero(); same("zero", W, dset(m, i0, j0, dzero(r, cc)));
    W = B; W.template blockWrt<I, J>() *= 2; same("scale", W, dset(m, i0, j0, 2.0 * dblk(m, i0, j0, r, cc)));
    W = B; W.template blockWrt<I, J>()(r - 1, cc - 1) = N(0, 0); same("last entry", W, dset(m, i0 + r - 1, j0 + cc - 1, dblk(n, 0, 0, 1, 1)));
}
template <class L, class R, int I, int... Js> void blocks2(const D &m, const BlockMatrix<L, R> &B, std::integer_sequence<int, Js...>) { (block1<L, R, I, Js>(m, B), ...); }
template <class L, class R, int I> void row1(const D &m, const BlockMatrix<L, R> &B) {
    Ctx c("rows"); Ctx d(IX[I]);
    const int i0 = Off<L>::at[I], r = Off<L>::at[I + 1] - i0; const D x = dblk(m, i0, 0, r, m.c);
    const BlockMatrix<L, R> &K = B; same("read const", K.template rowsWrt<I>(), x);
    BlockMatrix<L, R> W{B}; same("read", W.template rowsWrt<I>(), x);
    const D n = dvar("Rw", r, m.c); W.template rowsWrt<I>() = dyn(n); same("write", W, dset(m, i0, 0, n));
    W = B; W.template rowsWrt<I>() -= dyn(n); same("subtract", W, dset(m, i0, 0, x - n));
    W = B; W.template rowsWrt<I>().setZero(); same("zero", W, dset(m, i0, 0, dzero(r, m.c)));
    blocks2<L, R, I>(m, B, std::make_integer_sequence<int, Off<R>::n>{});
}
template <class L, class R, int J> void col1(const D &m, const BlockMatrix<L, R> &B) {
    Ctx c("columns"); Ctx d(IX[J]);
    const int j0 = Off<R>::at[J], q = Off<R>::at[J + 1] - j0; const D x = dblk(m, 0, j0, m.r, q);
    const BlockMatrix<L, R> &K = B; same("read const", K.template colsWrt<J>(), x);
    BlockMatrix<L, R> W{B}; same("read", W.template colsWrt<J>(), x);
    const D n = dvar("Cl", m.r, q); W.template colsWrt<J>() = dyn(n); same("write", W, dset(m, 0, j0, n));
    W = B; W.template colsWrt<J>() += dyn(n); same("add", W, dset(m, 0, j0, x + n));
    W = B; W.template colsWrt<J>().setZero(); same("zero", W, dset(m, 0, j0, dzero(m.r, q)));
}
template <class L, class R, int... I> void rowsAll(const D &m, const BlockMatrix<L, R> &B, std::integer_sequence<int, I...>) { (row1<L, R, I>(m, B), ...); }
template <class L, class R, int... J> void colsAll(const D &m, const BlockMatrix<L, R> &B, std::integer_sequence<int, J...>) { (col1<L, R, J>(m, B), ...); }
template <class L, class R> void blockMatrix() {
    const int r = Off<L>::at[Off<L>::n], c = Off<R>::at[Off<R>::n];
    const D m = dvar("m", r, c);
    static_assert(BlockMatrix<L, R>::RowsAtCompileTime == Off<L>::at[Off<L>::n] && BlockMatrix<L, R>::ColsAtCompileTime == Off<R>::at[Off<R>::n], "size");
    BlockMatrix<L, R> B; put(B, m); same("stored", B, m);
    rowsAll(m, B, std::make_integer_sequence<int, Off<L>::n>{});
    colsAll(m, B, std::make_integer_sequence<int, Off<R>::n>{});
}
template <class L, class R> void asDense() {
    const int r = Off<L>::at[Off<L>::n], c = Off<R>::at[Off<R>::n];
    const D m = dvar("m", r, c), n = dvar("n", r, c), s = dvar("s", r, r); const Eigen::MatrixXd N = dyn(n), S = dyn(s);
    BlockMatrix<L, R> B{dyn(m)}; same("from dynamic", B, m);
    is("itself", B, m); is("sum", B + B, m + m); is("product", S * B, s * m); is("transpose", B.transpose(), dtr(m)); is("gram", B.transpose() * B, dtr(m) * m); is("negated", -B, -m); is("scaled", 2.5 * B, 2.5 * m); is("difference", B - N, m - n);
    operand("operand", B, m);
    BlockMatrix<L, R> W; W = N; same("assign", W, n); W = B; same("copy", W, m); W = B + N; same("sum", W, m + n); W = B; W += N; same("+=", W, m + n); W -= B; same("-=", W, n); W *= 2; same("*= 2", W, 2.0 * n); W.setZero(); same("setZero", W, dzero(r, c)); W = B; W = S * W; same("W = S*W", W, s * m);
    BlockMatrix<L, R> X{std::move(W)}; same("moved", X, s * m); const BlockMatrix<L, R> Y{S * B}; same("from product", Y, s * m);
    const auto V = [&]() -> BlockMatrix<L, R> { return BlockMatrix<L, R>{B * 2}; }(); same("returned", V, 2.0 * m);
    Eigen::Matrix<double, BlockMatrix<L, R>::RowsAtCompileTime, BlockMatrix<L, R>::ColsAtCompileTime> P; P = B; same("to fixed", P, m); P += B; same("fixed +=", P, m + m);
}
template <class L, int I> void seg1(const D &m, const DiagonalBlockMatrix<L> &B) {
    Ctx c(IX[I]);
    const int i0 = Off<L>::at[I], r = Off<L>::at[I + 1] - i0;
    same("read const", B.template segmentWrt<I>(), dblk(m, i0, 0, r, 1));
    DiagonalBlockMatrix<L> W{B}; same("read", W.template segmentWrt<I>(), dblk(m, i0, 0, r, 1));
    const D n = dvar("N", r, 1); W.template segmentWrt<I>() = dyn(n); same("write", W.diagonal(), dset(m, i0, 0, n));
    W = B; W.template segmentWrt<I>() *= 3; same("scale", W.diagonal(), dset(m, i0, 0, 3.0 * dblk(m, i0, 0, r, 1)));
}
template <class L, int... I> void segs(const D &m, const DiagonalBlockMatrix<L> &B, std::integer_sequence<int, I...>) { (seg1<L, I>(m, B), ...); }
inline D ddiag(const D &v) { D m = dzero(v.r, v.r); for (int i = 0; i < v.r; ++i) m.a[i][i] = v.a[i][0]; return m; }
template <class L> void diagonal() {
    const int r = Off<L>::at[Off<L>::n];
    const D m = dvar("m", r, 1), n = dvar("n", r, 2), k = dvar("k", r, 1); const Eigen::MatrixXd N = dyn(n);
    DiagonalBlockMatrix<L> B; B.diagonal() = dyn(m); same("stored", B.diagonal(), m);
    segs(m, B, std::make_integer_sequence<int, Off<L>::n>{});
    Eigen::MatrixXd y = B * N; same("B*N", y, ddiag(m) * n);
    y = N.transpose() * B; same("NT*B", y, dtr(n) * ddiag(m));
    y = B.toDenseMatrix(); same("dense", y, ddiag(m));
    y = B; same("assigned to dense", y, ddiag(m));
    using Vec = Eigen::Matrix<double, DiagonalBlockMatrix<L>::RowsAtCompileTime, 1>;
    const DiagonalBlockMatrix<L> E{Vec(dyn(k))}; same("from vector", E.diagonal(), k);
    DiagonalBlockMatrix<L> F{B}; F = E; same("copied", F.diagonal(), k); F = Vec(dyn(m)).asDiagonal(); same("from asDiagonal", F.diagonal(), m);
    y = N; y += B * N; same("+= B*N", y, n + ddiag(m) * n);
    BlockVector<L> v; v = dyn(k); v = BlockVector<L>{B * v}; same("B*v", v, ddiag(m) * k);
}
// ------------------------------------------------------------- MatrixMap
using Key = const void *;
template <bool Const, class M> auto &as(M &m) { if constexpr (Const) return static_cast<const M &>(m); else return m; }
template <size_t N> void matrixMap(const int (&width)[N], const int (&order)[N], int rows) {
    static const char keys[16] = {};
    std::vector<std::pair<Key, int>> w; int total = 0, at[16];
    for (size_t i = 0; i < N; ++i) { w.emplace_back(&keys[order[i]], width[i]); at[i] = total; total += width[i]; }
    MatrixMap<Key, double> m(w.begin(), w.end(), rows);
    const MatrixMap<Key, double> &k = m;
    D d[16];
    for (size_t i = 0; i < N; ++i) { d[i] = dvar(IY[i], rows, width[i]); m[&keys[order[i]]] = dyn(d[i]); }
    auto all = [&](const char *l) { Ctx c(l); for (size_t i = 0; i < N; ++i) { Ctx e(IY[i]); const Key q = &keys[order[i]]; same("[]", m[q], d[i]); same("const []", k[q], d[i]); same("at", m.at(q), d[i]); same("const at", k.at(q), d[i]); vc_ensure("count", k.count(q) == 1); } };
    all("written through []");
    for (size_t i = 0; i < N; ++i) { const D n = dvar(i % 2 ? "odd" : "even", rows, width[i]); m.at(&keys[order[i]]) = dyn(n); d[i] = n; Ctx c(IY[i]); all("written through at"); }
    for (size_t i = 0; i < N; ++i) { m.at(&keys[order[i]]).noalias() += dyn(d[i]); d[i] = d[i] + d[i]; Ctx c(IY[i]); all("added"); }
    vc_ensure("absent", k.count(&keys[15]) == 0);
    MatrixMap<Key, double> copy(m); copy[&keys[order[0]]].setZero(); all("copy is separate"); same("copy", copy.at(&keys[order[N - 1]]), N == 1 ? dzero(rows, width[0]) : d[N - 1]);
    MatrixMap<Key, double> moved(std::move(copy)); same("moved", moved.at(&keys[order[N - 1]]), N == 1 ? dzero(rows, width[0]) : d[N - 1]);
    m.setZero(); for (size_t i = 0; i < N; ++i) d[i] = dzero(rows, width[i]); all("zeroed");
}
}  // namespace
H(G19_block_twist, blockMatrix<Twistd, Twistd>())
H(G19_block_rigid_twist, blockMatrix<RigidTransformMd, Translationd>(); blockMatrix<RotationMd, RigidTransformQd>())
H(G19_block_single, blockMatrix<RotationMd, Translationd>(); blockMatrix<Scalar<double>, Pointd>(); blockMatrix<RotationAd, Scalar<double>>(); blockMatrix<Scalar<double>, Scalar<double>>())
H(G19_block_compound, blockMatrix<C1, C2>())
H(G19_block_compound2, blockMatrix<C2, C3>())
H(G19_block_compound3, blockMatrix<C3, Translationd>(); blockMatrix<Twistd, C1>())
H(G19_block_compound_compound, blockMatrix<C1, C1>())
H(G19_block_vector, blockMatrix<C1, double>(); blockMatrix<Twistd, double>(); blockMatrix<Translationd, double>(); blockMatrix<Scalar<double>, double>())
H(G19_block_dense, asDense<Twistd, Translationd>())
H(G19_block_dense_square, asDense<RotationMd, RotationQd>())
H(G19_block_dense_compound, asDense<C2, Scalar<double>>())
H(G19_block_dense_vector, asDense<C2, double>())
H(G19_diagonal, diagonal<Twistd>(); diagonal<Translationd>(); diagonal<Scalar<double>>())
H(G19_diagonal_compound, diagonal<C1>(); diagonal<C2>())
H(G19_map_sorted, matrixMap({3, 6, 1}, {0, 1, 2}, 3))
H(G19_map_reversed, matrixMap({3, 6, 1}, {2, 1, 0}, 2))
H(G19_map_shuffled, matrixMap({1, 3, 3, 6}, {3, 0, 2, 1}, 1))
H(G19_map_one, matrixMap({6}, {4}, 6))
H(G19_map_duplicates, static const char keys[4] = {}; std::vector<std::pair<Key, int>> w{{&keys[1], 3}, {&keys[0], 2}, {&keys[1], 3}, {&keys[2], 1}}; MatrixMap<Key, double> m(w.begin(), w.end(), 2); const D a = dvar("a", 2, 3), b = dvar("b", 2, 2), c = dvar("c", 2, 1); m[&keys[1]] = dyn(a); m[&keys[0]] = dyn(b); m[&keys[2]] = dyn(c); const auto &k = m; same("a", k[&keys[1]], a); same("b", k.at(&keys[0]), b); same("c", m.at(&keys[2]), c); m.at(&keys[1]).setZero(); same("a zeroed", k[&keys[1]], dzero(2, 3)); same("b", k.at(&keys[0]), b); same("c", m.at(&keys[2]), c))
H(G19_map_from_map, static const char keys[4] = {}; boost::container::flat_map<Key, int> w{{&keys[0], 6}, {&keys[2], 3}}; MatrixMap<Key, double> m(w.begin(), w.end(), 3); const D a = dvar("a", 3, 6), b = dvar("b", 3, 3); m.at(&keys[0]) = dyn(a); m.at(&keys[2]).noalias() = dyn(b); same("a", m[&keys[0]], a); same("b", m[&keys[2]], b); vc_ensure("count", m.count(&keys[1]) == 0))
H(G19_map_int_keys, std::vector<std::pair<int, int>> w{{7, 1}, {-2, 3}}; MatrixMap<int, double> m(w.begin(), w.end(), 3); const D a = dvar("a", 3, 1), b = dvar("b", 3, 3); m.at(7) = dyn(a); m.at(-2) = dyn(b); same("a", m[7], a); same("b", m[-2], b))
