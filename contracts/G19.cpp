// G19: cross-product matrices and the static identity matrix are the dense matrices they stand for.
#include "dense.hpp"
using namespace vc;
using Eigen::Matrix; using Eigen::Matrix3d; using Eigen::Vector3d;
namespace {
struct Vecs { D a = dvar("a", 3, 1), b = dvar("b", 3, 1); Vector3d A = fix<3, 1>(a), B = fix<3, 1>(b); D x = dhat(a), y = dhat(b); D m = dvar("m", 3, 3), n = dvar("n", 3, 3); Matrix3d M = fix<3, 3>(m), N = fix<3, 3>(n); };
}
H(G19_cross_matrix, Vecs s; is("crossMatrix(a)", crossMatrix(s.A), s.x); is("crossMatrix(-a)", crossMatrix(-s.A), -s.x); is("-crossMatrix(a)", -crossMatrix(s.A), -s.x); is("-(-crossMatrix(a))", -(-crossMatrix(s.A)), s.x); is("crossMatrix(a+b)", crossMatrix(s.A + s.B), s.x + s.y); is("crossMatrix(2*a)", crossMatrix(2 * s.A), 2 * s.x); is("crossMatrix(temporary)", crossMatrix(Vector3d{s.A}), s.x); is("transpose", crossMatrix(s.A).transpose(), dtr(s.x)))
H(G19_cross_of_parts, Vecs s; is("column", crossMatrix(s.M.col(1)), dhat(dblk(s.m, 0, 1, 3, 1))); is("row", crossMatrix(s.M.row(1).transpose()), dhat(dtr(dblk(s.m, 1, 0, 1, 3)))); is("product", crossMatrix(s.M * s.A), dhat(s.m * s.a)); Matrix<double, 6, 1> t = fix<6, 1>(dvar("t", 6, 1)); is("segment", crossMatrix(t.tail<3>()), dhat(dblk(dvar("t", 6, 1), 3, 0, 3, 1))); is("negated segment", -crossMatrix(t.head<3>()), -dhat(dblk(dvar("t", 6, 1), 0, 0, 3, 1))); Eigen::Map<const Vector3d> mp(t.data() + 1); is("map", crossMatrix(mp), dhat(dblk(dvar("t", 6, 1), 1, 0, 3, 1))))
H(G19_cross_operand, Vecs s; operand("crossMatrix(a)", crossMatrix(s.A), s.x))
H(G19_cross_neg_operand, Vecs s; operand("-crossMatrix(a)", -crossMatrix(s.A), -s.x))
H(G19_cross_expr_operand, Vecs s; operand("crossMatrix(a+b)", crossMatrix(s.A + s.B), s.x + s.y); operand("crossMatrix(-a)", crossMatrix(-s.A), -s.x))
H(G19_cross_vector, Vecs s; is("x*b", crossMatrix(s.A) * s.B, s.x * s.b); is("-x*b", -crossMatrix(s.A) * s.B, -(s.x * s.b)); is("bT*x", s.B.transpose() * crossMatrix(s.A), dtr(s.b) * s.x); is("bT*-x", s.B.transpose() * -crossMatrix(s.A), -(dtr(s.b) * s.x)); is("x*a", crossMatrix(s.A) * s.A, dzero(3, 1)); is("x*(M*b)", crossMatrix(s.A) * (s.M * s.B), s.x * (s.m * s.b)); is("x*(a+b)", crossMatrix(s.A) * (s.A + s.B), s.x * s.b); is("x*M.col", crossMatrix(s.A) * s.M.col(2), s.x * dblk(s.m, 0, 2, 3, 1)); is("M.row*x", s.M.row(1) * crossMatrix(s.A), dblk(s.m, 1, 0, 1, 3) * s.x); is("(bT*M)*x", (s.B.transpose() * s.M) * crossMatrix(s.A), dtr(s.b) * s.m * s.x); is("row vector", Eigen::RowVector3d(s.B.transpose()) * crossMatrix(s.A), dtr(s.b) * s.x))
H(G19_cross_square, Vecs s; is("x*M", crossMatrix(s.A) * s.M, s.x * s.m); is("M*x", s.M * crossMatrix(s.A), s.m * s.x); is("-x*M", -crossMatrix(s.A) * s.M, -(s.x * s.m)); is("M*-x", s.M * -crossMatrix(s.A), -(s.m * s.x)); is("-(x*M)", -(crossMatrix(s.A) * s.M), -(s.x * s.m)); is("-(-x)*M", -(-crossMatrix(s.A)) * s.M, s.x * s.m); is("M*-(-x)", s.M * -(-crossMatrix(s.A)), s.m * s.x); is("x(-a)*M", crossMatrix(-s.A) * s.M, -(s.x * s.m)); is("M*x(-a)", s.M * crossMatrix(-s.A), -(s.m * s.x)); is("x*MT", crossMatrix(s.A) * s.M.transpose(), s.x * dtr(s.m)); is("MT*x", s.M.transpose() * crossMatrix(s.A), dtr(s.m) * s.x); is("-x*MT", -crossMatrix(s.A) * s.M.transpose(), -(s.x * dtr(s.m))))
H(G19_cross_chain, Vecs s; is("x*(M*N)", crossMatrix(s.A) * (s.M * s.N), s.x * (s.m * s.n)); is("(M*N)*x", (s.M * s.N) * crossMatrix(s.A), (s.m * s.n) * s.x); is("x*M*b", crossMatrix(s.A) * s.M * s.B, s.x * s.m * s.b); is("-x*M*b", -crossMatrix(s.A) * s.M * s.B, -(s.x * s.m * s.b)); is("M*x*b", s.M * crossMatrix(s.A) * s.B, s.m * s.x * s.b); is("M*-x*N", s.M * -crossMatrix(s.A) * s.N, -(s.m * s.x * s.n)); is("-M*x", -s.M * crossMatrix(s.A), -(s.m * s.x)); is("(M+N)*x", (s.M + s.N) * crossMatrix(s.A), (s.m + s.n) * s.x); is("x*(M-N)", crossMatrix(s.A) * (s.M - s.N), s.x * (s.m - s.n)); is("(2*x)*M", (2 * crossMatrix(s.A)) * s.M, 2 * (s.x * s.m)); is("xT*M", crossMatrix(s.A).transpose() * s.M, dtr(s.x) * s.m); is("M*xT", s.M * crossMatrix(s.A).transpose(), s.m * dtr(s.x)); is("x(M*a)*M", crossMatrix(s.M * s.A) * s.M, dhat(s.m * s.a) * s.m))
H(G19_cross_cross, Vecs s; is("x*y", crossMatrix(s.A) * crossMatrix(s.B), s.x * s.y); is("x*x", crossMatrix(s.A) * crossMatrix(s.A), s.x * s.x); is("-x*y", -crossMatrix(s.A) * crossMatrix(s.B), -(s.x * s.y)); is("x*-y", crossMatrix(s.A) * -crossMatrix(s.B), -(s.x * s.y)); is("-x*-y", -crossMatrix(s.A) * -crossMatrix(s.B), s.x * s.y); is("x(a+b)*x(a-b)", crossMatrix(s.A + s.B) * crossMatrix(s.A - s.B), (s.x + s.y) * (s.x - s.y)); is("x*y*x", crossMatrix(s.A) * crossMatrix(s.B) * crossMatrix(s.A), s.x * s.y * s.x); is("x+y", crossMatrix(s.A) + crossMatrix(s.B), s.x + s.y); is("x-y", crossMatrix(s.A) - crossMatrix(s.B), s.x - s.y); is("-x-y", -crossMatrix(s.A) - crossMatrix(s.B), -s.x - s.y); is("x*y-y*x", crossMatrix(s.A) * crossMatrix(s.B) - crossMatrix(s.B) * crossMatrix(s.A), s.x * s.y - s.y * s.x); is("xT*y", crossMatrix(s.A).transpose() * crossMatrix(s.B), -(s.x * s.y)); is("x*yT", crossMatrix(s.A) * crossMatrix(s.B).transpose(), -(s.x * s.y)))
H(G19_cross_wide, Vecs s; const D w = dvar("w", 3, 6), l = dvar("l", 6, 3); const auto W = fix<3, 6>(w); const auto L = fix<6, 3>(l); is("x*W", crossMatrix(s.A) * W, s.x * w); is("L*x", L * crossMatrix(s.A), l * s.x); is("-x*W", -crossMatrix(s.A) * W, -(s.x * w)); is("L*-x", L * -crossMatrix(s.A), -(l * s.x)); is("x*W*L", crossMatrix(s.A) * W * L, s.x * w * l); is("W*L*x", W * L * crossMatrix(s.A), w * l * s.x); is("x*LT", crossMatrix(s.A) * L.transpose(), s.x * dtr(l)); is("WT*x", W.transpose() * crossMatrix(s.A), dtr(w) * s.x); is("x*W.rightCols", crossMatrix(s.A) * W.rightCols<2>(), s.x * dblk(w, 0, 4, 3, 2)); is("L.block*x", L.topRows<3>() * crossMatrix(s.A), dblk(l, 0, 0, 3, 3) * s.x); is("-x*W.leftCols", -crossMatrix(s.A) * W.leftCols<3>(), -(s.x * dblk(w, 0, 0, 3, 3))))
H(G19_cross_rowmajor, Vecs s; const D w = dvar("w", 3, 4); Matrix<double, 3, 4, Eigen::RowMajor> W; put(W, w); Matrix<double, 3, 3, Eigen::RowMajor> M; put(M, s.m); is("x*W", crossMatrix(s.A) * W, s.x * w); is("-x*W", -crossMatrix(s.A) * W, -(s.x * w)); is("x*M", crossMatrix(s.A) * M, s.x * s.m); is("M*x", M * crossMatrix(s.A), s.m * s.x); is("M*-x", M * -crossMatrix(s.A), -(s.m * s.x)); is("WT*x", W.transpose() * crossMatrix(s.A), dtr(w) * s.x); M = crossMatrix(s.A); same("M=x", M, s.x))
H(G19_cross_dynamic, Vecs s; const D w = dvar("w", 3, 4); const Eigen::MatrixXd W = dyn(w), M = dyn(s.m); Matrix<double, 3, Eigen::Dynamic> H3(3, 4); put(H3, w); const Eigen::VectorXd v = dyn(s.b); is("x*W", crossMatrix(s.A) * W, s.x * w); is("WT*x", W.transpose() * crossMatrix(s.A), dtr(w) * s.x); is("-x*W", -crossMatrix(s.A) * W, -(s.x * w)); is("x*M", crossMatrix(s.A) * M, s.x * s.m); is("M*x", M * crossMatrix(s.A), s.m * s.x); is("x*H", crossMatrix(s.A) * H3, s.x * w); is("-x*H", -crossMatrix(s.A) * H3, -(s.x * w)); is("HT*x", H3.transpose() * crossMatrix(s.A), dtr(w) * s.x); is("HT*-x", H3.transpose() * -crossMatrix(s.A), -(dtr(w) * s.x)); is("x*v", crossMatrix(s.A) * v, s.x * s.b); is("vT*x", v.transpose() * crossMatrix(s.A), dtr(s.b) * s.x))
H(G19_cross_assign, Vecs s; Matrix3d P = crossMatrix(s.B); same("init", P, s.y); P = s.M; P += crossMatrix(s.A); same("+=", P, s.m + s.x); P = s.M; P -= crossMatrix(s.A) * P; same("-= x*P", P, s.m - s.x * s.m); P = s.M; P = crossMatrix(s.A) * P; same("P = x*P", P, s.x * s.m); P = s.M; P = P * crossMatrix(s.A); same("P = P*x", P, s.m * s.x); P = s.M; P *= crossMatrix(s.A); same("P *= x", P, s.m * s.x); P = s.M; P = -crossMatrix(s.A) * P.transpose(); same("P = -x*PT", P, -(s.x * dtr(s.m))); Matrix<double, 6, 6> Z = fix<6, 6>(dvar("Z", 6, 6)); Z.block<3, 3>(3, 0) = crossMatrix(s.A); same("block", Z, dset(dvar("Z", 6, 6), 3, 0, s.x)); Z.bottomRightCorner<3, 3>().noalias() = crossMatrix(s.A) * s.M; same("block 2", Z, dset(dset(dvar("Z", 6, 6), 3, 0, s.x), 3, 3, s.x * s.m)); Vector3d a = s.A; a = crossMatrix(a) * s.B; same("a = x(a)*b", a, s.x * s.b); a = s.A; a = crossMatrix(s.B) * a; same("a = y*a", a, s.y * s.a); a = s.A; P = crossMatrix(P.col(0)) * s.M; same("P = x(P.col)*M", P, dhat(dblk(-(s.x * dtr(s.m)), 0, 0, 3, 1)) * s.m))
H(G19_uncross, Vecs s; same("of cross", uncrossMatrix(crossMatrix(s.A)), s.a); same("of negated", uncrossMatrix(-crossMatrix(s.A)), -s.a); same("of transposed", uncrossMatrix(crossMatrix(s.A).transpose()), -s.a); same("of sum", uncrossMatrix(crossMatrix(s.A) + crossMatrix(s.B)), s.a + s.b); same("of commutator", uncrossMatrix(crossMatrix(s.A) * crossMatrix(s.B) - crossMatrix(s.B) * crossMatrix(s.A)), s.x * s.b); same("of dense", uncrossMatrix(Matrix3d(s.M - s.M.transpose())), [&] { D v = dzero(3, 1); v.a[0][0] = s.m.a[2][1] - s.m.a[1][2]; v.a[1][0] = s.m.a[0][2] - s.m.a[2][0]; v.a[2][0] = s.m.a[1][0] - s.m.a[0][1]; return v; }()); same("of block", uncrossMatrix(dyn(s.x).block<3, 3>(0, 0)), s.a))
// ------------------------------------------------------------- identity
H(G19_identity, is("I", IdentityMatrix<double, 3>{}, deye(3)); is("I6", IdentityMatrix<double, 6>{}, deye(6)); is("I1", IdentityMatrix<double, 1>{}, deye(1)); is("-I", -IdentityMatrix<double, 3>{}, -deye(3)); is("2*I", 2 * IdentityMatrix<double, 6>{}, 2 * deye(6)); is("I/4", IdentityMatrix<double, 3>{} / 4, 0.25 * deye(3)); is("I transposed", IdentityMatrix<double, 6>{}.transpose(), deye(6)); is("I*I", IdentityMatrix<double, 3>{} * IdentityMatrix<double, 3>{}, deye(3)); is("I+I", IdentityMatrix<double, 3>{} + IdentityMatrix<double, 3>{}, 2 * deye(3)); is("I-I", IdentityMatrix<double, 1>{} - IdentityMatrix<double, 1>{}, dzero(1, 1)))
H(G19_identity_operand3, operand("I3", IdentityMatrix<double, 3>{}, deye(3)))
H(G19_identity_operand6, operand("I6", IdentityMatrix<double, 6>{}, deye(6)))
H(G19_identity_operand1, operand("I1", IdentityMatrix<double, 1>{}, deye(1)))
H(G19_identity3, Vecs s; IdentityMatrix<double, 3> I; is("I*M", I * s.M, s.m); is("M*I", s.M * I, s.m); is("I*a", I * s.A, s.a); is("aT*I", s.A.transpose() * I, dtr(s.a)); is("I*M*I", I * s.M * I, s.m); is("M*I*N", s.M * I * s.N, s.m * s.n); is("I*(M*N)", I * (s.M * s.N), s.m * s.n); is("(M*N)*I", (s.M * s.N) * I, s.m * s.n); is("I*MT", I * s.M.transpose(), dtr(s.m)); is("(M+N)*I", (s.M + s.N) * I, s.m + s.n); is("-I*M", -I * s.M, -s.m); is("(2*I)*M", (2 * I) * s.M, 2 * s.m); is("I*x", I * crossMatrix(s.A), s.x); is("x*I", crossMatrix(s.A) * I, s.x); is("I*-x", I * -crossMatrix(s.A), -s.x); is("-x*I", -crossMatrix(s.A) * I, -s.x); is("I-x", I - crossMatrix(s.A), deye(3) - s.x); is("x-I", crossMatrix(s.A) - I, s.x - deye(3)); is("I+x*x", I + crossMatrix(s.A) * crossMatrix(s.A), deye(3) + s.x * s.x); is("IT*M", I.transpose() * s.M, s.m); is("M*IT", s.M * I.transpose(), s.m))
H(G19_identity1, Vecs s; IdentityMatrix<double, 1> I; const D k = dvar("k", 1, 1); const auto K = fix<1, 1>(k); is("I*K", I * K, k); is("K*I", K * I, k); is("I*(aT*b)", I * (s.A.transpose() * s.B), dtr(s.a) * s.b); is("(aT*b)*I", (s.A.transpose() * s.B) * I, dtr(s.a) * s.b); is("I*aT", I * s.A.transpose(), dtr(s.a)); is("a*I", s.A * I, s.a); is("(M*a)*I", (s.M * s.A) * I, s.m * s.a); is("I*(aT*M)", I * (s.A.transpose() * s.M), dtr(s.a) * s.m); is("I*lazy", I * s.A.transpose().lazyProduct(s.B), dtr(s.a) * s.b))
H(G19_identity6, IdentityMatrix<double, 6> I; const D m = dvar("m", 6, 6), w = dvar("w", 3, 6); const auto M = fix<6, 6>(m); const auto W = fix<3, 6>(w); is("I*M", I * M, m); is("M*I", M * I, m); is("W*I", W * I, w); is("I*WT", I * W.transpose(), dtr(w)); is("I*M.col", I * M.col(2), dblk(m, 0, 2, 6, 1)); is("M.row*I", M.row(4) * I, dblk(m, 4, 0, 1, 6)); is("I*M.leftCols", I * M.leftCols<3>(), dblk(m, 0, 0, 6, 3)); is("I-M", I - M, deye(6) - m); is("W*I*M", W * I * M, w * m); Matrix<double, 6, 6> P; P = I; same("P=I", P, deye(6)); P += I * M; same("P+=I*M", P, deye(6) + m); P = M; P = I * P; same("P=I*P", P, m); P = M; P.block<3, 3>(0, 3) = IdentityMatrix<double, 3>{}; same("block", P, dset(m, 0, 3, deye(3))); P = M; P.middleCols<3>(1) = I.template rightCols<3>(); same("columns of I", P, dset(m, 0, 1, dblk(deye(6), 0, 3, 6, 3))))
H(G19_identity_dynamic, Vecs s; IdentityMatrix<double, 3> I; const D w = dvar("w", 3, 4); const Eigen::MatrixXd W = dyn(w), M = dyn(s.m); is("I*W", I * W, w); is("WT*I", W.transpose() * I, dtr(w)); is("I+M", I + M, deye(3) + s.m); is("M-I", M - I, s.m - deye(3)); is("I*M*I", I * M * I, s.m); Eigen::MatrixXd P = I; same("P(I)", P, deye(3)); P += M; same("+=", P, deye(3) + s.m))
