#ifdef FRAMES_MODES
#define NM(x) G13m_##x
#else
#define NM(x) G13_##x
#endif
#define UU(n, ...) U_(NM(n), __VA_ARGS__)
#define BB(n, ...) B_(NM(n), __VA_ARGS__)
#define UN(n, ...) UN_(NM(n), __VA_ARGS__)
#define UN_(...) UNZ(__VA_ARGS__)
#define U_(...) U(__VA_ARGS__)
#define B_(...) B(__VA_ARGS__)
// leaves and casts of leaves
UU(id_M, RM, AB, frame_cast<FC, FD>(x)) UU(id_Q, RQ, AB, frame_cast<FC, FD>(x)) UU(id_A, RA, AB, frame_cast<FC, FD>(x)) UU(id_TM, TM, AB, frame_cast<FC, FD>(x)) UU(id_TQ, TQ, AB, frame_cast<FC, FD>(x))
UU(id_v, TR, ABC, frame_cast<FC, FD, FD>(x)) UU(id_p, PT, AB, frame_cast<FC, FD>(x)) UU(id_t, TW, ABC, frame_cast<FA, FC, FD>(x)) UU(id_r, RR, ABC, frame_cast<FC, FD, FD>(x))
UU(drop_M, RM, AB, frame_cast<NoFrame, NoFrame>(x)) UU(drop_TQ, TQ, AB, frame_cast<NoFrame, NoFrame>(x)) UU(drop_v, TR, ABC, frame_cast<NoFrame, NoFrame, NoFrame>(x)) UU(drop_t, TW, ABC, frame_cast<NoFrame, NoFrame, NoFrame>(x))
UU(cast2, TR, ABC, frame_cast<FA, FB, FD>(frame_cast<FC, FC, FC>(x))) UU(cast_expr, TR, ABC, frame_cast<FA, FB, FC>(-x) + frame_cast<FA, FC, FB>(2.0 * x)) UU(cast_sum, TR, ABC, frame_cast<FA, FB, FC>(x) + frame_cast<FA, FC, FB>(x)) UU(drop_sum, TR, ABC, frame_cast<NoFrame, NoFrame, NoFrame>(x) - frame_cast<NoFrame, NoFrame, NoFrame>(-x))
// one operand
UU(inv_M, RM, AB, inverse(x)) UU(inv_Q, RQ, AB, inverse(x)) UU(inv_TM, TM, AB, inverse(x)) UU(inv_TQ, TQ, AB, inverse(x)) UU(rot_TM, TM, AB, x.rotation()) UU(rot_TQ, TQ, AB, x.rotation()) UU(tra_TM, TM, AB, x.translation()) UU(tra_TQ, TQ, AB, x.translation())
UU(neg_v, TR, ABC, -x) UU(neg_t, TW, ABC, -x) UU(scale, TR, ABC, 3.0 * x) UU(scaleR, RR, ABC, x * 3.0) UU(div, TW, ABC, x / 2.0) UN(norm, TR, ABC, x.norm()) UU(norm2, RR, ABC, x.squaredNorm()) UN(normal, TR, ABC, x.normalized())
UU(invrot, TQ, AB, inverse(x).rotation()) UU(invtra, TM, AB, inverse(x).translation())
// two operands
BB(comp_MM, RM, AB, RM, BC, x * y) BB(comp_QQ, RQ, AB, RQ, BC, x * y) BB(comp_MQ, RM, AB, RQ, BC, x * y) BB(comp_AQ, RA, AB, RQ, BC, x * y) BB(comp_TM, TM, AB, TM, BC, x * y) BB(comp_TQM, TQ, AB, TM, BC, x * y)
BB(compinv, RQ, AB, RM, CB, x * inverse(y)) BB(compinvT, TQ, AB, TQ, CB, x * inverse(y)) BB(rot_Mv, RM, AB, TR, BCD, x * y) BB(rot_Qv, RQ, AB, TR, BCD, x * y) BB(rot_Av, RA, AB, TR, BCD, x * y) BB(tf_M, TM, AB, TR, BBC, x * y) BB(tf_Q, TQ, AB, TR, BBC, x * y)
BB(sum, TR, ABC, TR, ACD, x + y) BB(sumr, TR, ACD, TR, ABC, x + y) BB(sub, TW, ABC, TW, ABD, x - y) BB(subr, RR, ABD, RR, ACD, x - y) BB(pv, PT, AB, TR, ABC, x + y) BB(vp, TR, ABC, PT, AB, x + y) BB(pp, PT, AB, PT, AC, x - y) BB(dot, TR, ABC, TR, BCD, dot(x, y)) BB(scalev, SD, NNN, TR, ABC, x * y)
BB(nest, RM, AB, TR, BCD, -(x * (y + k(fs<FB, FD, FA>{}, 2.0 * y)))) BB(nest2, TQ, AB, TR, BBC, x.rotation() * y - k(fs<FA, FB, FD>{}, x.translation())) BB(mixed, RM, AB, TR, BCD, frame_cast<NoFrame, NoFrame>(x) * frame_cast<NoFrame, NoFrame, NoFrame>(y))
