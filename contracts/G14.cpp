// G14: stored expressions own their temporaries, refer to named operands, and read current values (one operation).
// NATIVE: asan
#include "stored.hpp"
U1(inv_M, RM, inverse(FW(x))) U1(inv_Q, RQ, inverse(FW(x))) U1(inv_TM, TM, inverse(FW(x))) U1(inv_TQ, TQ, inverse(FW(x)))
U1(neg_T, TR, -FW(x)) U1(neg_R, RR, -FW(x)) U1(neg_W, TW, -FW(x)) U1(neg_S, SD, -FW(x))
U1(sq, TR, FW(x).squaredNorm()) U1(rotpart, TM, FW(x).rotation()) U1(trpart, TM, FW(x).translation()) U1(rotpartq, TQ, FW(x).rotation()) U1(trpartq, TQ, FW(x).translation())
U2(rot_M, RM, TR, FW(x) * FW(y)) U2(rot_Q, RQ, TR, FW(x) * FW(y)) U2(tf_M, TM, TR, FW(x) * FW(y)) U2(tf_Q, TQ, TR, FW(x) * FW(y))
U2(comp_MM, RM, RM, FW(x) * FW(y)) U2(comp_MQ, RM, RQ, FW(x) * FW(y)) U2(comp_QM, RQ, RM, FW(x) * FW(y)) U2(comp_QQ, RQ, RQ, FW(x) * FW(y))
U2(add, TR, TR, FW(x) + FW(y)) U2(sub, TR, TR, FW(x) - FW(y)) U2(add_R, RR, RR, FW(x) + FW(y)) U2(sub_W, TW, TW, FW(x) - FW(y)) U2(add_P, PT, TR, FW(x) + FW(y)) U2(sub_P, PT, PT, FW(x) - FW(y)) U2(sub_PT, PT, TR, FW(x) - FW(y))
U2(dot, TR, TR, dot(FW(x), FW(y))) U2(scale_L, SD, TR, FW(x) * FW(y)) U2(scale_R, TR, SD, FW(x) * FW(y)) U2(scale_W, TW, SD, FW(x) * FW(y))
U2(add_S, SD, SD, FW(x) + FW(y)) U2(sub_S, SD, SD, FW(x) - FW(y)) U2(mul_S, SD, SD, FW(x) * FW(y))
