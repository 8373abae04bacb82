// G14: stored expressions own their temporaries, refer to named operands, and read current values (nested expressions).
// NATIVE: asan
#include "stored.hpp"
NEST(inv_act, RM, TR, inverse(FW(x)), FW(x) * FW(y)) NEST(inv_act_q, RQ, TR, inverse(FW(x)), FW(x) * FW(y)) NEST(inv_comp, RM, RQ, inverse(FW(x)), FW(x) * FW(y))
NEST(neg_add, TR, TR, -FW(x), FW(x) + FW(y)) NEST(neg_sub, TR, TR, -FW(x), FW(y) - FW(x)) NEST(neg_dot, TR, TR, -FW(x), dot(FW(y), FW(x))) NEST(neg_scale, TR, SD, -FW(x), FW(x) * FW(y)) NEST(neg_scaler, SD, TR, -FW(x), FW(x) * FW(y))
NEST(neg_point, TR, PT, -FW(x), FW(y) + FW(x)) NEST(neg_rotate, TR, RQ, -FW(x), FW(y) * FW(x)) NEST(neg_tf, TR, TQ, -FW(x), FW(y) * FW(x)) NEST(inv_tf, TQ, TR, inverse(FW(x)), FW(x) * FW(y)) NEST(inv_tfm, TM, TR, inverse(FW(x)), FW(x) * FW(y))
NEST(inv_comp_r, RM, RQ, inverse(FW(x)), FW(y) * FW(x)) NEST(sq_scale, TR, TR, FW(x).squaredNorm(), FW(x) * FW(y)) NEST(part, TM, TR, FW(x).rotation(), FW(x) * FW(y)) NEST(partt, TQ, TR, FW(x).translation(), FW(x) - FW(y)) NEST(scal, SD, SD, FW(x) * 3.0 + 1.0, FW(x) - FW(y)) NEST(twist, TW, TW, -FW(x), FW(y) + FW(x))
