// G10: more expressions.
// SCOPE: internal
#include "modes.hpp"
T2(tf, TM, TR, x * y)
T2(tfq, TQ, TR, x * y)
T2(comp_MQ, RM, RQ, x * y)
T2(comp_TT, TM, TQ, x * y)
T2(comp_MM, RM, RM, x * y)
T2(twice, RM, TR, x * (x * y))
T2(twice_inv, RQ, TR, inverse(x) * (y + x * y))
T2(scale, SD, TR, x * y)
T2(point, PT, TR, x - y)
T2(points, PT, PT, x - y)
