// G10: all differentiation modes agree, on the library's own operations; several targets at once, in any order and repeated,
// give the same as one by one. The run-time forward mode with one target is the reference (G05-G09 tie it to the derivative).
// SCOPE: internal
#include "modes.hpp"
T1(inv_M, RM, inverse(x))
T1(inv_TM, TM, inverse(x))
T1(inv_TQ, TQ, inverse(x))
T1(sq, TR, x.squaredNorm())
T1(self_M, RM, x * x)
T1(self_sum, TR, x + x)
T1(self_dot, TR, dot(x, x))
T1(self_invself, RQ, inverse(x) * x)
T2(rot, RM, TR, x * y)
T2(rotq, RQ, TR, x * y)
