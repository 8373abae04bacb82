// G10: more expressions.
// SCOPE: internal
#include "modes.hpp"
T2(parts, TM, RM, x.rotation() * y)
T2(tpart, TQ, TR, x.translation() - y)
T2(dotn, TR, TR, dot(x, y) + x.squaredNorm())
T3(chain, RM, RQ, TR, x * (y * z))
T3(mix, TM, SD, TR, x * (y * z))
T3(sums, TR, RM, TR, x + y * z - x)
T3(neg, RQ, SD, TR, -(x * (y * z)))
T3(compose3, TM, TM, TR, inverse(x) * y * z)
H(G10_div, { In<TR> x("x"); In<SD> y("y"); vc_assume_ne(y.x, 0); all(x.leaf / y.leaf, x.leaf, y.leaf); })
