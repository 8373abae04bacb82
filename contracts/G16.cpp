// G16: the identity alone, applied to vectors, its parts, framed.
#include "G16_elements.hpp"
#define A1(n, ...) H(G16_id_##n, alone<__VA_ARGS__>()) H(G16_acts_##n, acts<__VA_ARGS__>())
A1(M, RM) A1(Q, RQ) A1(A, RA) A1(TM, TM) A1(TQ, TQ)
#define TH(a, b, A, B) H(G16_through_##a##b, actsThrough<A, B>())
TH(M, M, RM, RM) TH(Q, M, RQ, RM) TH(A, Q, RA, RQ) TH(M, Q, RM, RQ) TH(TM, TM, TM, TM) TH(TQ, TM, TQ, TM) TH(TM, TQ, TM, TQ)
H(G16_parts_M, parts<TM>()) H(G16_parts_Q, parts<TQ>())
H(G16_framed_M, framed<RM>()) H(G16_framed_Q, framed<RQ>()) H(G16_framed_v, framedZero())
