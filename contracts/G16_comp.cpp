// G16: composition with the identity.
#include "G16_elements.hpp"
#define W(a, b, A, B) H(G16_comp_##a##b, with<A, B>())
W(M, M, RM, RM) W(M, Q, RM, RQ) W(M, A, RM, RA) W(Q, M, RQ, RM) W(Q, Q, RQ, RQ) W(Q, A, RQ, RA) W(A, M, RA, RM) W(A, Q, RA, RQ) W(A, A, RA, RA)
W(TM, TM, TM, TM) W(TM, TQ, TM, TQ) W(TQ, TM, TQ, TM) W(TQ, TQ, TQ, TQ)
