// G16: box-plus and box-minus with the identity.
#include "G16_elements.hpp"
H(G16_plus_M, plus<RM, RR>()) H(G16_plus_Q, plus<RQ, RR>()) H(G16_plus_TM, plus<TM, TW>()) H(G16_plus_TQ, plus<TQ, TW>())
H(G16_minus_MM, minus<RM, RM>()) H(G16_minus_QM, minus<RQ, RM>()) H(G16_minus_QQ, minus<RQ, RQ>()) H(G16_minus_MQ, minus<RM, RQ>()) H(G16_minus_MA, minus<RM, RA>())
