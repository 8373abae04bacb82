// G16: zero vectors.
#include "G16_elements.hpp"
H(G16_zero_v, zeroVec<TR>()) H(G16_zero_r, zeroVec<RR>()) H(G16_zero_t, zeroVec<TW>())
H(G16_zerojac_v, zeroVecJac<TR>()) H(G16_zerojac_r, zeroVecJac<RR>()) H(G16_zerojac_t, zeroVecJac<TW>())
H(G16_zero_p, zeroPoint())
H(G16_act_M, actZero<RM>()) H(G16_act_Q, actZero<RQ>()) H(G16_act_A, actZero<RA>()) H(G16_act_TM, actZero<TM>()) H(G16_act_TQ, actZero<TQ>())
H(G16_exp_r, expZero<RR, RM>()) H(G16_exp_t, expZero<TW, TM>())
H(G16_add_M, addZero<RM, RR>()) H(G16_add_Q, addZero<RQ, RR>()) H(G16_add_A, addZero<RA, RR>()) H(G16_add_TM, addZero<TM, TW>()) H(G16_add_TQ, addZero<TQ, TW>())
H(G16_twist, twistParts())
