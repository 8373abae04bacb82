// G20: approximate comparison of rigid transforms.
#include "approx_rigid.hpp"
H(G20_rigid_M_M, rigid<TM, TM>())
