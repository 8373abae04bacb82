// G21: leaves over external storage: quaternions.
// NATIVE: asan
#define KIT Kit
#include "mapped.hpp"
using L_Q_map = Contig<RQ, QuaternionRotation, Qd>; H(G21_leaf_Q_map, readsLeaf<L_Q_map>())
READ(Q_map_0, L_Q_map, x * k.v.leaf)
READ(Q_map_1, L_Q_map, inverse(x))
READ(Q_map_2, L_Q_map, x * k.Q.leaf)
READ(Q_map_3, L_Q_map, k.R.leaf * x)
READ(Q_map_4, L_Q_map, x + k.r.leaf)
H(G21_log_Q_map, readsLog<L_Q_map>())
READ(Q_map_6, L_Q_map, inverse(x) * k.Q.leaf * x)
H(G21_assign_Q_map, writesLeaf<L_Q_map>())
WRITE(Q_map_0, L_Q_map, inverse(x))
WRITE(Q_map_1, L_Q_map, x * k.Q.leaf)
WRITE(Q_map_2, L_Q_map, x * x)
WRITE(Q_map_3, L_Q_map, k.Q.leaf * inverse(x))
WRITE(Q_map_4, L_Q_map, x + k.r.leaf)
WRITE(Q_map_5, L_Q_map, k.R.leaf * x)
using L_Q_const = Const<RQ, QuaternionRotation, Qd>; H(G21_leaf_Q_const, readsLeaf<L_Q_const>())
READ(Q_const_0, L_Q_const, x * k.v.leaf)
READ(Q_const_1, L_Q_const, inverse(x))
READ(Q_const_2, L_Q_const, x * k.Q.leaf)
READ(Q_const_3, L_Q_const, k.R.leaf * x)
READ(Q_const_4, L_Q_const, x + k.r.leaf)
H(G21_log_Q_const, readsLog<L_Q_const>())
READ(Q_const_6, L_Q_const, inverse(x) * k.Q.leaf * x)
