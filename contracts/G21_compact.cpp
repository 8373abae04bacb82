// G21: leaves over external storage: compact rigid transforms.
// NATIVE: asan
#define KIT Kit
#include "mapped.hpp"
using L_U_map = CompactQ; H(G21_leaf_U_map, readsLeaf<L_U_map>())
READ(U_map_0, L_U_map, x * k.v.leaf)
READ(U_map_1, L_U_map, inverse(x))
READ(U_map_2, L_U_map, x * k.U.leaf)
READ(U_map_3, L_U_map, k.U.leaf * x)
READ(U_map_5, L_U_map, x.rotation() * k.v.leaf)
READ(U_map_6, L_U_map, x.translation() + k.v.leaf)
READ(U_map_7, L_U_map, inverse(x) * x * k.U.leaf)
H(G21_assign_U_map, writesLeaf<L_U_map>())
WRITE(U_map_0, L_U_map, inverse(x))
WRITE(U_map_1, L_U_map, x * k.U.leaf)
WRITE(U_map_2, L_U_map, x * x)
WRITE(U_map_3, L_U_map, k.U.leaf * inverse(x))
using L_U_gap = CompactGap; H(G21_leaf_U_gap, readsLeaf<L_U_gap>())
READ(U_gap_0, L_U_gap, x * k.v.leaf)
READ(U_gap_1, L_U_gap, inverse(x))
READ(U_gap_2, L_U_gap, x * k.U.leaf)
READ(U_gap_3, L_U_gap, k.U.leaf * x)
READ(U_gap_5, L_U_gap, x.rotation() * k.v.leaf)
READ(U_gap_6, L_U_gap, x.translation() + k.v.leaf)
READ(U_gap_7, L_U_gap, inverse(x) * x * k.U.leaf)
H(G21_assign_U_gap, writesLeaf<L_U_gap>())
WRITE(U_gap_0, L_U_gap, inverse(x))
WRITE(U_gap_1, L_U_gap, x * k.U.leaf)
WRITE(U_gap_2, L_U_gap, x * x)
WRITE(U_gap_3, L_U_gap, k.U.leaf * inverse(x))
using L_U_const = CompactConst; H(G21_leaf_U_const, readsLeaf<L_U_const>())
READ(U_const_0, L_U_const, x * k.v.leaf)
READ(U_const_1, L_U_const, inverse(x))
READ(U_const_2, L_U_const, x * k.U.leaf)
READ(U_const_3, L_U_const, k.U.leaf * x)
READ(U_const_5, L_U_const, x.rotation() * k.v.leaf)
READ(U_const_6, L_U_const, x.translation() + k.v.leaf)
READ(U_const_7, L_U_const, inverse(x) * x * k.U.leaf)
