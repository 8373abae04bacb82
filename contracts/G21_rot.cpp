// G21: leaves over external storage: rotation matrices.
// NATIVE: asan
#define KIT Kit
#include "mapped.hpp"
using L_R_map = Contig<RM, MatrixRotation, M3d>; H(G21_leaf_R_map, readsLeaf<L_R_map>())
READ(R_map_0, L_R_map, x * k.v.leaf)
READ(R_map_1, L_R_map, inverse(x))
READ(R_map_2, L_R_map, x * k.R.leaf)
READ(R_map_3, L_R_map, k.Q.leaf * x)
READ(R_map_4, L_R_map, x + k.r.leaf)
H(G21_log_R_map, readsLog<L_R_map>())
READ(R_map_6, L_R_map, inverse(x) * k.R.leaf * x)
H(G21_assign_R_map, writesLeaf<L_R_map>())
WRITE(R_map_0, L_R_map, inverse(x))
WRITE(R_map_1, L_R_map, x * k.R.leaf)
WRITE(R_map_2, L_R_map, x * x)
WRITE(R_map_3, L_R_map, k.R.leaf * inverse(x))
WRITE(R_map_4, L_R_map, x + k.r.leaf)
WRITE(R_map_5, L_R_map, k.Q.leaf * x)
using L_R_block = RotBlock; H(G21_leaf_R_block, readsLeaf<L_R_block>())
READ(R_block_0, L_R_block, x * k.v.leaf)
READ(R_block_1, L_R_block, inverse(x))
READ(R_block_2, L_R_block, x * k.R.leaf)
READ(R_block_3, L_R_block, k.Q.leaf * x)
READ(R_block_4, L_R_block, x + k.r.leaf)
H(G21_log_R_block, readsLog<L_R_block>())
READ(R_block_6, L_R_block, inverse(x) * k.R.leaf * x)
H(G21_assign_R_block, writesLeaf<L_R_block>())
WRITE(R_block_0, L_R_block, inverse(x))
WRITE(R_block_1, L_R_block, x * k.R.leaf)
WRITE(R_block_2, L_R_block, x * x)
WRITE(R_block_3, L_R_block, k.R.leaf * inverse(x))
WRITE(R_block_4, L_R_block, x + k.r.leaf)
WRITE(R_block_5, L_R_block, k.Q.leaf * x)
using L_R_ref = RotRef; H(G21_leaf_R_ref, readsLeaf<L_R_ref>())
READ(R_ref_0, L_R_ref, x * k.v.leaf)
READ(R_ref_1, L_R_ref, inverse(x))
READ(R_ref_2, L_R_ref, x * k.R.leaf)
READ(R_ref_3, L_R_ref, k.Q.leaf * x)
READ(R_ref_4, L_R_ref, x + k.r.leaf)
H(G21_log_R_ref, readsLog<L_R_ref>())
READ(R_ref_6, L_R_ref, inverse(x) * k.R.leaf * x)
H(G21_assign_R_ref, writesLeaf<L_R_ref>())
WRITE(R_ref_0, L_R_ref, inverse(x))
WRITE(R_ref_1, L_R_ref, x * k.R.leaf)
WRITE(R_ref_2, L_R_ref, x * x)
WRITE(R_ref_3, L_R_ref, k.R.leaf * inverse(x))
WRITE(R_ref_4, L_R_ref, x + k.r.leaf)
WRITE(R_ref_5, L_R_ref, k.Q.leaf * x)
using L_R_row = RotRow; H(G21_leaf_R_row, readsLeaf<L_R_row>())
READ(R_row_0, L_R_row, x * k.v.leaf)
READ(R_row_1, L_R_row, inverse(x))
READ(R_row_2, L_R_row, x * k.R.leaf)
READ(R_row_3, L_R_row, k.Q.leaf * x)
READ(R_row_4, L_R_row, x + k.r.leaf)
H(G21_log_R_row, readsLog<L_R_row>())
READ(R_row_6, L_R_row, inverse(x) * k.R.leaf * x)
H(G21_assign_R_row, writesLeaf<L_R_row>())
WRITE(R_row_0, L_R_row, inverse(x))
WRITE(R_row_1, L_R_row, x * k.R.leaf)
WRITE(R_row_2, L_R_row, x * x)
WRITE(R_row_3, L_R_row, k.R.leaf * inverse(x))
WRITE(R_row_4, L_R_row, x + k.r.leaf)
WRITE(R_row_5, L_R_row, k.Q.leaf * x)
using L_R_outer = RotOuter; H(G21_leaf_R_outer, readsLeaf<L_R_outer>())
READ(R_outer_0, L_R_outer, x * k.v.leaf)
READ(R_outer_1, L_R_outer, inverse(x))
READ(R_outer_2, L_R_outer, x * k.R.leaf)
READ(R_outer_3, L_R_outer, k.Q.leaf * x)
READ(R_outer_4, L_R_outer, x + k.r.leaf)
H(G21_log_R_outer, readsLog<L_R_outer>())
READ(R_outer_6, L_R_outer, inverse(x) * k.R.leaf * x)
H(G21_assign_R_outer, writesLeaf<L_R_outer>())
WRITE(R_outer_0, L_R_outer, inverse(x))
WRITE(R_outer_1, L_R_outer, x * k.R.leaf)
WRITE(R_outer_2, L_R_outer, x * x)
WRITE(R_outer_3, L_R_outer, k.R.leaf * inverse(x))
WRITE(R_outer_4, L_R_outer, x + k.r.leaf)
WRITE(R_outer_5, L_R_outer, k.Q.leaf * x)
using L_R_const = Const<RM, MatrixRotation, M3d>; H(G21_leaf_R_const, readsLeaf<L_R_const>())
READ(R_const_0, L_R_const, x * k.v.leaf)
READ(R_const_1, L_R_const, inverse(x))
READ(R_const_2, L_R_const, x * k.R.leaf)
READ(R_const_3, L_R_const, k.Q.leaf * x)
READ(R_const_4, L_R_const, x + k.r.leaf)
H(G21_log_R_const, readsLog<L_R_const>())
READ(R_const_6, L_R_const, inverse(x) * k.R.leaf * x)
