// G21: leaves over external storage: 4x4 rigid transforms.
// NATIVE: asan
#define KIT Kit
#include "mapped.hpp"
using L_T_map = Contig<TM, MatrixRigidTransform, M4d>; H(G21_leaf_T_map, readsLeaf<L_T_map>())
READ(T_map_0, L_T_map, x * k.v.leaf)
READ(T_map_1, L_T_map, inverse(x))
READ(T_map_2, L_T_map, x * k.T.leaf)
READ(T_map_3, L_T_map, k.U.leaf * x)
READ(T_map_4, L_T_map, x + k.t.leaf)
READ(T_map_5, L_T_map, x.rotation() * k.v.leaf)
READ(T_map_6, L_T_map, x.translation() + k.v.leaf)
READ(T_map_7, L_T_map, inverse(x) * x * k.T.leaf)
H(G21_assign_T_map, writesLeaf<L_T_map>())
WRITE(T_map_0, L_T_map, inverse(x))
WRITE(T_map_1, L_T_map, x * k.T.leaf)
WRITE(T_map_2, L_T_map, x * x)
WRITE(T_map_3, L_T_map, k.T.leaf * inverse(x))
WRITE(T_map_4, L_T_map, x + k.t.leaf)
using L_T_row = RigidRow; H(G21_leaf_T_row, readsLeaf<L_T_row>())
READ(T_row_0, L_T_row, x * k.v.leaf)
READ(T_row_1, L_T_row, inverse(x))
READ(T_row_2, L_T_row, x * k.T.leaf)
READ(T_row_3, L_T_row, k.U.leaf * x)
READ(T_row_4, L_T_row, x + k.t.leaf)
READ(T_row_5, L_T_row, x.rotation() * k.v.leaf)
READ(T_row_6, L_T_row, x.translation() + k.v.leaf)
READ(T_row_7, L_T_row, inverse(x) * x * k.T.leaf)
H(G21_assign_T_row, writesLeaf<L_T_row>())
WRITE(T_row_0, L_T_row, inverse(x))
WRITE(T_row_1, L_T_row, x * k.T.leaf)
WRITE(T_row_2, L_T_row, x * x)
WRITE(T_row_3, L_T_row, k.T.leaf * inverse(x))
WRITE(T_row_4, L_T_row, x + k.t.leaf)
using L_T_block = RigidBlock; H(G21_leaf_T_block, readsLeaf<L_T_block>())
READ(T_block_0, L_T_block, x * k.v.leaf)
READ(T_block_1, L_T_block, inverse(x))
READ(T_block_2, L_T_block, x * k.T.leaf)
READ(T_block_3, L_T_block, k.U.leaf * x)
READ(T_block_4, L_T_block, x + k.t.leaf)
READ(T_block_5, L_T_block, x.rotation() * k.v.leaf)
READ(T_block_6, L_T_block, x.translation() + k.v.leaf)
READ(T_block_7, L_T_block, inverse(x) * x * k.T.leaf)
H(G21_assign_T_block, writesLeaf<L_T_block>())
WRITE(T_block_0, L_T_block, inverse(x))
WRITE(T_block_1, L_T_block, x * k.T.leaf)
WRITE(T_block_2, L_T_block, x * x)
WRITE(T_block_3, L_T_block, k.T.leaf * inverse(x))
WRITE(T_block_4, L_T_block, x + k.t.leaf)
using L_T_ref = RefTo<TM, MatrixRigidTransform, M4d>; H(G21_leaf_T_ref, readsLeaf<L_T_ref>())
READ(T_ref_0, L_T_ref, x * k.v.leaf)
READ(T_ref_1, L_T_ref, inverse(x))
READ(T_ref_2, L_T_ref, x * k.T.leaf)
READ(T_ref_3, L_T_ref, k.U.leaf * x)
READ(T_ref_4, L_T_ref, x + k.t.leaf)
READ(T_ref_5, L_T_ref, x.rotation() * k.v.leaf)
READ(T_ref_6, L_T_ref, x.translation() + k.v.leaf)
READ(T_ref_7, L_T_ref, inverse(x) * x * k.T.leaf)
H(G21_assign_T_ref, writesLeaf<L_T_ref>())
WRITE(T_ref_0, L_T_ref, inverse(x))
WRITE(T_ref_1, L_T_ref, x * k.T.leaf)
WRITE(T_ref_2, L_T_ref, x * x)
WRITE(T_ref_3, L_T_ref, k.T.leaf * inverse(x))
WRITE(T_ref_4, L_T_ref, x + k.t.leaf)
using L_T_const = Const<TM, MatrixRigidTransform, M4d>; H(G21_leaf_T_const, readsLeaf<L_T_const>())
READ(T_const_0, L_T_const, x * k.v.leaf)
READ(T_const_1, L_T_const, inverse(x))
READ(T_const_2, L_T_const, x * k.T.leaf)
READ(T_const_3, L_T_const, k.U.leaf * x)
READ(T_const_4, L_T_const, x + k.t.leaf)
READ(T_const_5, L_T_const, x.rotation() * k.v.leaf)
READ(T_const_6, L_T_const, x.translation() + k.v.leaf)
READ(T_const_7, L_T_const, inverse(x) * x * k.T.leaf)
