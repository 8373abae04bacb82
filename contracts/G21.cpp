// G21: leaves over external storage: vectors.
// NATIVE: asan
#include "mapped.hpp"
namespace {
inline TR kv() { return TR{vc_sym_i("kv", 0), vc_sym_i("kv", 1), vc_sym_i("kv", 2)}; } inline RR kr() { return RR{vc_sym_i("kr", 0), vc_sym_i("kr", 1), vc_sym_i("kr", 2)}; }
inline PT kp() { return PT{vc_sym_i("kp", 0), vc_sym_i("kp", 1), vc_sym_i("kp", 2)}; }
inline TW kt() { V6d t; for (int i = 0; i < 6; ++i) t(i) = vc_sym_i("kt", i); return TW{t}; }
}
using L_tr_contig = Contig<TR, wave::Translation, V3d>; H(G21_leaf_tr_contig, readsLeaf<L_tr_contig>())
READ(tr_contig_0, L_tr_contig, x + kv())
READ(tr_contig_1, L_tr_contig, kv() - x)
READ(tr_contig_2, L_tr_contig, -x)
READ(tr_contig_3, L_tr_contig, 2.5 * x)
READ(tr_contig_4, L_tr_contig, x / 4.0)
READ(tr_contig_5, L_tr_contig, x.squaredNorm())
READ(tr_contig_6, L_tr_contig, dot(kv(), x))
READ(tr_contig_7, L_tr_contig, x + kp())
H(G21_assign_tr_contig, writesLeaf<L_tr_contig>())
WRITE(tr_contig_0, L_tr_contig, x + kv())
WRITE(tr_contig_1, L_tr_contig, -x)
WRITE(tr_contig_2, L_tr_contig, 2.5 * x)
WRITE(tr_contig_3, L_tr_contig, kv() - (x + x))
WRITE(tr_contig_4, L_tr_contig, x.squaredNorm() * x)
using L_tr_strided = Strided<TR, wave::Translation, V3d>; H(G21_leaf_tr_strided, readsLeaf<L_tr_strided>())
READ(tr_strided_0, L_tr_strided, x + kv())
READ(tr_strided_1, L_tr_strided, kv() - x)
READ(tr_strided_2, L_tr_strided, -x)
READ(tr_strided_3, L_tr_strided, 2.5 * x)
READ(tr_strided_4, L_tr_strided, x / 4.0)
READ(tr_strided_5, L_tr_strided, x.squaredNorm())
READ(tr_strided_6, L_tr_strided, dot(kv(), x))
READ(tr_strided_7, L_tr_strided, x + kp())
H(G21_assign_tr_strided, writesLeaf<L_tr_strided>())
WRITE(tr_strided_0, L_tr_strided, x + kv())
WRITE(tr_strided_1, L_tr_strided, -x)
WRITE(tr_strided_2, L_tr_strided, 2.5 * x)
WRITE(tr_strided_3, L_tr_strided, kv() - (x + x))
WRITE(tr_strided_4, L_tr_strided, x.squaredNorm() * x)
using L_tr_ref = RefTo<TR, wave::Translation, V3d>; H(G21_leaf_tr_ref, readsLeaf<L_tr_ref>())
READ(tr_ref_0, L_tr_ref, x + kv())
READ(tr_ref_1, L_tr_ref, kv() - x)
READ(tr_ref_2, L_tr_ref, -x)
READ(tr_ref_3, L_tr_ref, 2.5 * x)
READ(tr_ref_4, L_tr_ref, x / 4.0)
READ(tr_ref_5, L_tr_ref, x.squaredNorm())
READ(tr_ref_6, L_tr_ref, dot(kv(), x))
READ(tr_ref_7, L_tr_ref, x + kp())
H(G21_assign_tr_ref, writesLeaf<L_tr_ref>())
WRITE(tr_ref_0, L_tr_ref, x + kv())
WRITE(tr_ref_1, L_tr_ref, -x)
WRITE(tr_ref_2, L_tr_ref, 2.5 * x)
WRITE(tr_ref_3, L_tr_ref, kv() - (x + x))
WRITE(tr_ref_4, L_tr_ref, x.squaredNorm() * x)
using L_tr_col = ColBlock<TR, wave::Translation, 3>; H(G21_leaf_tr_col, readsLeaf<L_tr_col>())
READ(tr_col_0, L_tr_col, x + kv())
READ(tr_col_1, L_tr_col, kv() - x)
READ(tr_col_2, L_tr_col, -x)
READ(tr_col_3, L_tr_col, 2.5 * x)
READ(tr_col_4, L_tr_col, x / 4.0)
READ(tr_col_5, L_tr_col, x.squaredNorm())
READ(tr_col_6, L_tr_col, dot(kv(), x))
READ(tr_col_7, L_tr_col, x + kp())
H(G21_assign_tr_col, writesLeaf<L_tr_col>())
WRITE(tr_col_0, L_tr_col, x + kv())
WRITE(tr_col_1, L_tr_col, -x)
WRITE(tr_col_2, L_tr_col, 2.5 * x)
WRITE(tr_col_3, L_tr_col, kv() - (x + x))
WRITE(tr_col_4, L_tr_col, x.squaredNorm() * x)
using L_tr_const = Const<TR, wave::Translation, V3d>; H(G21_leaf_tr_const, readsLeaf<L_tr_const>())
READ(tr_const_0, L_tr_const, x + kv())
READ(tr_const_1, L_tr_const, kv() - x)
READ(tr_const_2, L_tr_const, -x)
READ(tr_const_3, L_tr_const, 2.5 * x)
READ(tr_const_4, L_tr_const, x / 4.0)
READ(tr_const_5, L_tr_const, x.squaredNorm())
READ(tr_const_6, L_tr_const, dot(kv(), x))
READ(tr_const_7, L_tr_const, x + kp())
using L_pt_contig = Contig<PT, wave::Point, V3d>; H(G21_leaf_pt_contig, readsLeaf<L_pt_contig>())
READ(pt_contig_0, L_pt_contig, x - kp())
READ(pt_contig_1, L_pt_contig, kp() - x)
READ(pt_contig_2, L_pt_contig, x + kv())
READ(pt_contig_3, L_pt_contig, x - kv())
H(G21_assign_pt_contig, writesLeaf<L_pt_contig>())
WRITE(pt_contig_0, L_pt_contig, x + kv())
using L_pt_strided = Strided<PT, wave::Point, V3d>; H(G21_leaf_pt_strided, readsLeaf<L_pt_strided>())
READ(pt_strided_0, L_pt_strided, x - kp())
READ(pt_strided_1, L_pt_strided, kp() - x)
READ(pt_strided_2, L_pt_strided, x + kv())
READ(pt_strided_3, L_pt_strided, x - kv())
H(G21_assign_pt_strided, writesLeaf<L_pt_strided>())
WRITE(pt_strided_0, L_pt_strided, x + kv())
using L_pt_ref = RefTo<PT, wave::Point, V3d>; H(G21_leaf_pt_ref, readsLeaf<L_pt_ref>())
READ(pt_ref_0, L_pt_ref, x - kp())
READ(pt_ref_1, L_pt_ref, kp() - x)
READ(pt_ref_2, L_pt_ref, x + kv())
READ(pt_ref_3, L_pt_ref, x - kv())
H(G21_assign_pt_ref, writesLeaf<L_pt_ref>())
WRITE(pt_ref_0, L_pt_ref, x + kv())
using L_pt_col = ColBlock<PT, wave::Point, 3>; H(G21_leaf_pt_col, readsLeaf<L_pt_col>())
READ(pt_col_0, L_pt_col, x - kp())
READ(pt_col_1, L_pt_col, kp() - x)
READ(pt_col_2, L_pt_col, x + kv())
READ(pt_col_3, L_pt_col, x - kv())
H(G21_assign_pt_col, writesLeaf<L_pt_col>())
WRITE(pt_col_0, L_pt_col, x + kv())
using L_pt_const = Const<PT, wave::Point, V3d>; H(G21_leaf_pt_const, readsLeaf<L_pt_const>())
READ(pt_const_0, L_pt_const, x - kp())
READ(pt_const_1, L_pt_const, kp() - x)
READ(pt_const_2, L_pt_const, x + kv())
READ(pt_const_3, L_pt_const, x - kv())
using L_rr_contig = Contig<RR, wave::RelativeRotation, V3d>; H(G21_leaf_rr_contig, readsLeaf<L_rr_contig>())
READ(rr_contig_0, L_rr_contig, x + kr())
READ(rr_contig_1, L_rr_contig, -x)
READ(rr_contig_2, L_rr_contig, x * 3.0)
READ(rr_contig_3, L_rr_contig, dot(x, kr()))
H(G21_assign_rr_contig, writesLeaf<L_rr_contig>())
WRITE(rr_contig_0, L_rr_contig, -x)
WRITE(rr_contig_1, L_rr_contig, x + kr())
WRITE(rr_contig_2, L_rr_contig, x * 3.0)
using L_rr_strided = Strided<RR, wave::RelativeRotation, V3d>; H(G21_leaf_rr_strided, readsLeaf<L_rr_strided>())
READ(rr_strided_0, L_rr_strided, x + kr())
READ(rr_strided_1, L_rr_strided, -x)
READ(rr_strided_2, L_rr_strided, x * 3.0)
READ(rr_strided_3, L_rr_strided, dot(x, kr()))
H(G21_assign_rr_strided, writesLeaf<L_rr_strided>())
WRITE(rr_strided_0, L_rr_strided, -x)
WRITE(rr_strided_1, L_rr_strided, x + kr())
WRITE(rr_strided_2, L_rr_strided, x * 3.0)
using L_rr_ref = RefTo<RR, wave::RelativeRotation, V3d>; H(G21_leaf_rr_ref, readsLeaf<L_rr_ref>())
READ(rr_ref_0, L_rr_ref, x + kr())
READ(rr_ref_1, L_rr_ref, -x)
READ(rr_ref_2, L_rr_ref, x * 3.0)
READ(rr_ref_3, L_rr_ref, dot(x, kr()))
H(G21_assign_rr_ref, writesLeaf<L_rr_ref>())
WRITE(rr_ref_0, L_rr_ref, -x)
WRITE(rr_ref_1, L_rr_ref, x + kr())
WRITE(rr_ref_2, L_rr_ref, x * 3.0)
using L_rr_col = ColBlock<RR, wave::RelativeRotation, 3>; H(G21_leaf_rr_col, readsLeaf<L_rr_col>())
READ(rr_col_0, L_rr_col, x + kr())
READ(rr_col_1, L_rr_col, -x)
READ(rr_col_2, L_rr_col, x * 3.0)
READ(rr_col_3, L_rr_col, dot(x, kr()))
H(G21_assign_rr_col, writesLeaf<L_rr_col>())
WRITE(rr_col_0, L_rr_col, -x)
WRITE(rr_col_1, L_rr_col, x + kr())
WRITE(rr_col_2, L_rr_col, x * 3.0)
using L_rr_const = Const<RR, wave::RelativeRotation, V3d>; H(G21_leaf_rr_const, readsLeaf<L_rr_const>())
READ(rr_const_0, L_rr_const, x + kr())
READ(rr_const_1, L_rr_const, -x)
READ(rr_const_2, L_rr_const, x * 3.0)
READ(rr_const_3, L_rr_const, dot(x, kr()))
using L_tw_contig = Contig<TW, wave::Twist, V6d>; H(G21_leaf_tw_contig, readsLeaf<L_tw_contig>())
READ(tw_contig_0, L_tw_contig, x + kt())
READ(tw_contig_1, L_tw_contig, kt() - x)
READ(tw_contig_2, L_tw_contig, -x)
READ(tw_contig_3, L_tw_contig, x * 0.5)
READ(tw_contig_4, L_tw_contig, x.rotation() + kr())
READ(tw_contig_5, L_tw_contig, kv() - x.translation())
H(G21_assign_tw_contig, writesLeaf<L_tw_contig>())
WRITE(tw_contig_0, L_tw_contig, kt() - x)
WRITE(tw_contig_1, L_tw_contig, x * 0.5)
WRITE(tw_contig_2, L_tw_contig, -(x + x))
using L_tw_strided = Strided<TW, wave::Twist, V6d>; H(G21_leaf_tw_strided, readsLeaf<L_tw_strided>())
READ(tw_strided_0, L_tw_strided, x + kt())
READ(tw_strided_1, L_tw_strided, kt() - x)
READ(tw_strided_2, L_tw_strided, -x)
READ(tw_strided_3, L_tw_strided, x * 0.5)
READ(tw_strided_4, L_tw_strided, x.rotation() + kr())
READ(tw_strided_5, L_tw_strided, kv() - x.translation())
H(G21_assign_tw_strided, writesLeaf<L_tw_strided>())
WRITE(tw_strided_0, L_tw_strided, kt() - x)
WRITE(tw_strided_1, L_tw_strided, x * 0.5)
WRITE(tw_strided_2, L_tw_strided, -(x + x))
using L_tw_ref = RefTo<TW, wave::Twist, V6d>; H(G21_leaf_tw_ref, readsLeaf<L_tw_ref>())
READ(tw_ref_0, L_tw_ref, x + kt())
READ(tw_ref_1, L_tw_ref, kt() - x)
READ(tw_ref_2, L_tw_ref, -x)
READ(tw_ref_3, L_tw_ref, x * 0.5)
READ(tw_ref_4, L_tw_ref, x.rotation() + kr())
READ(tw_ref_5, L_tw_ref, kv() - x.translation())
H(G21_assign_tw_ref, writesLeaf<L_tw_ref>())
WRITE(tw_ref_0, L_tw_ref, kt() - x)
WRITE(tw_ref_1, L_tw_ref, x * 0.5)
WRITE(tw_ref_2, L_tw_ref, -(x + x))
using L_tw_const = Const<TW, wave::Twist, V6d>; H(G21_leaf_tw_const, readsLeaf<L_tw_const>())
READ(tw_const_0, L_tw_const, x + kt())
READ(tw_const_1, L_tw_const, kt() - x)
READ(tw_const_2, L_tw_const, -x)
READ(tw_const_3, L_tw_const, x * 0.5)
READ(tw_const_4, L_tw_const, x.rotation() + kr())
READ(tw_const_5, L_tw_const, kv() - x.translation())
