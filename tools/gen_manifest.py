#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, by which command."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contracts on the real C++ (pre/postconditions in harness functions) discharged by a deductive verifier: VC generation from the LLVM IR of /repo's headers, exact rational-function normal forms, sign/interval lemmas, z3/cvc5 side conditions"
A = "All double-valued inputs, no bound; doubles are read as real numbers (rounding not modelled); trusts clang's front end, the VC generator and prover in vcgen/, and listed axioms. "
NOTE = {
 "G01": "Unbounded proof for every pair of representations (rotation matrix, quaternion, angle-axis; 4x4 and compact rigid transforms) of composition, inversion, rotation/transformation of vectors, part access and part assignment, plus chains of them.",
 "G02": "Unbounded proof that construction, assignment and evaluation between every pair of representations, from leaves and from expressions, keeps the denoted element and the representation invariant. Eigen's stableNorm is assumed equal to norm.",
 "G04": "Unbounded proof that box-plus and box-minus equal the exponential/logarithm formulas and invert each other (within a few units of double precision of truncation near zero) for every representation mix of rotations and, for rigid transforms, in the listed mixes; vectors, points and compounds element by element in declaration order, exactly. For quaternion-based rigid transforms the round trips rest on X+d == exp(d)*X, X-Y == log(X*inverse(Y)) (proved) together with G01 and G03.",
 "G05": "Unbounded proof that reported Jacobians equal the symbolic derivative of the result along every tangent direction. For conversions to angle-axis the identity (an isolated branch point) is excluded.",
 "G03": "Unbounded proof that exp equals the closed form (Rodrigues, left Jacobian times translation) and log the principal logarithm for every representation, including zero, and that the series used near zero are within a few units of double precision (truncation, in real arithmetic).",
 "G06": "Unbounded proof that the Jacobians of exp, log, box-plus and box-minus equal the closed forms, which lemma harnesses show to be the derivatives; small-angle series within a few units of double precision (truncation). Angles below pi for log.",
 "G07": "Unbounded proof over real operands for every operator and every combination of operand forms (leaf, temporary, expression, built-in number on either side); built-in integer operands at the listed constants only.",
 "G08": "Unbounded proof that each reported Jacobian equals the symbolic derivative of the evaluated formula wherever it is differentiable, for the same combinations as G07.",
 "G09": "Proof by structural induction made explicit: the real evaluators are verified on trees whose nodes are opaque operations with arbitrary values and arbitrary local Jacobians (fresh symbols), for every node kind, operand kind and nesting of node kinds up to depth four, against the chain rule; the step to deeper trees is the evaluators' own recursion on types (argued in DESIGN.md, not machine-checked). Compounds: one level, with opaque element expressions of every kind and with library operations on vectors, points, rotations and rigid transforms.",
 "G10": "For every listed expression shape (all node kinds, library operations and opaque operations, repeated and distinct leaf types) all differentiation modes are proved to return the same value and Jacobians for all operand values, in every request order. Shapes are enumerated, values are not bounded.",
 "G11": "Identity, zero for absent or merely equal objects, and contribution of every occurrence are proved for all values and all local Jacobians (opaque operations) over enumerated occurrence patterns. Type-based modes are covered for targets whose type is absent.",
 "G12": "Exhaustive over equality patterns of the frame descriptors (including the unframed descriptor), which is complete because templates can only compare descriptors for identity. Each pattern must be accepted with the prescribed result frames or rejected; decided by clang's type checker.",
 "G13": "Proof, for all operand values, that framed and bare versions of each listed expression agree in value and in Jacobians for every mode, and that casts are transparent.",
 "G16": "Proof, for all operand values, that Identity and Zero in every listed position (composition with every representation on either side, inversion, action on vectors, conversion and assignment to every representation, logarithm, box operations, sums, differences, scaling, products, exponential, framed) give the group identity or the zero vector, and that Jacobians with respect to the other operand are those with the neutral element substituted, in every differentiation mode.",
 "G17": "Unbounded proof that results of composition, inversion, conversion, part assignment, powers, and random generation are valid (orthonormal with determinant one, unit norm, unit axis, last row kept), and exponentials and box-plus valid up to the truncation of the small-angle series (32 eps). Random elements: std::uniform_real_distribution is assumed to return a real in its range.",
 "G18": "Proof, for all parameters, measurements and positive standard deviations, that factors over vectors, points, rotations, transforms, scalars and compounds (framed and unframed, one to three parameters) give L*(f - z) and the exact derivative of f per parameter in order, and that noise models hold the squares and reciprocals. For full covariances Eigen's eigen-decomposition enters by an assumed contract (symmetric result; for scalars Eigen's own code is verified). Functors are enumerated.",
 "G19": "Proof, for all entries, that cross-product and identity matrices in each listed sum, product, negation, scaling, transpose, assignment and block (fixed, dynamic, row-major, expressions on either side) are the dense matrices, and that each block of BlockMatrix, BlockVector, DiagonalBlockMatrix and each key of MatrixMap addresses exactly its rows or columns, every other entry keeping its value. Sizes and types are enumerated. Products that return their operand (I*M) alias it like the operand itself.",
 "G20": "Proof that the returned boolean equals its definition on every path: relative comparison for vectors, points, scalars, twists and element by element for compounds; for rotations in every pair of representations and for rigid transforms (against a fixed one) all components of the library's box-minus within the tolerance, whose meaning is G04; box-minus of equal elements in different representations is proved to be zero.",
 "G14": "Proof that, for every operation in every combination of named, temporary, given-up and expression operands (one operation and nested), built-in numbers, parts, frames, constants and proxies, every memory access during evaluation and differentiation of a stored expression is inside a live object (an obligation per access), that named operands are read at evaluation time and temporaries are owned, through copies, moves, returns and assignments, for all values. Nestings are enumerated; temporaries of const class type are bound like named operands by the library and are outside. The same histories also run natively under AddressSanitizer.",
 "G15": "Proof, for all operand values, that a proxy holding each listed expression behaves in each listed context (vectors, points, rotations, rigid transforms, twists, scalars; nested proxies; references to dynamic expressions) exactly like the static expression written out, in value and in Jacobians in every mode, through re-binding, copying, sharing and changes of operands. Held expressions and contexts are enumerated; virtual dispatch and shared ownership are verified from the real code.",
 "G21": "Proof, for all values, that every leaf kind over contiguous, strided, row-major, block, Ref and constant memory reads exactly its numbers, gives the values and Jacobians of the owning leaf, and that assignments (of leaves, other views, expressions over itself or others, and parts) write exactly its numbers, every other cell keeping its value, with the result computed from the old values; the same for owning leaves, compound elements and memory shared between leaves. Layouts and expressions are enumerated, values are not bounded. Box-plus of quaternion-based rigid transforms is left out (prover cost).",
}
NOTE.update(json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {})
NA = {
 "N01": "Contracts here are over the reals: a bound on accumulated rounding of every operation needs a floating-point error analysis (no such deductive back end is installed for C++), so it is not decided; only truncation of the small-angle series is decided (G03, G06).",
 "N02": "Run-time cost is not expressible as a functional contract.",
 "N03": "The error of finite differences is a statement about rounding and higher derivatives of arbitrary user functions; no contract within reach decides it.",
}
claimed = [g for g in sorted(NOTE)]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [{"property": g, "quick_cmd": "python3 check.py %s" % g, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % g, "technique": T if g != "G12" else "contract-based: each frame rule is a compile-time pre/postcondition over the real templates, discharged by the type checker for every equality pattern of frames", "level": "proof", "level_note": NOTE[g] + " " + (A if g != "G12" else "")} for g in props if g in claimed]
na = [{"property": g, "reason": NA.get(g, "Check under construction; not claimed yet.")} for g in props if g not in claimed]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts live in /verif/contracts and are compiled together with /repo's headers. Commits in /repo are only fix: commits (known_findings.txt)."}, open(V + "/MANIFEST.json", "w"), indent=1)
