#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that long texts stay readable)."""
import json, os
G = "include/wave/geometry/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[G+f for f in files],
                     mechanism=[dict(name=n, where=G+w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("G01", "Group operations compute the right rotation or rigid transform",
 "For every valid operand and every choice of representation for each operand, composing, inverting, rotating a vector by, and transforming a vector by rotations and rigid transforms gives the element whose rotation matrix (and translation) is the one prescribed by matrix algebra: product, transpose/inverse, R*v and R*v+t. Mixing representations in one expression changes only the representation of the result, never the transform it denotes. Building, reading and assigning the rotation and translation parts of a rigid transform is consistent with that meaning.",
 ["inputs", "programs"], "all unit quaternions / rotation matrices / angle-axis pairs, all translations, all pairs of operand representations",
 "Tests evaluate each operation on one random element per run and compare mostly with the same Eigen call; they do not reach every sign pattern, mixed-representation path or both sheets of the quaternion cover.",
 ["geometry/base/TransformBase.hpp","geometry/base/RigidTransformBase.hpp","geometry/base/RotationBase.hpp","geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/AngleAxisRotation.hpp","geometry/leaf/MatrixRigidTransform.hpp","geometry/leaf/CompactRigidTransform.hpp","core/functions/AddConversions.hpp"],
 [("per-representation evaluation overloads for Compose, Inverse, Rotate, Transform","geometry/leaf/QuaternionRotation.hpp"),("automatic insertion of conversions","core/functions/AddConversions.hpp")],
 ["value of an evaluated expression", "rotation() / translation() of a rigid transform"])

prop("G02", "Converting between representations preserves the element",
 "Constructing, assigning or evaluating a rotation (matrix, quaternion, angle-axis) or rigid transform (4x4 matrix, quaternion+vector) from any other representation, or from an expression producing another representation, denotes exactly the same rotation and translation. The result is a valid element of its representation (orthonormal matrix, unit quaternion, unit axis, last row 0 0 0 1).",
 ["inputs"], "all elements, all ordered pairs of representations, every branch of the conversion algorithms",
 "Matrix-to-quaternion and quaternion-to-angle-axis conversions have several data-dependent branches; a random test reaches one of them per run and never the boundary cases.",
 ["core/op/Convert.hpp","geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/AngleAxisRotation.hpp","geometry/leaf/MatrixRigidTransform.hpp","geometry/leaf/CompactRigidTransform.hpp","core/storage/LeafStorage.hpp","core/functions/PrepareOutput.hpp"],
 [("Convert evaluation overloads and converting constructors","core/op/Convert.hpp"),("evaluation to a requested destination type","core/functions/PrepareOutput.hpp")],
 ["value of the converted leaf"])

prop("G03", "Exponential and logarithm are correct and mutually inverse",
 "The exponential of a relative rotation (twist) is the rotation (rigid transform) given by the closed-form matrix exponential, and the logarithm of a rotation (rigid transform) with angle below pi is its principal logarithm, so that log inverts exp for rotation angles below pi and exp inverts log. This includes zero and arbitrarily small angles, where the value is finite and differs from the exact one, apart from rounding of the individual floating-point operations, by at most a few units of double precision relative to the scale of the input. It holds in every representation.",
 ["inputs"], "all 3-vectors and 6-vectors (angle below pi where the logarithm is involved), both the regular and the small-angle branch",
 "Tests use random vectors of size about one, a handful of hand-picked small angles and a loose tolerance, so the small-angle branches are exercised at isolated points only.",
 ["geometry/leaf/RelativeRotation.hpp","geometry/leaf/Twist.hpp","geometry/leaf/MatrixRotation.hpp","geometry/base/RigidTransformBase.hpp","geometry/op/ExpMap.hpp","geometry/op/LogMap.hpp"],
 [("exponential of a relative rotation","geometry/leaf/RelativeRotation.hpp"),("exponential of a twist","geometry/leaf/Twist.hpp"),("logarithm of a rotation matrix","geometry/leaf/MatrixRotation.hpp"),("logarithm of a rigid transform","geometry/base/RigidTransformBase.hpp")],
 ["value of exp(...) and log(...)"])

prop("G04", "Box-plus and box-minus are the left retraction and its inverse",
 "Adding a tangent vector d to a rotation or rigid transform X gives exp(d)*X, and subtracting Y from X gives log(X*inverse(Y)); hence Y+(X-Y)=X and (X+d)-X=d within the injectivity radius, for every mix of representations. For vectors and points the same operators are ordinary componentwise addition and subtraction, and for compound values they act element by element in declaration order.",
 ["inputs","programs"], "all elements and tangents (relative angle below pi), all operand representations, any compound of such elements",
 "Tests check single random cases and compare with the same library calls; order of composition and element order in compounds is not distinguished by symmetric inputs.",
 ["geometry/op/BoxPlus.hpp","geometry/op/BoxMinus.hpp","geometry/op/Compose.hpp","geometry/base/TransformBase.hpp","geometry/base/CompoundBase.hpp","geometry/base/AffineBase.hpp"],
 [("box-plus as flipped composition with the exponential","geometry/op/BoxPlus.hpp"),("box-minus as logarithm of a relative transform","geometry/op/BoxMinus.hpp"),("element-wise compound versions","geometry/base/CompoundBase.hpp")],
 ["value of X + d and X - Y"])

prop("G05", "Jacobians of transform operations equal the true derivatives",
 "For composition, inversion, rotating or transforming a vector, taking the rotation or translation part, and changing representation, the Jacobian reported with respect to each operand equals the derivative of the result under a left perturbation of that operand, expressed in the result's tangent space. Rotation tangent coordinates come before translation coordinates in every block.",
 ["inputs","programs"], "all valid operands in all representations and mixes of them",
 "Tests compare with finite differences at one random point, at a tolerance that hides small terms, and only for the representation combinations they list.",
 ["geometry/base/TransformBase.hpp","geometry/base/RigidTransformBase.hpp","geometry/op/Compose.hpp","geometry/op/Rotate.hpp","geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/AngleAxisRotation.hpp","core/op/Convert.hpp","core/op/MemberAccess.hpp","util/math/CrossMatrix.hpp"],
 [("local Jacobian overloads of each operation","geometry/base/TransformBase.hpp"),("adjoint blocks","geometry/base/RigidTransformBase.hpp")],
 ["jacobian() of an expression with respect to an operand"])

prop("G06", "Jacobians of exp, log, box-plus and box-minus equal the true derivatives",
 "The Jacobians of exponential, logarithm, box-plus and box-minus for rotations and rigid transforms equal the derivative of the value with respect to a perturbation of each operand, for every operand where the derivative exists. In particular they are finite at the identity and at arbitrarily small angles, where, apart from rounding of the individual floating-point operations, they are accurate to a few units of double precision relative to the input scale.",
 ["inputs"], "all tangent vectors and transforms with angle below pi, including zero",
 "Tests compare against finite differences at random points with angles of order one; zero angle and the approach to it are not reached by random sampling.",
 ["geometry/leaf/RelativeRotation.hpp","geometry/leaf/Twist.hpp","geometry/op/LogMap.hpp","geometry/base/RigidTransformBase.hpp","geometry/op/BoxPlus.hpp","geometry/op/BoxMinus.hpp"],
 [("differential of the exponential","geometry/leaf/RelativeRotation.hpp"),("differential of the logarithm","geometry/op/LogMap.hpp"),("differential of the twist exponential","geometry/leaf/Twist.hpp")],
 ["jacobian() of exp/log/+/- expressions"])

prop("G07", "Vector, point and scalar arithmetic evaluates as written",
 "Sums, differences, negation, scaling by and division by scalars, dot products, norms, normalisation, and scalar arithmetic including arc cosine evaluate to the ordinary real-valued result of the formula as written, in that operand order. Built-in numbers and library scalars, on either side, are interchangeable, and differences of points are vectors.",
 ["inputs","programs"], "all real operands for which the formula is defined, every operator overload",
 "Each overload is tested at one or two random values; scalar/leaf argument order and rvalue overloads are a large combinatorial family that tests sample.",
 ["geometry/base/VectorBase.hpp","geometry/base/AffineBase.hpp","geometry/base/ScalarBase.hpp","geometry/leaf/Scalar.hpp","geometry/op/Sum.hpp","geometry/op/Subtract.hpp","geometry/op/Minus.hpp","geometry/op/Scale.hpp","util/macros.hpp"],
 [("evaluation overloads for vector and scalar operations","geometry/base/VectorBase.hpp"),("operator overload macros","util/macros.hpp")],
 ["value of an evaluated vector or scalar expression"])

prop("G08", "Jacobians of vector and scalar operations equal the true derivatives",
 "For every vector, point and scalar operation, the reported Jacobian with respect to each operand is the matrix of partial derivatives of the evaluated formula, with rows for the result and columns for the operand, wherever the formula is differentiable.",
 ["inputs"], "all real operands in the domain of each operation",
 "Tests compare with finite differences at a random point and tolerance.",
 ["geometry/base/VectorBase.hpp","geometry/base/ScalarBase.hpp","geometry/op/Sum.hpp","geometry/op/Subtract.hpp","geometry/op/Minus.hpp","geometry/leaf/Scalar.hpp"],
 [("local Jacobian overloads","geometry/base/VectorBase.hpp"),("scalar local Jacobians","geometry/base/ScalarBase.hpp")],
 ["jacobian() of a vector or scalar expression"])

prop("G09", "Differentiation of a composite expression obeys the chain rule",
 "For every expression tree built from differentiable operations, the Jacobian of the whole with respect to a leaf is the sum over all occurrences of that leaf of the products, from root to occurrence, of the local Jacobians at the evaluated operand values. For compound values the Jacobian is the vertical stack of the element Jacobians in declaration order, with zero rows for elements that do not depend on the leaf.",
 ["programs","inputs"], "all expression trees (structural induction over unary, binary, n-ary nodes and leaves), all operand values and all local Jacobians",
 "There are infinitely many tree shapes and positions of the differentiated leaf; tests contain a dozen trees.",
 ["core/functions/JacobianEvaluator.hpp","core/functions/Evaluator.hpp","core/functions/PrepareExpr.hpp","core/storage/NaryStorage.hpp"],
 [("recursive forward-mode evaluator, one case per node kind","core/functions/JacobianEvaluator.hpp"),("evaluator tree caching operand values","core/functions/Evaluator.hpp")],
 ["jacobian(leaf)","evalWithJacobians(leaves...)"])

prop("G10", "All differentiation modes give the same value and Jacobians",
 "Forward, type-based, reverse, and both run-time differentiation modes, and the automatic choice between them, return for the same expression and the same leaves the same value and the same Jacobians, in the order requested. Requesting several Jacobians at once gives the same results as requesting them one by one. (Compound expressions are in the domain of the forward and run-time forward modes only.)",
 ["programs","inputs"], "all expression trees within each mode's documented domain, all values, all orders of requested leaves",
 "Which mode runs depends on the shape of the expression's type; tests compare modes on a few trees at one random point.",
 ["core/functions/JacobianEvaluator.hpp","core/functions/TypedJacobianEvaluator.hpp","core/functions/ReverseJacobianEvaluator.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp","core/base/ExpressionBase.hpp","util/math/MatrixMap.hpp"],
 [("typed forward evaluator","core/functions/TypedJacobianEvaluator.hpp"),("reverse evaluator","core/functions/ReverseJacobianEvaluator.hpp"),("dynamic forward evaluator","core/functions/DynamicJacobianEvaluator.hpp"),("dynamic reverse evaluator","core/functions/DynamicReverseJacobianEvaluator.hpp")],
 ["evalWithJacobians()","evalWithJacobians(leaves...)","jacobian(leaf)"])

prop("G11", "Jacobians are taken with respect to the identity of the given object",
 "The Jacobian of a leaf with respect to itself is the identity. With respect to an object that does not occur in the expression it is zero, even if that object has the same type and an equal value as one that does; the modes that tell leaves apart by type only (used when every leaf type of the expression is distinct) guarantee this for objects whose type does not occur. An object occurring several times contributes from every occurrence, and only occurrences of that object contribute.",
 ["programs","inputs"], "all positions and multiplicities of the target in the tree, equal-valued distinct objects, all values",
 "Aliasing patterns are combinatorial; tests cover a repeated leaf in a few expressions and rely on random values being distinct.",
 ["core/functions/IsSame.hpp","core/functions/IsSameType.hpp","core/functions/JacobianEvaluator.hpp","core/functions/TypedJacobianEvaluator.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/traits/type_traits.hpp"],
 [("identity of objects","core/functions/IsSame.hpp"),("selection of evaluator by leaf types","core/functions/TypedJacobianEvaluator.hpp")],
 ["jacobian(leaf)"])

prop("G12", "Frame-checked expressions compile exactly when the frames are consistent",
 "An operation on frame-annotated operands is accepted by the compiler exactly when its frames chain (compose, rotate, transform), agree (box-plus, box-minus), or share the needed endpoint (sum, difference of vectors or points), and is rejected otherwise. The frames of every accepted result are those implied by the mathematics, for every assignment of equal or distinct frames to the operands.",
 ["programs","configurations"], "all assignments of frames to operands (all equality patterns), all framed operand kinds and operators",
 "Rejection cannot be asserted by a unit test that must compile, and the accepted patterns are only sampled; coincidences between frames select different rules.",
 ["geometry/frames/Framed.hpp","geometry/frames/frame_traits.hpp","geometry/frames/frame_cast.hpp","geometry/op/Compose.hpp","geometry/op/Sum.hpp","geometry/op/Subtract.hpp","geometry/op/Rotate.hpp","geometry/op/Transform.hpp","geometry/op/BoxPlus.hpp","geometry/op/BoxMinus.hpp","geometry/op/LogMap.hpp","geometry/op/ExpMap.hpp","geometry/op/Minus.hpp"],
 [("frame assertions of each operation","geometry/op/Compose.hpp"),("result frames","geometry/frames/frame_traits.hpp")],
 ["compiler diagnostics","type of an evaluated expression"])

prop("G13", "Frame annotations and frame casts never change numbers",
 "Evaluating or differentiating an expression over frame-annotated operands gives exactly the numbers obtained from the same expression over the bare operands. Casting frames, or removing them, changes only the static annotation, not the value, and refers to the same object for the purpose of differentiation.",
 ["programs","inputs"], "all operations, all operand values",
 "Typed tests repeat the same random checks with and without frames but do not compare the two on equal inputs.",
 ["geometry/frames/Framed.hpp","geometry/frames/frame_cast.hpp","geometry/frames/frame_traits.hpp"],
 [("annotation wrapper","geometry/frames/Framed.hpp"),("frame casts","geometry/frames/frame_cast.hpp")],
 ["values and Jacobians of framed expressions"])

prop("G14", "Stored expressions never dangle and read current operand values",
 "An expression kept in an auto variable evaluates, at any later time while its named operands live, without touching memory outside live objects, and gives the value of the formula at the operands' values at evaluation time. Temporaries used as operands are owned by the expression; named operands are referenced, so later assignments to them are seen. Copying or moving an expression preserves this.",
 ["programs","histories"], "all nestings of named and temporary operands, all sequences of assignment, copy, move and evaluation",
 "Lifetime errors show only under sanitizers or by luck; tests construct a few nestings and never mutate operands between construction and evaluation.",
 ["core/storage/RefSelector.hpp","core/storage/UnaryStorage.hpp","core/storage/BinaryStorage.hpp","core/storage/NaryStorage.hpp","core/storage/LeafStorage.hpp","core/traits/type_traits.hpp","core/functions/PrepareExpr.hpp","util/macros.hpp"],
 [("choice of storage by value or by reference","core/storage/RefSelector.hpp"),("rvalue operator overloads","util/macros.hpp")],
 ["value of an expression evaluated after construction"])

prop("G15", "Run-time polymorphic expressions behave like the ones they hold",
 "A dynamic proxy evaluates and differentiates exactly like the expression it currently holds, alone or inside any static expression, and re-binding it changes the result to that of the new expression. Copies of a proxy share the held expression, and leaves referenced through it are read at evaluation time.",
 ["programs","histories"], "all held expressions, all sequences of binding, sharing, mutation and evaluation, all values",
 "Re-binding and sharing sequences are unbounded; tests bind once or twice and compare at one random value.",
 ["dynamic/Proxy.hpp","dynamic/RefProxy.hpp","dynamic/Dynamic.hpp","dynamic/DynamicBase.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp","util/math/MatrixMap.hpp"],
 [("type-erased expression holder","dynamic/Dynamic.hpp"),("shared proxy","dynamic/Proxy.hpp")],
 ["eval() and jacobian() of an expression containing a proxy"])

prop("G16", "Identity and zero elements are neutral and convert faithfully",
 "The identity element composed on either side, inverted, applied to a vector or converted to a concrete representation behaves as the group identity, and its logarithm is zero; the zero vector is neutral in sums, its negation is zero and its exponential is the identity. Jacobians with respect to the other operand are those of the full operation with the neutral element substituted.",
 ["inputs","programs"], "all operations accepting a neutral element, all representations, all values of the other operand",
 "Special-cased overloads exist for each combination; tests touch some of them.",
 ["geometry/leaf/Identity.hpp","geometry/leaf/Zero.hpp","geometry/base/RotationBase.hpp","geometry/leaf/MatrixRigidTransform.hpp","util/math/IdentityMatrix.hpp"],
 [("identity special cases","geometry/leaf/Identity.hpp"),("zero special cases","geometry/leaf/Zero.hpp")],
 ["value and Jacobian of expressions with Identity or Zero operands"])

prop("G17", "Results of operations on valid elements are valid elements",
 "Every rotation or rigid transform produced by the library from valid operands is valid: matrices are orthonormal with determinant one, quaternions have unit norm, homogeneous matrices keep their last row, including composition, inversion, exponential, box-plus and randomly generated elements.",
 ["inputs","histories"], "all valid operands; by induction, all sequences of operations",
 "Validity after arbitrary operation sequences is an invariant; tests check random single results.",
 ["geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/MatrixRigidTransform.hpp","geometry/leaf/CompactRigidTransform.hpp","geometry/leaf/RelativeRotation.hpp","geometry/leaf/Twist.hpp","util/math/math.hpp"],
 [("storage initialisation of homogeneous matrices","geometry/leaf/MatrixRigidTransform.hpp"),("uniform random quaternion","util/math/math.hpp")],
 ["value() of results"])

prop("G18", "Factors report noise-normalised residuals and measurement Jacobians",
 "Evaluating a factor gives the inverse square root of the measurement covariance applied to (predicted minus measured), and evaluating with Jacobians gives the same residual together with the Jacobian of the measurement function with respect to each parameter in order. A noise model built from standard deviations has the squared deviations as covariance and their reciprocals as inverse square root.",
 ["inputs","programs"], "all parameter values, measurements and positive standard deviations, scalar, vector and compound measurements",
 "Tests evaluate two example factors at single points.",
 ["estimation/Factor.hpp","estimation/impl/Factor_impl.hpp","estimation/Noise.hpp","estimation/FactorVariable.hpp","core/storage/BlockMatrix.hpp"],
 [("residual normalisation","estimation/impl/Factor_impl.hpp"),("noise models","estimation/Noise.hpp")],
 ["evaluate()","evaluateWithJacobians()","covariance()","inverseSqrtCov()"])

prop("G19", "Structured matrix helpers equal the dense matrices they stand for",
 "The cross-product matrix, the static identity matrix and block-addressed matrices behave in every supported sum, product, negation, scaling, transpose and assignment exactly like the dense matrix they denote; the inverse cross operation recovers the vector. Block access by variable addresses exactly the rows or columns belonging to it.",
 ["inputs","programs"], "all vectors and matrices, all supported operand combinations and sides",
 "Tests sample some operand combinations at random values.",
 ["util/math/CrossMatrix.hpp","util/math/IdentityMatrix.hpp","core/storage/BlockMatrix.hpp","util/math/MatrixMap.hpp","util/math/math.hpp"],
 [("cross-matrix products","util/math/CrossMatrix.hpp"),("identity products","util/math/IdentityMatrix.hpp"),("block addressing","core/storage/BlockMatrix.hpp")],
 ["entries of the resulting dense matrix"])

prop("G20", "Approximate comparison is sound and complete for its tolerance",
 "Approximate comparison of rotations and rigid transforms is true exactly when every component of their box-minus is within the tolerance, independent of representation; for vectors, points and scalars it is the relative comparison of the values, and for compounds of these it holds element by element. It is reflexive, and equal elements in different representations always compare equal.",
 ["inputs"], "all pairs of elements, all tolerances",
 "Tests use it as an oracle on equal or clearly different elements, never at the boundary or for all components.",
 ["geometry/base/TransformBase.hpp","geometry/base/AffineBase.hpp","geometry/base/ScalarBase.hpp","geometry/base/CompoundBase.hpp"],
 [("comparison by box-minus","geometry/base/TransformBase.hpp"),("comparison of vectors","geometry/base/AffineBase.hpp")],
 ["return value of isApprox / isZero"])

prop("G21", "Leaves over external storage are views of that storage",
 "A leaf constructed over mapped memory or a block of another object reads the mapped numbers, and assigning to it writes exactly those numbers and nothing else; expressions over such leaves give the same values and Jacobians as over owning leaves. Assigning an expression to a leaf that also occurs in the expression gives the result computed from the old values.",
 ["inputs","programs","histories"], "all leaf kinds with map or block storage, all values, all assignments",
 "Tests map one or two leaf kinds and do not check surrounding memory or self-assignment aliasing.",
 ["core/storage/LeafStorage.hpp","core/storage/CompoundLeafStorage.hpp","geometry/leaf/MatrixRigidTransform.hpp","geometry/leaf/Twist.hpp"],
 [("leaf storage with arbitrary implementation type","core/storage/LeafStorage.hpp")],
 ["mapped memory before and after assignment"])

prop("N01", "Floating-point rounding error of every operation is bounded",
 "The double-precision result of every operation differs from the exact real result by at most a small multiple of machine precision relative to the operands.",
 ["inputs"], "all floating-point operands",
 "Rounding error bounds quantify over all floating-point inputs.",
 ["geometry/leaf/RelativeRotation.hpp","geometry/base/RigidTransformBase.hpp"],
 [("series branches near zero","geometry/leaf/RelativeRotation.hpp")],
 ["values of evaluated expressions"])

prop("N02", "Expression templates add no run-time cost over hand-written Eigen code",
 "Evaluating an expression and its Jacobians compiles to code no slower than the equivalent hand-written matrix code.",
 ["programs"], "all expressions",
 "Timing benchmarks sample a few expressions on one machine.",
 ["core/functions/Evaluator.hpp"],
 [("static expression trees","core/functions/Evaluator.hpp")],
 ["benchmarks"])

prop("N03", "Numerical differentiation approximates the analytic Jacobian",
 "The finite-difference Jacobian of an expression differs from the analytic one by at most the truncation and rounding error of a central or forward difference.",
 ["inputs","programs"], "all expressions and operand values",
 "The bound depends on higher derivatives and floating-point cancellation at every input.",
 ["core/functions/NumericalJacobian.hpp"],
 [("perturbation of each tangent direction","core/functions/NumericalJacobian.hpp")],
 ["numerical Jacobian helper used by tests"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
