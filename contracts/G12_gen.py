"""G12: frame rules as compile-time contracts over the real templates, discharged by the C++ type checker for every
equality pattern of the frame descriptors (and for every choice of the pattern class that is "no frame")."""
import os, re, subprocess, itertools

PRE = r'''
#include <wave/geometry/geometry.hpp>
#include <type_traits>
#include <utility>
using namespace wave;
struct F0; struct F1; struct F2; struct F3; struct F4; struct F5; struct F6;
template <class L, class... F> struct fr_ { using type = Framed<L, F...>; };
template <class L> struct fr_<L, NoFrame, NoFrame> { using type = L; };
template <class L> struct fr_<L, NoFrame, NoFrame, NoFrame> { using type = L; };
template <class L, class... F> using fr = typename fr_<L, F...>::type;
template <class X> const X &C();           // an operand
template <class X> X T();                  // a temporary operand
template <class E> using ev = std::decay_t<decltype(eval(std::declval<const E &>()))>;
template <class... F> struct frames;
template <class X, class = void> struct frames_of { using type = frames<LeftFrameOf<X>, RightFrameOf<X>>; };
template <class X> struct frames_of<X, std::enable_if_t<internal::has_three_decorators<X>{}>> { using type = frames<LeftFrameOf<X>, MiddleFrameOf<X>, RightFrameOf<X>>; };
// the same frames and the same kind of object (the representation is not part of the contract)
template <class X, class Ok> constexpr bool matches() { return std::is_same<typename frames_of<X>::type, typename frames_of<Ok>::type>::value && internal::same_base_tmpl<X, Ok>{}; }
template <class E, class... Ok> void ok() { static_assert((matches<ev<E>, Ok>() || ...), "unexpected frames of the result"); }
// instantiate the expression class and its evaluation
template <class E> void use(const E &e) { auto r = eval(e); (void)r; }
'''
RM, RQ, RA, TM, TQ = "RotationMd", "RotationQd", "RotationAd", "RigidTransformMd", "RigidTransformQd"
TR, RR, TW, PT = "Translationd", "RelativeRotationd", "Twistd", "Pointd"


def partitions(n):
    """restricted growth strings: all equality patterns of n descriptors"""
    def rec(p, m):
        if len(p) == n:
            yield tuple(p); return
        for k in range(m + 1):
            yield from rec(p + [k], max(m, k + 1))
    yield from rec([], 0)


def patterns(n):
    for p in partitions(n):
        for nof in [None] + list(range(max(p) + 1)):
            yield tuple("NoFrame" if k == nof else "F%d" % k for k in p)


def fr(leaf, *f):
    return "fr<%s, %s>" % (leaf, ", ".join(f))


class Cases:
    def __init__(self): self.c = []  # (label, expression or None, allowed result types, statement)

    def expr(self, label, e, allowed): self.c.append((label, e, allowed, None))

    def stmt(self, label, s, good): self.c.append((label, None, ["ok"] if good else [], s))


def build(thorough):
    K = Cases()
    c = lambda t: "C<%s>()" % t
    m = lambda t: "T<%s>()" % t
    kinds2 = [(RM, RQ), (TQ, TM)]
    # ---- transforms with transforms
    for (X, Y) in [(RM, RM), (RM, RQ), (RQ, RA), (TM, TM), (TQ, TM)]:
        for p in patterns(4):
            a, b, cc, d = p
            x, y = fr(X, a, b), fr(Y, cc, d)
            R = X if not (X == RQ and Y == RA) else RQ
            tan = RR if X[:2] == "Ro" else TW
            res = [fr(Z, a, d) for Z in {X, Y}]
            K.expr("compose %s %s" % (x, y), "%s * %s" % (c(x), c(y)), res if b == cc else [])
            K.expr("box-minus %s %s" % (x, y), "%s - %s" % (c(x), c(y)), [fr(tan, a, a, d)] if (a == cc and b == d) else [])
            if (X, Y) == (RM, RQ):
                K.expr("compose expressions %s %s" % (x, y), "inverse(%s) * inverse(%s)" % (c(x), c(y)), [fr(Z, b, cc) for Z in {X, Y}] if a == d else [])
                K.expr("compose mixed %s %s" % (x, y), "%s * inverse(%s)" % (c(x), m(y)), [fr(Z, a, cc) for Z in {X, Y}] if b == d else [])
                K.expr("box-minus expressions %s %s" % (x, y), "%s - inverse(%s)" % (c(x), c(y)), [fr(tan, a, a, cc)] if (a == d and b == cc) else [])
                K.expr("compose casts %s %s" % (x, y), "frame_cast<%s, %s>(%s) * frame_cast<%s, %s>(%s)" % (a, b, c(X), cc, d, c(Y)), [fr(Z, a, d) for Z in {X, Y}] if b == cc else [])
    # ---- transforms with vectors
    for (X, V) in [(RM, TR), (RQ, TR), (RA, TR), (TM, TR), (TQ, TR)]:
        for p in patterns(5):
            a, b, l, mm, r = p
            x, v = fr(X, a, b), fr(V, l, mm, r)
            e = "%s * %s" % (c(x), c(v))
            if X[:2] == "Ro": K.expr("rotate %s %s" % (x, v), e, [fr(V, a, mm, r)] if b == l else [])
            else: K.expr("transform %s %s" % (x, v), e, [fr(V, a, a, r)] if (b == l and b == mm) else [])
            if X == RM: K.expr("rotate expressions %s %s" % (x, v), "inverse(%s) * -%s" % (c(x), c(v)), [fr(V, b, r, mm)] if a == l else [])
            if X == TQ: K.expr("transform expressions %s %s" % (x, v), "inverse(%s) * -%s" % (m(x), c(v)), [fr(V, b, b, mm)] if a == l == r else [])
    for (X, V) in [(RM, RR), (RQ, RR), (TM, TW), (TQ, TW)]:
        for p in patterns(5):
            a, b, l, mm, r = p
            x, v = fr(X, a, b), fr(V, l, mm, r)
            Z = {RM: RM, RQ: RQ, TM: TM, TQ: TQ}[X]
            K.expr("box-plus %s %s" % (x, v), "%s + %s" % (c(x), c(v)), [fr(z, a, b) for z in ([RM, RQ] if X in (RM, RQ) else [TM, TQ])] if (a == l == mm and b == r) else [])
    # ---- vectors with vectors
    def vsum(l, m1, r1, k, m2, r2):
        if l != k: return []
        return ([(l, m1, r2)] if r1 == m2 else []) + ([(l, m2, r1)] if m1 == r2 else [])

    def vdiff(l, m1, r1, k, m2, r2):
        if l != k: return []
        return ([(l, m1, m2)] if r1 == r2 else []) + ([(l, r2, r1)] if m1 == m2 else [])
    for V in [TR, RR, TW] if thorough else [TR, TW]:
        for p in patterns(6):
            x, y = fr(V, *p[:3]), fr(V, *p[3:])
            K.expr("sum %s %s" % (x, y), "%s + %s" % (c(x), c(y)), [fr(V, *f) for f in vsum(*p)])
            K.expr("difference %s %s" % (x, y), "%s - %s" % (c(x), c(y)), [fr(V, *f) for f in vdiff(*p)])
    for p in patterns(6):
        x, y = fr(TR, *p[:3]), fr(TR, *p[3:])
        l, m1, r1, k, m2, r2 = p
        K.expr("sum of expressions %s %s" % (x, y), "-%s + 2.0 * %s" % (c(x), m(y)), [fr(TR, *f) for f in vsum(l, r1, m1, k, m2, r2)])
        K.expr("difference of expressions %s %s" % (x, y), "%s / 2.0 - (-%s)" % (c(x), c(y)), [fr(TR, *f) for f in vdiff(l, m1, r1, k, r2, m2)])
    # ---- points: A_p_B is the vector from the origin of A to B, expressed in A
    pt = lambda fs: [fr(PT, f[0], f[2]) for f in fs if f[0] == f[1]]
    for p in patterns(5):
        a, b, l, mm, r = p
        x, v = fr(PT, a, b), fr(TR, l, mm, r)
        K.expr("point+vector %s %s" % (x, v), "%s + %s" % (c(x), c(v)), pt(vsum(a, a, b, l, mm, r)))
        K.expr("vector+point %s %s" % (v, x), "%s + %s" % (c(v), c(x)), pt(vsum(l, mm, r, a, a, b)))
    for p in patterns(4):
        a, b, cc, d = p
        x, y = fr(PT, a, b), fr(PT, cc, d)
        K.expr("point-point %s %s" % (x, y), "%s - %s" % (c(x), c(y)), [fr(TR, *f) for f in vdiff(a, a, b, cc, cc, d)])
    # ---- one operand
    for p in patterns(2):
        a, b = p
        for X in (RM, RQ, RA, TM, TQ):
            x = fr(X, a, b); tan = RR if X[:2] == "Ro" else TW
            K.expr("inverse %s" % x, "inverse(%s)" % c(x), [fr(Z, b, a) for Z in ((X,) if X != RA else (RA, RQ, RM))])
            K.expr("log %s" % x, "log(%s)" % c(x), [fr(tan, a, a, b)])
            if X in (TM, TQ):
                K.expr("rotation() %s" % x, "%s.rotation()" % c(x), ["!frames:%s,%s" % (a, b)])
                K.expr("translation() %s" % x, "%s.translation()" % c(x), ["!frames:%s,%s,%s" % (a, a, b)])
    for p in patterns(3):
        a, b, d = p
        for X in (RM, TQ):
            x = fr(X, a, b); tan = RR if X[:2] == "Ro" else TW
            K.expr("logFramed %s %s" % (d, x), "logFramed<%s>(%s)" % (d, c(x)), [fr(tan, a, a, d)])
        for V in (TR, RR, TW):
            v = fr(V, a, b, d)
            K.expr("negation %s" % v, "-%s" % c(v), [fr(V, a, d, b)])
            K.expr("scale %s" % v, "2.0 * %s" % c(v), [fr(V, *p)])
            K.expr("scaleR %s" % v, "%s * C<Scalar<double>>()" % c(v), [fr(V, *p)])
            K.expr("divide %s" % v, "%s / 2.0" % c(v), [fr(V, *p)])
            K.expr("normalized %s" % v, "%s.normalized()" % c(v), [fr(V, *p)])
            if V != TR: K.expr("exp %s" % v, "exp(%s)" % c(v), [fr(Z, a, a) for Z in ((RM, RQ, RA) if V == RR else (TM, TQ))])
    # ---- casts replace every descriptor, whatever was there
    for p in patterns(4):
        a, b, cc, d = p
        K.expr("cast %s to %s,%s" % (fr(RQ, a, b), cc, d), "frame_cast<%s, %s>(%s)" % (cc, d, c(fr(RQ, a, b))), [fr(RQ, cc, d)])
    for p in patterns(6):
        if not thorough and len(set(p)) in (3, 4) and "NoFrame" not in p: continue
        K.expr("cast %s to %s" % (fr(TR, *p[:3]), ",".join(p[3:])), "frame_cast<%s>(%s)" % (", ".join(p[3:]), c(fr(TR, *p[:3]))), [fr(TR, *p[3:])])
    # ---- construction and assignment of framed leaves
    for p in patterns(4):
        a, b, cc, d = p
        for (X, Y) in [(RM, RM), (RM, RQ), (TQ, TM)]:
            x, y = fr(X, a, b), fr(Y, cc, d)
            good = (a, b) == (cc, d)
            K.stmt("construct %s from %s" % (x, y), "%s z{%s}; (void)z;" % (x, c(y)), good)
            K.stmt("construct %s from inverse of %s" % (x, y), "%s z{inverse(%s)}; (void)z;" % (x, c(y)), (a, b) == (d, cc))
            K.stmt("assign %s from %s" % (x, y), "%s z; z = %s;" % (x, c(y)), good)
            K.stmt("assign %s from inverse of %s" % (x, y), "%s z; z = inverse(%s);" % (x, c(y)), (a, b) == (d, cc))
        x, y = fr(PT, a, b), fr(PT, cc, d)
        K.stmt("construct %s from %s" % (x, y), "%s z{%s}; (void)z;" % (x, c(y)), (a, b) == (cc, d))
    for p in patterns(6):
        if not thorough and len(set(p)) in (3, 4) and p[:3] != p[3:]: continue
        x, y = fr(TR, *p[:3]), fr(TR, *p[3:])
        K.stmt("construct %s from %s" % (x, y), "%s z{%s}; (void)z;" % (x, c(y)), p[:3] == p[3:])
        K.stmt("assign %s from scaled %s" % (x, y), "%s z; z = 2.0 * %s;" % (x, c(y)), p[:3] == p[3:])
    return K.c


def line(i, case):
    label, e, allowed, s = case
    if s is not None: return "void c%d() { %s }" % (i, s)
    if not allowed: return "void c%d() { use(%s); }" % (i, e)
    if allowed[0].startswith("!frames:"):
        f = allowed[0][8:].split(",")
        chk = ["std::is_same<LeftFrameOf<ev<E>>, %s>::value" % f[0], "std::is_same<RightFrameOf<ev<E>>, %s>::value" % f[-1]] + (["std::is_same<MiddleFrameOf<ev<E>>, %s>::value" % f[1]] if len(f) == 3 else [])
        return "void c%d() { using E = std::decay_t<decltype(%s)>; static_assert(%s, \"\"); use(%s); }" % (i, e, " && ".join(chk), e)
    return "void c%d() { using E = std::decay_t<decltype(%s)>; ok<E, %s>(); use(%s); }" % (i, e, ", ".join(allowed), e)


def compile_lines(drv, d, tag, lines, pch):
    """returns {index: first error text} for the lines named in diagnostics"""
    f = os.path.join(d, tag + ".cpp")
    with open(f, "w") as o:
        for _, t in lines: o.write(t + "\n")
    rc, out, err = drv.sh(["clang++-18", "-std=c++17", "-fsyntax-only", "-w", "-DNDEBUG", "-include-pch", pch, "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics", f], timeout=drv.left())
    bad = {}
    cur = None
    base = os.path.basename(f)
    for ln in err.splitlines():
        if re.search(r": (fatal )?error: ", ln): cur = ln
        mm = re.match(r"\S*" + re.escape(base) + r":(\d+):", ln)
        if mm and cur: bad.setdefault(lines[int(mm.group(1)) - 1][0], cur[:400])
    return rc, bad, err


def check(R, drv, thorough):
    d = os.path.join(drv.B, "G12"); os.makedirs(d, exist_ok=True)
    inc = drv.INC
    open(d + "/pre.hpp", "w").write(PRE)
    pch = d + "/pre.pch"
    rc, o, e = drv.sh(["clang++-18", "-std=c++17", "-x", "c++-header", "-w", "-DNDEBUG", d + "/pre.hpp", "-o", pch] + inc, timeout=drv.left())
    if rc:
        R.obl += 1; drv.violation(R, "headers", "contract-typechecks", e[:4000], None, ""); return {}
    cases = build(thorough)
    N = 8
    pos = [i for i, k in enumerate(cases) if k[2]]
    neg = [i for i, k in enumerate(cases) if not k[2]]
    import concurrent.futures as cf
    jobs = [("pos%d" % j, pos[j::N]) for j in range(N)] + [("neg%d" % j, neg[j::N]) for j in range(N)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: (j, compile_lines(drv, d, j[0], [(i, line(i, cases[i])) for i in j[1]], pch)), jobs))
    viol = []
    with R.lock: R.nharness += len(jobs)
    suspects = []
    for (tag, idx), (rc, bad, err) in res:
        R.obl += len(idx)
        if tag.startswith("pos"):
            if rc == 0: R.dis += len(idx)
            else:
                if rc == -999: viol.append((-1, "timeout"))
                elif not bad: viol.append((-1, err[:600]))
                R.dis += len(idx) - len(bad)
                suspects += [(i, True) for i in bad]
        else:
            miss = [i for i in idx if i not in bad]
            R.dis += len(idx) - len(miss)
            suspects += [(i, False) for i in miss]
    # decide every suspect alone, so that no diagnostic can hide another
    def alone(s):
        i, positive = s
        rc, bad, err = compile_lines(drv, d, "one%d" % i, [(i, line(i, cases[i]))], pch)
        os.unlink(os.path.join(d, "one%d.cpp" % i))
        return i, positive, rc, err
    sus2 = suspects[:200]
    with cf.ThreadPoolExecutor(8) as ex:
        for i, positive, rc, err in ex.map(alone, sus2):
            if positive and rc == 0: R.dis += 1
            elif positive: viol.append((i, "rejected or has unexpected frames: " + next((l for l in err.splitlines() if " error: " in l), err)[:500]))
            elif rc != 0: R.dis += 1
            else: viol.append((i, "accepted although the frames are inconsistent"))
    R.by["clang type checker"] = R.dis
    for i, why in viol[:40]:
        lab = cases[i][0] if i >= 0 else "all"
        R.undischarged.append(lab)
        drv.violation(R, "case%d" % i, re.sub(r"[^A-Za-z0-9<>,_+-]", "_", lab)[:150], why, {"program": line(i, cases[i])} if i >= 0 else None, why)
    R.funcs |= {"wave::" + x for x in ("Compose", "Rotate", "Transform", "BoxPlus", "BoxMinus", "Sum", "Subtract", "Minus", "Inverse", "LogMap", "ExpMap", "Scale", "ScaleR", "ScaleDiv", "Normalize", "MemberAccess", "FrameCast", "Framed")}
    R.samples += [{"case": cases[i][0], "expected": cases[i][2] or "rejected"} for i in (0, len(cases) // 3, len(cases) // 2, len(cases) - 1)]
    return {"accepted_cases": len(pos), "rejected_cases": len(neg), "decided_by": "clang 18 type checker on the instantiated templates"}
