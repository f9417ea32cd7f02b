------------------------------- MODULE BoxMin -------------------------------
(* Declarative meaning of a strictly convex box-constrained QP
     minimise g'x + x'Hx/2  subject to lo <= x <= hi
   by enumeration of all active sets (every variable at its lower bound, at its
   upper bound, or free), for small dimensions. *)
EXTENDS LinAlg, FiniteSets

QObj(H, g, x) == FAdd(VDot(x, g), FMul(FHalf, VDot(x, MVec(H, x))))
QGrad(H, g, x) == VAdd(g, MVec(H, x))
VClamp(x, lo, hi) == Force([i \in 1..Len(x) |-> FClamp(x[i], lo[i], hi[i])])
InBox(x, lo, hi) == \A i \in 1..Len(x) : FLe(lo[i], x[i]) /\ FLe(x[i], hi[i])

RECURSIVE Idx(_, _, _)
Idx(a, n, w) == IF n = 0 THEN <<>> ELSE IF a[n] = w THEN Append(Idx(a, n - 1, w), n) ELSE Idx(a, n - 1, w)

\* stationary point of the face described by a : 1..n -> {-1, 0, 1}
FacePoint(H, g, lo, hi, a) ==
  LET n == Len(g)
      F == Idx(a, n, 0)
      base == Force([i \in 1..n |-> IF a[i] = -1 THEN lo[i] ELSE IF a[i] = 1 THEN hi[i] ELSE F0])
      r == QGrad(H, g, base)
      xf == IF F = <<>> THEN <<>>
            ELSE CholSolve(Chol(MSub_(H, F, F)).L, Force([k \in 1..Len(F) |-> FNeg(r[F[k]])]))
  IN Force([i \in 1..n |-> IF a[i] # 0 THEN base[i] ELSE xf[CHOOSE k \in 1..Len(F) : F[k] = i]])

\* [x, a, deg]: minimiser, its face, and whether it is (nearly) degenerate
BoxMin(H, g, lo, hi) ==
  LET n == Len(g)
      tol == FDec("1e-12")
      Faces == [1..n -> {-1, 0, 1}]
      pts == {[a |-> a, x |-> FacePoint(H, g, lo, hi, a)] : a \in Faces}
      Feas(p) == \A i \in 1..n : /\ FLe(FSub(lo[i], p.x[i]), FMul(tol, FAdd(F1, FAbs(lo[i]))))
                                 /\ FLe(FSub(p.x[i], hi[i]), FMul(tol, FAdd(F1, FAbs(hi[i]))))
      cand == {[a |-> p.a, x |-> VClamp(p.x, lo, hi)] : p \in {q \in pts : VFinite(q.x) /\ Feas(q)}}
      obj == [p \in cand |-> QObj(H, g, p.x)]
      best == CHOOSE p \in cand : \A q \in cand : FLe(obj[p], obj[q])
      gr == QGrad(H, g, best.x)
      gs == FAdd(VMaxAbs(g), FAdd(FDec("1e-12"), VMaxAbs(MVec(H, best.x))))
      xs == FAdd(FDec("1e-9"), VMaxAbs(best.x))
      dtol == FDec("1e-6")
      deg == \E i \in 1..n :
               \/ best.a[i] # 0 /\ FLe(FAbs(gr[i]), FMul(dtol, gs))
               \/ best.a[i] = 0 /\ (FLe(FSub(best.x[i], lo[i]), FMul(dtol, xs))
                                    \/ FLe(FSub(hi[i], best.x[i]), FMul(dtol, xs)))
  IN [x |-> best.x, a |-> best.a, deg |-> deg]

\* clearly positive definite: all pivots well above rounding
PDClear(H) ==
  LET c == Chol(H)
      s == FAdd(FDec("1e-300"), VMaxAbs(H.d))
  IN \A i \in 1..H.r : FLt(FMul(FDec("1e-10"), s), c.piv[i])
\* clearly not positive definite: the first pivot that is not clearly positive is clearly negative
NotPDClear(H) ==
  LET c == Chol(H)
      s == FAdd(FDec("1e-300"), VMaxAbs(H.d))
      t == FMul(FDec("1e-10"), s)
  IN \E i \in 1..H.r : /\ \A j \in 1..(i - 1) : FLt(t, c.piv[j])
                       /\ FLt(c.piv[i], FNeg(t))
=============================================================================
