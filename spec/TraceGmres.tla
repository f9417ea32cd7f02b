----------------------------- MODULE TraceGmres -----------------------------
(* Conformance of the GMRES solver (C18).  The meaning of k steps is declarative:
   the smallest residual over initial guess + Krylov space of dimension k, here
   computed with twice-orthogonalised bases. *)
EXTENDS TraceCommon

RECURSIVE Ortho1(_, _, _)
Ortho1(v, B, k) == IF k = 0 THEN v
                   ELSE LET w == Ortho1(v, B, k - 1) IN VSub(w, VScale(VDot(w, B[k]), B[k]))
Ortho(v, B) == Ortho1(Ortho1(v, B, Len(B)), B, Len(B))

\* orthonormal basis of the Krylov space of dimension at most k; cut short when it is exhausted
RECURSIVE Krylov(_, _, _)
Krylov(A, r0, k) ==
  IF k = 0 THEN <<>>
  ELSE IF k = 1 THEN <<VScale(FDiv(F1, VNorm(r0)), r0)>>
  ELSE LET B == Krylov(A, r0, k - 1)
       IN IF Len(B) < k - 1 THEN B
          ELSE LET w == MVec(A, B[k - 1])
                   v == Ortho(w, B)
               IN IF FLe(VNorm(v), FMul(FDec("1e-9"), VNorm(w))) THEN B
                  ELSE Append(B, VScale(FDiv(F1, VNorm(v)), v))
RECURSIVE OrthoAll(_, _, _)
OrthoAll(A, B, k) == \* orthonormal basis of A * span(B[1..k])
  IF k = 0 THEN <<>>
  ELSE LET Q == OrthoAll(A, B, k - 1)
           w == MVec(A, B[k])
           v == Ortho(w, Q)
       IN IF FLe(VNorm(v), FMul(FDec("1e-13"), VNorm(w))) THEN Q ELSE Append(Q, VScale(FDiv(F1, VNorm(v)), v))
MinRes(Q, r0, k) == VNorm(Ortho(r0, SubSeq(Q, 1, IF k <= Len(Q) THEN k ELSE Len(Q))))

Judge(p, r) ==
  LET n == Len(p.b)
      r0 == VSub(p.b, MVec(p.A, p.x0))
      rn == VNorm(r0)
      bn == VNorm(p.b)
      kmx == IF p.kmax < 0 \/ p.kmax > n THEN n ELSE p.kmax     \* -1: default budget
      eps == p.eps
      noise == FMul(FDec("1e-10"), FAdd(FAdd(rn, bn), FAdd(FMul(VMaxAbs(p.A.d), VNorm(p.x0)), FDec("1e-280"))))
      \* a point far away has a residual no better than the rounding of its image
      far == IF VFinite(r.x) THEN FAdd(noise, FMul(FDec("1e-12"), FMul(VMaxAbs(p.A.d), VNorm(r.x)))) ELSE noise
      B == IF FEq(rn, F0) THEN <<>> ELSE Force(Krylov(p.A, r0, kmx))
      Q == Force(OrthoAll(p.A, B, Len(B)))
      res == Force([k \in 1..(kmx + 1) |-> MinRes(Q, r0, k - 1)])
      K == Len(r.err) - 1
      sane == Len(r.x) = n /\ VFinite(r.x) /\ K >= 0 /\ VFinite(r.err)
      out == VSub(p.b, MVec(p.A, r.x))
      thre == FMul(eps, bn)
      d == VSub(r.x, p.x0)
      why == IF K = 0 THEN "nothing to do" ELSE IF FLe(res[K + 1], thre) THEN "converged" ELSE "budget"
  IN Cl("C18", "finite result", sane)
     \cup (IF ~sane THEN {} ELSE
       Cl("C18", "at most the budgeted number of steps", K <= kmx)
       \cup (IF K > kmx THEN {} ELSE
         Cl("C18", "initial residual", Close(r.err[1], rn, FAdd(rn, FDec("1e-280")), FDec("1e-12")) \/ FLe(FAbs(FSub(r.err[1], rn)), FMul(FDec("1e-2"), noise)))
         \cup Cl("C18", "goes on until the tolerance is met",
                 K = kmx \/ FLe(res[K + 1], FAdd(FMul(thre, FDec("1.000001")), noise)))
         \cup Cl("C18", "stops once the tolerance is met",
                 \A k \in 0..(K - 1) : FLt(FSub(FMul(thre, FDec("0.999999")), noise), res[k + 1]))
         \cup Cl("C18", "recorded errors are the smallest residuals",
                 \A k \in 0..K : FLe(FAbs(FSub(r.err[k + 1], res[k + 1])), far))
         \cup Cl("C18", "recorded errors never increase",
                 \A k \in 1..K : FLe(r.err[k + 1], FAdd(r.err[k], FMul(FDec("1e-12"), rn))))
         \cup Cl("C18", "smallest residual returned", FLe(FAbs(FSub(VNorm(out), res[K + 1])), far))
         \cup Cl("C18", "last recorded error is the residual", FLe(FAbs(FSub(VNorm(out), r.err[K + 1])), far))
         \cup Cl("C18", "within initial guess + Krylov space",
                 K <= Len(B) => FLe(VNorm(Ortho(d, SubSeq(B, 1, K))), FMul(FDec("1e-7"), FAdd(VNorm(d), VNorm(p.x0)))))
         \cup Cl("C18", "untouched when nothing to do", K = 0 => r.x = p.x0)
         \cup (IF Seen("gmres " \o why \o (IF Len(B) < kmx /\ K > 0 THEN " exhausted" ELSE "")) THEN {} ELSE {})))

Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ bad' = Judge(Cases[c].in[q + 1], Cases[c].runs[q + 1])
Spec == Init /\ [][Next]_vars
=============================================================================
