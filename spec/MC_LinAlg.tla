------------------------------ MODULE MC_LinAlg ------------------------------
(* Self-check of the accelerated evaluation: PolyRef (generated by lib/vlib.py)
   is the text of LinAlg and Poly with every operator Op renamed to R_Op, which
   has no Java counterpart, so TLC evaluates the TLA+ definitions themselves.
   Both evaluations must agree bit for bit. *)
EXTENDS Poly, PolyRef
VARIABLE s
F(n, d) == FDiv(FInt(n), FInt(d))
\* a small pseudo-random sequence of doubles
Rnd(k) == F(((s * 7919 + k * 104729 + k * k * 31) % 2003) - 1001, 97 + (k % 13))
V(n, o) == Force([i \in 1..n |-> Rnd(i + o)])
Mat(n, m, o) == [r |-> n, c |-> m, d |-> V(n * m, o)]
SPD(n, o) == LET Q == Mat(n, n, o) IN MMul(MT(Q), Q)
Dim == 0..3
P(n) == [k \in 1..4 |-> [c |-> Rnd(k), e |-> [i \in 1..n |-> (k * i + s) % 3]]]
Agree ==
  /\ \A n \in Dim :
      /\ VSum(V(n, 1)) = R_VSum(V(n, 1)) /\ VDot(V(n, 1), V(n, 5)) = R_VDot(V(n, 1), V(n, 5))
      /\ VAdd(V(n, 1), V(n, 5)) = R_VAdd(V(n, 1), V(n, 5)) /\ VSub(V(n, 1), V(n, 5)) = R_VSub(V(n, 1), V(n, 5))
      /\ VMul(V(n, 1), V(n, 5)) = R_VMul(V(n, 1), V(n, 5)) /\ VDiv(V(n, 1), V(n, 5)) = R_VDiv(V(n, 1), V(n, 5))
      /\ VScale(Rnd(3), V(n, 5)) = R_VScale(Rnd(3), V(n, 5))
      /\ Chol(SPD(n, 4)) = R_Chol(SPD(n, 4))
      /\ CholSolve(Chol(SPD(n, 4)).L, V(n, 2)) = R_CholSolve(Chol(SPD(n, 4)).L, V(n, 2))
      /\ Chol(MDiagAdd(SPD(n, 4), Rnd(9))).ok = R_Chol(MDiagAdd(SPD(n, 4), Rnd(9))).ok
      /\ Solve(Mat(n, n, 6), V(n, 2)) = R_Solve(Mat(n, n, 6), V(n, 2))
      /\ Solve(MZero(n, n), V(n, 2)) = R_Solve(MZero(n, n), V(n, 2))
      /\ VClose(V(n, 1), V(n, 2), Rnd(1), Rnd(2)) = R_VClose(V(n, 1), V(n, 2), Rnd(1), Rnd(2))
      /\ \A v, w \in 1..n : /\ PDer(P(n), v, V(n, 1)) = R_PDer(P(n), v, V(n, 1))
                            /\ PDer2(P(n), v, w, V(n, 1)) = R_PDer2(P(n), v, w, V(n, 1))
      /\ PVal(P(n), V(n, 1)) = R_PVal(P(n), V(n, 1))
  /\ \A n, m \in Dim :
      /\ MT(Mat(n, m, 3)) = R_MT(Mat(n, m, 3))
      /\ MVec(Mat(n, m, 3), V(m, 1)) = R_MVec(Mat(n, m, 3), V(m, 1))
      /\ MTVec(Mat(n, m, 3), V(n, 1)) = R_MTVec(Mat(n, m, 3), V(n, 1))
      /\ \A k \in Dim : MMul(Mat(n, m, 3), Mat(m, k, 8)) = R_MMul(Mat(n, m, 3), Mat(m, k, 8))
  /\ Close(Rnd(1), Rnd(2), Rnd(3), Rnd(4)) = R_Close(Rnd(1), Rnd(2), Rnd(3), Rnd(4))
  /\ FDec("0.1") = F(1, 10) /\ FEq(FSqrt(FInt(9)), FInt(3)) /\ FIsNaN(FDiv(F0, F0))
Init == s \in 1..40
Next == UNCHANGED s
=============================================================================
