------------------------------- MODULE LinAlg -------------------------------
(* Vectors and matrices over F64.  A vector is a tuple of doubles; a matrix is
   [r |-> rows, c |-> columns, d |-> row-major tuple], so that empty dimensions
   keep their shape.

   The definitions are the normative ones.  For speed TLC evaluates the
   operators marked (J) by spec/java/LinAlg.java; spec/MC_LinAlg.tla compares
   both evaluations on enumerated arguments. *)
EXTENDS F64, Sequences, TLC

F0 == FInt(0)
F1 == FInt(1)
F2 == FInt(2)
FHalf == FDiv(F1, F2)

FMax(a, b) == IF FLt(a, b) THEN b ELSE a      \* like std::max (keeps a if unordered)
FMin(a, b) == IF FLt(b, a) THEN b ELSE a      \* like std::min
FClamp(a, lo, hi) == FMax(FMin(a, hi), lo)

Force(v) == TLCEval(v)

----------------------------------------------------------------------------
(* Vectors *)
VOf(n, F(_)) == Force([i \in 1..n |-> F(i)])
VZero(n) == VOf(n, LAMBDA i : F0)

RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN F0 ELSE FAdd(SumTo(v, n - 1), v[n])
VSum(v) == SumTo(v, Len(v))                                            \* (J)
VAdd(a, b) == Force([i \in 1..Len(a) |-> FAdd(a[i], b[i])])            \* (J)
VSub(a, b) == Force([i \in 1..Len(a) |-> FSub(a[i], b[i])])            \* (J)
VScale(s, a) == Force([i \in 1..Len(a) |-> FMul(s, a[i])])             \* (J)
VMul(a, b) == Force([i \in 1..Len(a) |-> FMul(a[i], b[i])])            \* (J)
VDiv(a, b) == Force([i \in 1..Len(a) |-> FDiv(a[i], b[i])])            \* (J)
VDot(a, b) == VSum(VMul(a, b))                                         \* (J)
VAbs(a) == Force([i \in 1..Len(a) |-> FAbs(a[i])])
VNorm1(a) == VSum(VAbs(a))
VSqr(a) == VDot(a, a)
VNorm(a) == FSqrt(VSqr(a))
RECURSIVE MaxTo(_, _)
MaxTo(v, n) == IF n = 0 THEN F0 ELSE FMax(MaxTo(v, n - 1), v[n])
VMaxAbs(a) == MaxTo(VAbs(a), Len(a))          \* 0 for the empty vector
VFinite(v) == \A i \in 1..Len(v) : FIsFinite(v[i])
VNoNaN(v) == \A i \in 1..Len(v) : ~FIsNaN(v[i])

----------------------------------------------------------------------------
(* Matrices *)
MOf(n, m, F(_, _)) ==
  [r |-> n, c |-> m,
   d |-> Force([k \in 1..(n * m) |-> F(((k - 1) \div m) + 1, ((k - 1) % m) + 1)])]
MAt(A, i, j) == A.d[(i - 1) * A.c + j]
MZero(n, m) == MOf(n, m, LAMBDA i, j : F0)
MId(n) == MOf(n, n, LAMBDA i, j : IF i = j THEN F1 ELSE F0)
MT(A) == MOf(A.c, A.r, LAMBDA i, j : MAt(A, j, i))                     \* (J)
MAdd(A, B) == [r |-> A.r, c |-> A.c, d |-> VAdd(A.d, B.d)]
MSub(A, B) == [r |-> A.r, c |-> A.c, d |-> VSub(A.d, B.d)]
MScale(s, A) == [r |-> A.r, c |-> A.c, d |-> VScale(s, A.d)]
MRow(A, i) == Force([j \in 1..A.c |-> MAt(A, i, j)])
MCol(A, j) == Force([i \in 1..A.r |-> MAt(A, i, j)])
MMul(A, B) == MOf(A.r, B.c, LAMBDA i, j : VDot(MRow(A, i), MCol(B, j)))  \* (J)
MVec(A, x) == Force([i \in 1..A.r |-> VDot(MRow(A, i), x)])            \* (J)
MTVec(A, x) == Force([j \in 1..A.c |-> VDot(MCol(A, j), x)])           \* (J)
MDiagAdd(A, s) == MOf(A.r, A.c, LAMBDA i, j : IF i = j THEN FAdd(MAt(A, i, j), s) ELSE MAt(A, i, j))
MDiagM(v) == MOf(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE F0)
MSym(A) == MScale(FHalf, MAdd(A, MT(A)))
MSub_(A, I, J) == MOf(Len(I), Len(J), LAMBDA i, j : MAt(A, I[i], J[j]))    \* selected rows and columns
MFinite(A) == VFinite(A.d)
MFromRows(n, m, rows) == MOf(n, m, LAMBDA i, j : rows[i][j])

----------------------------------------------------------------------------
(* Cholesky factorisation A = L L^T by rows.  piv[i] is the i-th pivot (the
   radicand of L[i][i]): A is positive definite iff all pivots are positive;
   after a negative pivot everything is NaN. *)
RECURSIVE CholRow(_, _, _, _)
\* entries L[i][1..j] of row i, given the previous rows
CholRow(A, L, i, j) ==
  IF j = 0 THEN <<>>
  ELSE LET prev == CholRow(A, L, i, j - 1)
           s == FSub(MAt(A, i, j), VDot(prev, SubSeq(IF j = i THEN prev ELSE L[j], 1, j - 1)))
       IN Append(prev, IF i = j THEN FSqrt(s) ELSE FDiv(s, L[j][j]))
RECURSIVE CholRows(_, _)
CholRows(A, n) == IF n = 0 THEN <<>> ELSE LET L == CholRows(A, n - 1) IN Append(L, CholRow(A, L, n, n))
Chol(A) ==                                                             \* (J)
  LET L == Force(CholRows(A, A.r))
      piv == Force([i \in 1..A.r |-> LET h == SubSeq(L[i], 1, i - 1) IN FSub(MAt(A, i, i), VDot(h, h))])
  IN [ok |-> \A i \in 1..A.r : FLt(F0, piv[i]), L |-> L, piv |-> piv]

RECURSIVE FwdSub(_, _, _)
FwdSub(L, b, n) ==
  IF n = 0 THEN <<>>
  ELSE LET y == FwdSub(L, b, n - 1)
       IN Append(y, FDiv(FSub(b[n], VDot(y, SubSeq(L[n], 1, n - 1))), L[n][n]))
RECURSIVE BwdSub(_, _, _)
\* solves L^T x = y for components i..n
BwdSub(L, y, i) ==
  IF i > Len(y) THEN <<>>
  ELSE LET x == BwdSub(L, y, i + 1)
           col == [k \in 1..(Len(y) - i) |-> L[i + k][i]]
       IN <<FDiv(FSub(y[i], VDot(col, x)), L[i][i])>> \o x
CholSolve(L, b) == BwdSub(L, FwdSub(L, b, Len(b)), 1)                  \* (J)
CholSolveM(L, B) ==
  LET cols == [j \in 1..B.c |-> CholSolve(L, MCol(B, j))]
  IN MOf(B.r, B.c, LAMBDA i, j : cols[j][i])

(* Gaussian elimination with partial pivoting on an augmented system, given as a
   tuple of rows; returns the solution of A x = b, or <<>> when a pivot vanishes. *)
RECURSIVE Elim(_, _)
Elim(rows, n) ==
  IF n = 0 THEN <<>>
  ELSE LET p == CHOOSE i \in 1..n : \A j \in 1..n : FLe(FAbs(rows[j][1]), FAbs(rows[i][1]))
       IN IF ~\E i \in 1..n : \A j \in 1..n : FLe(FAbs(rows[j][1]), FAbs(rows[i][1])) THEN <<>>
          ELSE IF FEq(rows[p][1], F0) THEN <<>>
          ELSE LET pr == rows[p]
                   rest == [k \in 1..(n - 1) |-> LET q == IF k < p THEN k ELSE k + 1 IN rows[q]]
                   red == Force([k \in 1..(n - 1) |->
                            LET f == FDiv(rest[k][1], pr[1])
                            IN [j \in 1..n |-> FSub(rest[k][j + 1], FMul(f, pr[j + 1]))]])
                   x == Elim(red, n - 1)
               IN IF n > 1 /\ x = <<>> THEN <<>>
                  ELSE <<FDiv(FSub(pr[n + 1], VDot(SubSeq(pr, 2, n), x)), pr[1])>> \o x
Solve(A, b) == IF A.r = 0 THEN <<>> ELSE Elim([i \in 1..A.r |-> Append(MRow(A, i), b[i])], A.r)   \* (J)

----------------------------------------------------------------------------
(* Approximate equality.  Close(a, b, scale, tol): |a - b| <= tol * scale; both
   NaN, or equal infinities, are close too. *)
Close(a, b, scale, tol) ==                                             \* (J)
  \/ FIsNaN(a) /\ FIsNaN(b)
  \/ FEq(a, b)
  \/ FLe(FAbs(FSub(a, b)), FMul(tol, scale))
VClose(a, b, scale, tol) ==                                            \* (J)
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], scale, tol)
=============================================================================
