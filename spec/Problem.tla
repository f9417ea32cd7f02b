------------------------------ MODULE Problem ------------------------------
(* The optimal control problems the implementation is exercised with:
   polynomial, time-varying, with input and inequality dimensions that may
   differ from step to step.

   A problem P is [nx, dt, nm, modes, phi]; modes[m] is
     [nu, ng, f |-> <<nx polynomials>>, l |-> polynomial, g |-> <<ng polynomials>>,
      lo |-> <<nu polynomials in t>>, hi |-> <<nu polynomials in t>>]
   over z = <<t>> \o x \o u, phi is a polynomial over <<t>> \o x.  A case adds
   the initial time t0, the number m0 of the mode in force at t0 and the horizon
   N: step i (0 <= i < N) happens at t0 + i dt in mode (m0 + i) mod nm.

   A mode with a table tab of points [u, c, g, h] has a scripted running cost
   instead of a polynomial: value c, gradient g and second derivative h with
   respect to the only input are those of the point nearest to it. *)
EXTENDS Poly

ModeOf(cs, i) == cs.P.modes[((cs.m0 + i) % cs.P.nm) + 1]
TimeOf(cs, i) == FAdd(cs.t0, FMul(FInt(i), cs.P.dt))
Z(cs, i, x, u) == <<TimeOf(cs, i)>> \o x \o u
NU(cs, i) == ModeOf(cs, i).nu
NG(cs, i) == ModeOf(cs, i).ng

StateEq(cs, i, x, u) ==
  LET z == Z(cs, i, x, u) m == ModeOf(cs, i)
  IN Force([j \in 1..cs.P.nx |-> PVal(m.f[j], z)])
Nearest(tab, v) ==
  LET d == [k \in 1..Len(tab) |-> FAbs(FSub(v, tab[k].u))]
  IN tab[CHOOSE k \in 1..Len(tab) : (\A j \in 1..Len(tab) : FLe(d[k], d[j])) /\ \A j \in 1..(k - 1) : FLt(d[k], d[j])]
Scripted(cs, i) == ModeOf(cs, i).tab # <<>>
Point(cs, i, u) == Nearest(ModeOf(cs, i).tab, u[1])
RunCost(cs, i, x, u) == IF Scripted(cs, i) THEN Point(cs, i, u).c ELSE PVal(ModeOf(cs, i).l, Z(cs, i, x, u))
TermCost(cs, x) == PVal(cs.P.phi, <<TimeOf(cs, cs.N)>> \o x)
Ineq(cs, i, x, u) ==
  LET z == Z(cs, i, x, u) m == ModeOf(cs, i)
  IN Force([j \in 1..m.ng |-> PVal(m.g[j], z)])
LimLo(cs, i) == LET m == ModeOf(cs, i) IN Force([j \in 1..m.nu |-> PVal(m.lo[j], <<TimeOf(cs, i)>>)])
LimHi(cs, i) == LET m == ModeOf(cs, i) IN Force([j \in 1..m.nu |-> PVal(m.hi[j], <<TimeOf(cs, i)>>)])

\* derivatives along step i
Deriv(cs, i, x, u) ==
  LET z == Z(cs, i, x, u)
      m == ModeOf(cs, i)
      n == cs.P.nx
      q == m.nu
  IN [Fx |-> MOf(n, n, LAMBDA a, b : PDer(m.f[a], 1 + b, z)),
      Fu |-> MOf(n, q, LAMBDA a, b : PDer(m.f[a], 1 + n + b, z)),
      Lx |-> VOf(n, LAMBDA a : PDer(m.l, 1 + a, z)),
      Lu |-> IF Scripted(cs, i) THEN <<Point(cs, i, u).g>> ELSE VOf(q, LAMBDA a : PDer(m.l, 1 + n + a, z)),
      Lxx |-> MOf(n, n, LAMBDA a, b : PDer2(m.l, 1 + a, 1 + b, z)),
      Luu |-> IF Scripted(cs, i) THEN [r |-> 1, c |-> 1, d |-> <<Point(cs, i, u).h>>] ELSE MOf(q, q, LAMBDA a, b : PDer2(m.l, 1 + n + a, 1 + n + b, z)),
      Lxu |-> MOf(n, q, LAMBDA a, b : PDer2(m.l, 1 + a, 1 + n + b, z)),
      Gx |-> MOf(m.ng, n, LAMBDA a, b : PDer(m.g[a], 1 + b, z)),
      Gu |-> MOf(m.ng, q, LAMBDA a, b : PDer(m.g[a], 1 + n + b, z))]
TermDeriv(cs, x) ==
  LET z == <<TimeOf(cs, cs.N)>> \o x
      n == cs.P.nx
  IN [Lx |-> VOf(n, LAMBDA a : PDer(cs.P.phi, 1 + a, z)),
      Lxx |-> MOf(n, n, LAMBDA a, b : PDer2(cs.P.phi, 1 + a, 1 + b, z))]

\* sequences are indexed from 1: element i+1 belongs to step i
Derivs(cs, X, U) == Force([k \in 1..cs.N |-> Deriv(cs, k - 1, X[k], U[k])])

RECURSIVE RollX(_, _, _)
RollX(cs, x0, U) == \* states of the rollout over the first Len(U) steps
  IF U = <<>> THEN <<x0>>
  ELSE LET n == Len(U)
           X == RollX(cs, x0, SubSeq(U, 1, n - 1))
       IN Append(X, StateEq(cs, n - 1, X[n], U[n]))
Costs(cs, X, U) ==
  Force([k \in 1..(cs.N + 1) |-> IF k <= cs.N THEN RunCost(cs, k - 1, X[k], U[k]) ELSE TermCost(cs, X[k])])

\* gradient of the total cost with respect to every input, by the adjoint recursion
RECURSIVE AdjointTo(_, _, _, _)
AdjointTo(cs, D, T, k) == \* costates p[k..N+1] as a sequence
  IF k = cs.N + 1 THEN <<T.Lx>>
  ELSE LET p == AdjointTo(cs, D, T, k + 1)
       IN <<VAdd(D[k].Lx, MTVec(D[k].Fx, p[1]))>> \o p
InputGrad(cs, X, U) ==
  LET D == Derivs(cs, X, U)
      p == Force(AdjointTo(cs, D, TermDeriv(cs, X[cs.N + 1]), 1))
  IN Force([k \in 1..cs.N |-> VAdd(D[k].Lu, MTVec(D[k].Fu, p[k + 1]))])

\* shape of a recorded trajectory
ShapeX(cs, X) == Len(X) = cs.N + 1 /\ \A k \in 1..(cs.N + 1) : Len(X[k]) = cs.P.nx
ShapeU(cs, U) == Len(U) = cs.N /\ \A k \in 1..cs.N : Len(U[k]) = NU(cs, k - 1)
SeqMaxAbs(S) == MaxTo([k \in 1..Len(S) |-> VMaxAbs(S[k])], Len(S))
SeqFinite(S) == \A k \in 1..Len(S) : VFinite(S[k])
SeqClose(A, B, scale, tol) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : VClose(A[k], B[k], scale, tol)
=============================================================================
