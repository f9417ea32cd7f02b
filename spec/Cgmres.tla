------------------------------- MODULE Cgmres -------------------------------
(* The continuation/GMRES controller.

   A problem P is [nx, nu, f, l, phi]: state equation f and stage cost l are
   polynomials in (t, x, u), the terminal cost phi in (t, x).  H = l + lmd.f is
   the Hamiltonian.  cf is the configuration; P.ode and P.sim select the
   integrators of the horizon and of the simulation. *)
EXTENDS Ode

Z(t, x, u) == <<t>> \o x \o u
StateEq(P, t, x, u) == Force([i \in 1..P.nx |-> PVal(P.f[i], Z(t, x, u))])
\* gradient of H with respect to variable number v of (t, x, u)
HamDer(P, v, z, lmd) == FAdd(PDer(P.l, v, z), VSum([j \in 1..P.nx |-> FMul(lmd[j], PDer(P.f[j], v, z))]))
CostateEq(P, t, lmd, x, u) == LET z == Z(t, x, u) IN Force([k \in 1..P.nx |-> FNeg(HamDer(P, 1 + k, z, lmd))])
DhDu(P, t, x, u, lmd) == LET z == Z(t, x, u) IN Force([k \in 1..P.nu |-> HamDer(P, 1 + P.nx + k, z, lmd)])
DphiDx(P, t, x) == Force([k \in 1..P.nx |-> PDer(P.phi, 1 + k, <<t>> \o x)])

Horizon(cf, t) == FMul(cf.T, FSub(F1, FExp(FNeg(FMul(cf.ratio, t)))))
Tau(cf, t, i) == FAdd(t, FMul(FInt(i - 1), FDiv(Horizon(cf, t), FInt(cf.N))))     \* time of stage i

\* states of stages 1..n
RECURSIVE States(_, _, _, _, _, _)
States(P, cf, t, x, ul, n) ==
  IF n = 1 THEN <<x>>
  ELSE LET X == States(P, cf, t, x, ul, n - 1)
           F(tt, xx) == StateEq(P, tt, xx, ul[n - 1])
       IN Append(X, Force(OdeStep(P.ode, F, Tau(cf, t, n - 1), X[n - 1], FDiv(Horizon(cf, t), FInt(cf.N)))))
\* costates of stages n..N+1
RECURSIVE Costates(_, _, _, _, _, _)
Costates(P, cf, t, X, ul, n) ==
  IF n = cf.N + 1 THEN <<DphiDx(P, Tau(cf, t, n), X[n])>>
  ELSE LET L == Costates(P, cf, t, X, ul, n + 1)
           F(tt, ll) == CostateEq(P, tt, ll, X[n], ul[n])
       IN <<Force(OdeStep(P.ode, F, Tau(cf, t, n + 1), L[1], FNeg(FDiv(Horizon(cf, t), FInt(cf.N)))))>> \o L
\* the residual of the whole horizon with what it was computed from
Residual(P, cf, t, x, ul) ==
  LET X == Force(States(P, cf, t, x, ul, cf.N + 1))
      L == Force(Costates(P, cf, t, X, ul, 1))
  IN [D |-> Force([i \in 1..cf.N |-> DhDu(P, Tau(cf, t, i), X[i], ul[i], L[i + 1])]), X |-> X, L |-> L]

RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
Column(P, v, i) == SubSeq(v, (i - 1) * P.nu + 1, i * P.nu)
Move(P, ul, s, v) == Force([i \in 1..Len(ul) |-> VAdd(ul[i], VScale(s, Column(P, v, i)))])    \* ul + s v

(* The linear equation A d = b of one update at time t, from state x towards
   the predicted state y one period later. *)
Shifted(cf, x, y) == LET a == FDiv(cf.delta, cf.dt) IN VAdd(VScale(FSub(F1, a), x), VScale(a, y))
Equation(P, cf, t, x, y, ul) ==
  LET t1 == FAdd(t, cf.delta)
      x1 == Shifted(cf, x, y)
      R0 == Residual(P, cf, t, x, ul)
      D0 == Force(Flat(R0.D))
      D1 == Force(Flat(Residual(P, cf, t1, x1, ul).D))
      b == VScale(FDiv(F1, cf.delta), VSub(VScale(FSub(F1, FMul(cf.zeta, cf.delta)), D0), D1))
  IN [b |-> b, D0 |-> D0, D1 |-> D1, t1 |-> t1, x1 |-> x1, R0 |-> R0]
AMul(P, cf, e, ul, v) ==
  VScale(FDiv(F1, cf.delta), VSub(Flat(Residual(P, cf, e.t1, e.x1, Move(P, ul, cf.delta, v)).D), e.D1))
=============================================================================
