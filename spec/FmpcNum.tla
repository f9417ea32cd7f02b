------------------------------ MODULE FmpcNum ------------------------------
(* The primal-dual interior point method for
     min sum_i dt l_i(x_i, u_i) + phi(x_N)
     s.t. x_0 = xh,  x_{i+1} = f_i(x_i, u_i),  g_i(x_i, u_i) + s_i = 0,  s_i >= 0.
   Variables w = [x, u, lam, s, nu] (sequences indexed from 1: element i + 1
   belongs to step i).  cs is a case of Problem.tla with the given state cs.x0. *)
EXTENDS Problem

\* residuals and derivatives of the optimality conditions at w
Lin(cs, w) ==
  LET dt == cs.P.dt
      St(k) == LET D == Deriv(cs, k - 1, w.x[k], w.u[k])
                   xb == VSub(StateEq(cs, k - 1, w.x[k], w.u[k]), w.x[k + 1])
                   gb == VAdd(Ineq(cs, k - 1, w.x[k], w.u[k]), w.s[k])
                   lxb == VAdd(VSub(VScale(dt, D.Lx), w.lam[k]), VAdd(MTVec(D.Fx, w.lam[k + 1]), MTVec(D.Gx, w.nu[k])))
                   lub == VAdd(VScale(dt, D.Lu), VAdd(MTVec(D.Fu, w.lam[k + 1]), MTVec(D.Gu, w.nu[k])))
               IN [D |-> D, xb |-> xb, gb |-> gb, lxb |-> lxb, lub |-> lub]
      T == TermDeriv(cs, w.x[cs.N + 1])
  IN [st |-> Force([k \in 1..cs.N |-> St(k)]), T |-> T, tb |-> VSub(T.Lx, w.lam[cs.N + 1]),
      x0b |-> VSub(cs.x0, w.x[1]), pert |-> FALSE]
LinFinite(cs, L) ==
  /\ VFinite(L.x0b) /\ VFinite(L.tb) /\ MFinite(L.T.Lxx)
  /\ \A k \in 1..cs.N : LET e == L.st[k] IN
       /\ VFinite(e.xb) /\ VFinite(e.gb) /\ VFinite(e.lxb) /\ VFinite(e.lub)
       /\ MFinite(e.D.Fx) /\ MFinite(e.D.Fu) /\ MFinite(e.D.Gx) /\ MFinite(e.D.Gu)
       /\ MFinite(e.D.Lxx) /\ MFinite(e.D.Luu) /\ MFinite(e.D.Lxu)

Prod(w, k) == VMul(w.s[k], w.nu[k])
KktError(cs, w, L) ==
  FSqrt(FAdd(FAdd(VSqr(L.x0b), VSqr(L.tb)),
    VSum([k \in 1..cs.N |-> LET e == L.st[k] IN
           FAdd(FAdd(FAdd(VSqr(e.xb), VSqr(e.gb)), FAdd(VSqr(e.lxb), VSqr(e.lub))), VSqr(Prod(w, k)))])))

\* the barrier parameter of an iteration that starts from w
RECURSIVE SumLen(_)
SumLen(l) == IF l = <<>> THEN 0 ELSE Len(Head(l)) + SumLen(Tail(l))
Barrier(cs, w, upd) ==
  IF ~upd THEN FDec("1e-4")
  ELSE LET n == SumLen(w.s)
           tot == VSum([k \in 1..cs.N |-> VDot(w.s[k], w.nu[k])])
           avg == IF n = 0 THEN F0 ELSE FDiv(tot, FInt(n))
       IN FClamp(FMul(FHalf, avg), FDec("1e-8"), FDec("1e6"))

(* The linearised perturbed optimality conditions at w, as rows that a
   direction d has to annul; every row comes with the size of its terms. *)
VA(v) == VAbs(v)
MA(A) == [r |-> A.r, c |-> A.c, d |-> VAbs(A.d)]
Rows(cs, w, L, eps, d) ==
  LET dt == cs.P.dt
      St(k) ==
        LET e == L.st[k] D == e.D dx == d.x[k] du == d.u[k] dn == d.nu[k] dl == d.lam[k + 1]
            ax == VA(dx) au == VA(du) an == VA(dn) al == VA(dl)
            \* multiplier changes come from slack changes: terms of nu/s (C dx + D du + ...)
            cn == VMul(VDiv(w.nu[k], w.s[k]), VAdd(VAdd(MVec(MA(D.Gx), ax), MVec(MA(D.Gu), au)), VAdd(VA(e.gb), w.s[k])))
        IN [dyn |-> VAdd(VSub(VAdd(MVec(D.Fx, dx), MVec(D.Fu, du)), d.x[k + 1]), e.xb),
            dynS |-> VAdd(VAdd(VAdd(MVec(MA(D.Fx), ax), MVec(MA(D.Fu), au)), VA(d.x[k + 1])), VA(e.xb)),
            sx |-> VAdd(VAdd(VAdd(VScale(dt, VAdd(MVec(D.Lxx, dx), MVec(D.Lxu, du))), MTVec(D.Fx, dl)), MTVec(D.Gx, dn)),
                        VSub(e.lxb, d.lam[k])),
            sxS |-> VAdd(VAdd(VAdd(VScale(dt, VAdd(MVec(MA(D.Lxx), ax), MVec(MA(D.Lxu), au))), MTVec(MA(D.Fx), al)),
                              MTVec(MA(D.Gx), VAdd(an, cn))), VAdd(VA(e.lxb), VA(d.lam[k]))),
            su |-> VAdd(VAdd(VAdd(VScale(dt, VAdd(MTVec(D.Lxu, dx), MVec(D.Luu, du))), MTVec(D.Fu, dl)), MTVec(D.Gu, dn)), e.lub),
            suS |-> VAdd(VAdd(VAdd(VScale(dt, VAdd(MTVec(MA(D.Lxu), ax), MVec(MA(D.Luu), au))), MTVec(MA(D.Fu), al)),
                              MTVec(MA(D.Gu), VAdd(an, cn))), VA(e.lub)),
            in |-> VAdd(VAdd(VAdd(MVec(D.Gx, dx), MVec(D.Gu, du)), d.s[k]), e.gb),
            inS |-> VAdd(VAdd(VAdd(MVec(MA(D.Gx), ax), MVec(MA(D.Gu), au)), VA(d.s[k])), VA(e.gb)),
            co |-> VAdd(VAdd(VMul(w.nu[k], d.s[k]), VMul(w.s[k], dn)), [j \in 1..Len(dn) |-> FSub(FMul(w.s[k][j], w.nu[k][j]), eps)]),
            coS |-> VAdd(VAdd(VMul(w.nu[k], VA(d.s[k])), VMul(w.s[k], an)), [j \in 1..Len(dn) |-> FAdd(FMul(w.s[k][j], w.nu[k][j]), eps)])]
      n == cs.N + 1
  IN [st |-> Force([k \in 1..cs.N |-> St(k)]),
      ini |-> VSub(d.x[1], L.x0b), iniS |-> VAdd(VA(d.x[1]), VA(L.x0b)),
      ter |-> VAdd(VSub(MVec(L.T.Lxx, d.x[n]), d.lam[n]), L.tb),
      terS |-> VAdd(VAdd(MVec(MA(L.T.Lxx), VA(d.x[n])), VA(d.lam[n])), VA(L.tb))]

\* the same linearisation with every number perturbed in the 12th digit (and the sums on the way in the 13th): shows how well-conditioned the direction is
Eps(k) == IF k % 2 = 0 THEN FDec("1.000000000001") ELSE FDec("0.999999999999")
PV(v) == Force([i \in 1..Len(v) |-> FMul(v[i], Eps(i))])
PM(A) == [A EXCEPT !.d = PV(@)]
EpsI(k) == IF k % 2 = 0 THEN FDec("1.0000000000001") ELSE FDec("0.9999999999999")
PI(p, v) == IF p THEN Force([i \in 1..Len(v) |-> FMul(v[i], EpsI(i))]) ELSE v
PIM(p, A) == IF p THEN [A EXCEPT !.d = PI(p, @)] ELSE A

\* a witness for the direction: elimination of slacks and multipliers, then stage by stage (Riccati)
RECURSIVE Ric(_, _, _, _, _)
Ric(cs, w, L, eps, k) == \* stages k..N+1: tuple of [P, p, K, kk] with dlam = P dx + p, du = K dx + kk
  IF k = cs.N + 1 THEN <<[P |-> L.T.Lxx, p |-> L.tb]>>
  ELSE LET R == Ric(cs, w, L, eps, k + 1)
           n == R[1]
           e == L.st[k] D == e.D dt == cs.P.dt
           ns == VDiv(w.nu[k], w.s[k])
           W == MDiagM(ns)
           \* dnu = ns (C dx + D du + gb) - nu + eps / s
           t == VAdd(VSub(VMul(ns, e.gb), w.nu[k]), [j \in 1..Len(ns) |-> FDiv(eps, w.s[k][j])])
           CT == MT(D.Gx) DT == MT(D.Gu) AT == MT(D.Fx) BT == MT(D.Fu)
           PA == MMul(n.P, D.Fx) PB == MMul(n.P, D.Fu)
           pt == L.pert
           Fm == PIM(pt, MAdd(MAdd(MScale(dt, D.Lxx), MMul(CT, MMul(W, D.Gx))), MMul(AT, PA)))
           Hm == PIM(pt, MAdd(MAdd(MScale(dt, D.Lxu), MMul(CT, MMul(W, D.Gu))), MMul(AT, PB)))
           Gm == PIM(pt, MAdd(MAdd(MScale(dt, D.Luu), MMul(DT, MMul(W, D.Gu))), MMul(BT, PB)))
           q == VAdd(n.p, MVec(n.P, e.xb))
           hx == PI(pt, VAdd(VAdd(e.lxb, MTVec(D.Gx, t)), MTVec(D.Fx, q)))
           hu == PI(pt, VAdd(VAdd(e.lub, MTVec(D.Gu, t)), MTVec(D.Fu, q)))
           m == D.Fu.c
           sol == Force([j \in 1..(cs.P.nx + 1) |->
                    LET b == IF j <= cs.P.nx THEN MRow(Hm, j) ELSE hu IN IF m = 0 THEN <<>> ELSE Solve(Gm, b)])
           ok == n.P.r >= 0 /\ (m = 0 \/ \A j \in 1..(cs.P.nx + 1) : sol[j] # <<>>)
           K == MOf(m, cs.P.nx, LAMBDA a, b : FNeg(sol[b][a]))
           kk == VOf(m, LAMBDA a : FNeg(sol[cs.P.nx + 1][a]))
       IN IF Len(R) < cs.N + 1 - k \/ ~ok THEN <<[P |-> L.T.Lxx, p |-> L.tb]>>    \* no witness
          ELSE <<[P |-> MAdd(Fm, MMul(Hm, K)), p |-> VAdd(hx, MVec(Hm, kk)), K |-> K, kk |-> kk, G |-> Gm]>> \o R
RECURSIVE FwdX(_, _, _, _)
FwdX(cs, L, R, k) == \* direction of states 1..k
  IF k = 1 THEN <<L.x0b>>
  ELSE LET X == FwdX(cs, L, R, k - 1)
           e == L.st[k - 1]
           du == VAdd(MVec(R[k - 1].K, X[k - 1]), R[k - 1].kk)
       IN Append(X, VAdd(VAdd(MVec(e.D.Fx, X[k - 1]), MVec(e.D.Fu, du)), e.xb))
\* an invertible 2 x 2 matrix without any (L D L^T) factorisation, in whatever order of the rows
NoPivot(G) == G.r = 2 /\ FEq(G.d[1], F0) /\ FEq(G.d[4], F0) /\ ~FEq(G.d[2], F0)
Direction(cs, w, L, eps) == \* [ok, d, unf: a step's input Hessian has no factorisation]
  LET R == Force(Ric(cs, w, L, eps, 1))
      n == cs.N + 1
  IN IF Len(R) < n THEN [ok |-> FALSE, d |-> <<>>, unf |-> FALSE]
     ELSE LET X == Force(FwdX(cs, L, R, n))
              U == Force([k \in 1..cs.N |-> VAdd(MVec(R[k].K, X[k]), R[k].kk)])
              S == Force([k \in 1..cs.N |-> VScale(FInt(-1), VAdd(VAdd(MVec(L.st[k].D.Gx, X[k]), MVec(L.st[k].D.Gu, U[k])), L.st[k].gb))])
              NN == Force([k \in 1..cs.N |-> [j \in 1..Len(S[k]) |->
                       FDiv(FSub(eps, FMul(w.nu[k][j], FAdd(S[k][j], w.s[k][j]))), w.s[k][j])]])
              LL == Force([k \in 1..n |-> VAdd(MVec(R[k].P, X[k]), R[k].p)])
          IN [ok |-> TRUE, d |-> [x |-> X, u |-> U, lam |-> LL, s |-> S, nu |-> NN],
              unf |-> \E k \in 1..cs.N : NoPivot(R[k].G)]

PertLin(cs, L) ==
  [L EXCEPT !.pert = TRUE, !.T.Lxx = PM(@), !.tb = PV(@), !.x0b = PV(@),
            !.st = Force([k \in 1..cs.N |-> LET e == L.st[k] D == e.D IN
                     [e EXCEPT !.xb = PV(@), !.gb = PV(@), !.lxb = PV(@), !.lub = PV(@),
                               !.D.Fx = PM(@), !.D.Fu = PM(@), !.D.Gx = PM(@), !.D.Gu = PM(@),
                               !.D.Lxx = PM(@), !.D.Luu = PM(@), !.D.Lxu = PM(@)]])]

RECURSIVE FlatL(_)
FlatL(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o FlatL(Tail(l))
Primal(w) == FlatL(w.x) \o FlatL(w.u) \o FlatL(w.s)
Dual(w) == FlatL(w.lam) \o FlatL(w.nu)
AllOf(w) == Primal(w) \o Dual(w)
WSub(a, b) == LET Q(p, r) == Force([k \in 1..Len(p) |-> VSub(p[k], r[k])])
              IN [x |-> Q(a.x, b.x), u |-> Q(a.u, b.u), lam |-> Q(a.lam, b.lam), s |-> Q(a.s, b.s), nu |-> Q(a.nu, b.nu)]
WDiv(a, p, r) == LET Q(l, f) == Force([k \in 1..Len(l) |-> VScale(FDiv(F1, f), l[k])])
                 IN [x |-> Q(a.x, p), u |-> Q(a.u, p), s |-> Q(a.s, p), lam |-> Q(a.lam, r), nu |-> Q(a.nu, r)]
WAddP(a, f, d) == LET Q(l, m) == Force([k \in 1..Len(l) |-> VAdd(l[k], VScale(f, m[k]))])
                  IN [a EXCEPT !.x = Q(a.x, d.x), !.u = Q(a.u, d.u), !.s = Q(a.s, d.s)]

\* largest step that keeps 0.5 percent of every component of v + a dv
FracMax(v, dv) ==
  LET fv == FlatL(v) fd == FlatL(dv)
      c == [j \in 1..Len(fv) |-> IF FLt(fd[j], F0) THEN FDiv(FMul(FDec("-0.995"), fv[j]), fd[j]) ELSE F1]
  IN FMin(F1, IF c = <<>> THEN F1 ELSE CHOOSE m \in {c[j] : j \in 1..Len(c)} : \A j \in 1..Len(c) : FLe(m, c[j]))

----------------------------------------------------------------------------
(* The feedback law of an iteration from w.  At step k the input changes by
   K dx + kk and the multiplier by P dx - ss; n has P and ss of the step after.
   The linearised stationarity conditions of the step, with slacks and their
   multipliers eliminated, have to hold for every dx: as matrix (coefficient of
   dx) and vector (the rest), each with the size of its terms. *)
MMax(A) == VMaxAbs(A.d)
GainRows(cs, w, L, eps, k, g, n) ==
  LET e == L.st[k] D == e.D dt == cs.P.dt
      ns == VDiv(w.nu[k], w.s[k])
      W == MDiagM(ns)
      ko == VDiv([j \in 1..Len(ns) |-> eps], w.s[k])
      \* next state and change of the inequality multipliers
      X == MAdd(D.Fx, MMul(D.Fu, g.K))  xk == VAdd(MVec(D.Fu, g.k), e.xb)
      V == MMul(W, MAdd(D.Gx, MMul(D.Gu, g.K)))
      vk == VAdd(VSub(VMul(ns, VAdd(MVec(D.Gu, g.k), e.gb)), w.nu[k]), ko)
      XS == MAdd(MA(D.Fx), MMul(MA(D.Fu), MA(g.K)))  xkS == VAdd(MVec(MA(D.Fu), VA(g.k)), VA(e.xb))
      VS == MMul(W, MAdd(MA(D.Gx), MMul(MA(D.Gu), MA(g.K))))
      vkS == VAdd(VAdd(VMul(ns, VAdd(MVec(MA(D.Gu), VA(g.k)), VAdd(VA(e.gb), w.s[k]))), w.nu[k]), ko)
      LuxT == MT(D.Lxu)
      su == MAdd(MAdd(MScale(dt, MAdd(LuxT, MMul(D.Luu, g.K))), MMul(MT(D.Fu), MMul(n.P, X))), MMul(MT(D.Gu), V))
      suS == MAdd(MAdd(MScale(dt, MAdd(MA(LuxT), MMul(MA(D.Luu), MA(g.K)))), MMul(MT(MA(D.Fu)), MMul(MA(n.P), XS))), MMul(MT(MA(D.Gu)), VS))
      lk == VSub(MVec(n.P, xk), n.s)  lkS == VAdd(MVec(MA(n.P), xkS), VA(n.s))
      sk == VAdd(VAdd(VAdd(VScale(dt, MVec(D.Luu, g.k)), MTVec(D.Fu, lk)), MTVec(D.Gu, vk)), e.lub)
      skS == VAdd(VAdd(VAdd(VScale(dt, MVec(MA(D.Luu), VA(g.k))), MTVec(MA(D.Fu), lkS)), MTVec(MA(D.Gu), vkS)), VA(e.lub))
      sx == MSub(MAdd(MAdd(MScale(dt, MAdd(D.Lxx, MMul(D.Lxu, g.K))), MMul(MT(D.Fx), MMul(n.P, X))), MMul(MT(D.Gx), V)), g.P)
      sxS == MAdd(MAdd(MAdd(MScale(dt, MAdd(MA(D.Lxx), MMul(MA(D.Lxu), MA(g.K)))), MMul(MT(MA(D.Fx)), MMul(MA(n.P), XS))),
                       MMul(MT(MA(D.Gx)), VS)), MMul(MT(MA(g.K)), suS))
      xo == VAdd(VAdd(VAdd(VAdd(VScale(dt, MVec(D.Lxu, g.k)), MTVec(D.Fx, lk)), MTVec(D.Gx, vk)), e.lxb), g.s)
      xoS == VAdd(VAdd(VAdd(VAdd(VScale(dt, MVec(MA(D.Lxu), VA(g.k))), MTVec(MA(D.Fx), lkS)), MTVec(MA(D.Gx), vkS)), VA(e.lxb)), MTVec(suS, VA(g.k)))
      \* the matrix that is inverted for the gains
      G == MAdd(MAdd(MScale(dt, D.Luu), MMul(MT(D.Gu), MMul(W, D.Gu))), MMul(MT(D.Fu), MMul(n.P, D.Fu)))
  IN [G |-> G, rows |-> {<<"feedback", MMax(su), MMax(suS)>>, <<"feed-forward", VMaxAbs(sk), VMaxAbs(skS)>>,
                         <<"multiplier matrix", MMax(sx), MMax(sxS)>>, <<"multiplier offset", VMaxAbs(xo), VMaxAbs(xoS)>>}]

----------------------------------------------------------------------------
(* Merit function: cost + barrier, and the L1 norm of the constraint residuals. *)
MeritObj(cs, w, eps) ==
  FAdd(FAdd(TermCost(cs, w.x[cs.N + 1]), VSum([k \in 1..cs.N |-> FMul(cs.P.dt, RunCost(cs, k - 1, w.x[k], w.u[k]))])),
       FNeg(FMul(eps, VSum([k \in 1..cs.N |-> VSum([j \in 1..Len(w.s[k]) |-> FLog(w.s[k][j])])]))))
MeritCon(cs, w) ==
  FAdd(VNorm1(VSub(cs.x0, w.x[1])),
       VSum([k \in 1..cs.N |-> FAdd(VNorm1(VSub(StateEq(cs, k - 1, w.x[k], w.u[k]), w.x[k + 1])),
                                    VNorm1(VAdd(Ineq(cs, k - 1, w.x[k], w.u[k]), w.s[k])))]))
\* one-sided derivatives along d
ObjDeriv(cs, w, L, eps, d) ==
  FAdd(VDot(L.T.Lx, d.x[cs.N + 1]),
       VSum([k \in 1..cs.N |-> LET e == L.st[k] IN
             FSub(FMul(cs.P.dt, FAdd(VDot(e.D.Lx, d.x[k]), VDot(e.D.Lu, d.u[k]))),
                  FMul(eps, VSum(VDiv(d.s[k], w.s[k]))))]))
\* a residual within rounding of zero counts as either sign: lower and upper value of the derivative
AbsDeriv(r, dr, tiny, hi) ==
  VSum([j \in 1..Len(r) |->
     IF FLe(FAbs(r[j]), tiny) THEN (IF hi THEN FAbs(dr[j]) ELSE FNeg(FAbs(dr[j])))
     ELSE IF FLt(F0, r[j]) THEN dr[j] ELSE FNeg(dr[j])])
ConDeriv(cs, w, L, d, tiny, hi) ==
  FAdd(AbsDeriv(L.x0b, VScale(FInt(-1), d.x[1]), tiny, hi),
       VSum([k \in 1..cs.N |-> LET e == L.st[k] IN
             FAdd(AbsDeriv(e.xb, VSub(VAdd(MVec(e.D.Fx, d.x[k]), MVec(e.D.Fu, d.u[k])), d.x[k + 1]), tiny, hi),
                  AbsDeriv(e.gb, VAdd(VAdd(MVec(e.D.Gx, d.x[k]), MVec(e.D.Gu, d.u[k])), d.s[k]), tiny, hi))]))
\* weight of the constraint part
MeritWeight(w, lagr, objd, con) ==
  IF lagr THEN FMax(FDec("1e-3"), FMax(VMaxAbs(FlatL(w.lam)), VMaxAbs(FlatL(w.nu))))
  ELSE FMax(FDiv(objd, FMul(FHalf, con)), FDec("1e-3"))
=============================================================================
