------------------------------- MODULE DDPNum -------------------------------
(* One DDP iteration as a relation between the state before it (regularisation,
   trajectory) and its outcome: the regularised backward recursion, the gradient
   test, the line search over the configured scales and the acceptance rule,
   with the control logic of DDPCtl.

   A case cs is [P, t0, m0, N, x0, u0, cf]; cf is the solver configuration
   [lam0, dlam0, fac, lmin, lmax, kthre, lthre, alphas, rthre, cthre, reg, lim].

   Decisions whose margin is within floating-point noise are left open: both
   outcomes are then allowed (Next is nondeterministic there).  A trajectory that has blown up (values above 1e4, costs above 1e9) is outside
   the range in which predictions are meaningful ("wild").  The noise is
   measured, not guessed: every prediction is made twice, the second time from
   derivatives perturbed in the 12th digit, and ten times the difference is
   granted on top of a small base tolerance. *)
EXTENDS Problem, BoxMin

Ctl(cf) == INSTANCE DDPCtl WITH Mul <- FMul, Div <- FDiv, Lt <- FLt, Zero <- F0, One <- F1,
                                Fac <- cf.fac, LMin <- cf.lmin, LMax <- cf.lmax

----------------------------------------------------------------------------
(* Backward pass.  Result [ok, open, wild, k, K, dV]: ok = gains exist; open =
   positive definiteness undecidable within rounding; wild = the gains cannot be
   predicted (degenerate or indefinite box QP, overflow); nan = a gradient Qu is
   not a number, hence neither are the gains. *)
\* the same data with every number perturbed in the 12th digit
Eps(k) == IF k % 2 = 0 THEN FDec("1.000000000001") ELSE FDec("0.999999999999")
Eps2(k) == IF k % 3 = 0 THEN FDec("1.0000000000001") ELSE FDec("0.9999999999999")
PV(v) == Force([i \in 1..Len(v) |-> FMul(v[i], Eps(i))])
PM(A) == [A EXCEPT !.d = PV(@)]
PV2(p, v) == IF p THEN Force([i \in 1..Len(v) |-> FMul(v[i], Eps2(i))]) ELSE v
PM2(p, A) == IF p THEN [A EXCEPT !.d = PV2(p, @)] ELSE A

RECURSIVE BackFrom(_, _, _, _, _, _, _, _, _)
BackFrom(cs, D, U, lam, p, i, Vx, Vxx, acc) ==       \* p: intermediate results perturbed
  IF i = 0 THEN acc
  ELSE
  LET d == D[i]
      FuT == MT(d.Fu)
      FxT == MT(d.Fx)
      Qu == PV2(p, VAdd(d.Lu, MVec(FuT, Vx)))
      Qx == VAdd(d.Lx, MVec(FxT, Vx))
      LuxT == MT(d.Lxu)
      Qux == PM2(p, MAdd(LuxT, MMul(MMul(FuT, Vxx), d.Fx)))
      Quu == PM2(p, MAdd(d.Luu, MMul(MMul(FuT, Vxx), d.Fu)))
      Qxx == MAdd(d.Lxx, MMul(MMul(FxT, Vxx), d.Fx))
      Vreg == IF cs.cf.reg = 2 THEN MDiagAdd(Vxx, lam) ELSE Vxx
      QuxR == MAdd(LuxT, MMul(MMul(FuT, Vreg), d.Fx))
      QuuR == MAdd(d.Luu, MMul(MMul(FuT, Vreg), d.Fu))
      QuuF == IF cs.cf.reg = 1 THEN MDiagAdd(QuuR, lam) ELSE QuuR
      nu == NU(cs, i - 1)
      nx == cs.P.nx
      fin == VFinite(Qu) /\ MFinite(QuuF) /\ MFinite(QuxR)
      nan == \E j \in 1..Len(Qu) : FIsNaN(Qu[j])
      pd == nu = 0 \/ PDClear(QuuF)
      npd == nu > 0 /\ NotPDClear(QuuF)
      box == BoxMin(QuuF, Qu, VSub(LimLo(cs, i - 1), U[i]), VSub(LimHi(cs, i - 1), U[i]))
      ch == Chol(QuuF)
      free == Idx(box.a, nu, 0)
      Kfree == CholSolveM(Chol(MSub_(QuuF, free, free)).L, MSub_(QuxR, free, [j \in 1..nx |-> j]))
      k == IF nu = 0 THEN <<>>
           ELSE IF cs.cf.lim THEN box.x
           ELSE Force(VScale(FInt(-1), CholSolve(ch.L, Qu)))
      K == IF nu = 0 THEN MZero(0, nx)
           ELSE IF cs.cf.lim
                THEN MOf(nu, nx, LAMBDA a, b :
                       IF box.a[a] # 0 THEN F0
                       ELSE FNeg(MAt(Kfree, CHOOSE q \in 1..Len(free) : free[q] = a, b)))
           ELSE MScale(FInt(-1), CholSolveM(ch.L, QuxR))
      KT == MT(K)
      QuxT == MT(Qux)
      Vx2 == VAdd(VAdd(VAdd(Qx, MVec(KT, MVec(Quu, k))), MVec(KT, Qu)), MVec(QuxT, k))
      Vxx2 == MSym(MAdd(MAdd(MAdd(Qxx, MMul(MMul(KT, Quu), K)), MMul(KT, Qux)), MMul(QuxT, K)))
  IN IF nan THEN [acc EXCEPT !.nan = TRUE]
     ELSE IF ~fin THEN [acc EXCEPT !.wild = TRUE]
     ELSE IF ~pd /\ ~cs.cf.lim /\ npd THEN [acc EXCEPT !.ok = FALSE]
     ELSE IF ~pd /\ ~cs.cf.lim THEN [acc EXCEPT !.open = TRUE]
     ELSE IF ~pd THEN [acc EXCEPT !.wild = TRUE]
     ELSE IF nu > 0 /\ cs.cf.lim /\ box.deg THEN [acc EXCEPT !.wild = TRUE]
     ELSE BackFrom(cs, D, U, lam, p, i - 1, PV2(p, Vx2), PM2(p, Vxx2),
            [acc EXCEPT !.k = <<k>> \o @, !.K = <<K>> \o @,
                        !.dV = <<FAdd(@[1], VDot(k, Qu)),
                                 FAdd(@[2], FMul(FHalf, VDot(k, MVec(Quu, k))))>>])

BackwardP(cs, D, T, U, lam, p) ==
  BackFrom(cs, D, U, lam, p, cs.N, T.Lx, T.Lxx,
         [ok |-> TRUE, open |-> FALSE, wild |-> FALSE, nan |-> FALSE, k |-> <<>>, K |-> <<>>, dV |-> <<F0, F0>>])

Backward(cs, D, T, U, lam) == BackwardP(cs, D, T, U, lam, FALSE)

PertD(D) == Force([k \in 1..Len(D) |->
  [D[k] EXCEPT !.Fx = PM(@), !.Fu = PM(@), !.Lx = PV(@), !.Lu = PV(@), !.Lxx = PM(@), !.Luu = PM(@), !.Lxu = PM(@)]])
PertT(T) == [Lx |-> PV(T.Lx), Lxx |-> PM(T.Lxx)]
Good(g) == g.ok /\ ~g.open /\ ~g.wild /\ ~g.nan

\* all ways the gain computation may go, retrying with increased regularisation
RECURSIVE GainTries(_, _, _, _, _, _)
GainTries(cs, D, T, U, r, n) ==          \* r = [lam, dlam, ok], n = failures so far
  IF ~r.ok THEN {[r |-> r, n |-> n, kind |-> "bfail"]}
  ELSE LET g == Force(Backward(cs, D, T, U, r.lam))
           again == GainTries(cs, D, T, U, Ctl(cs.cf)!AfterBackward(r, 1), n + 1)
       IN IF g.nan THEN {[r |-> r, n |-> n, kind |-> "nan"]}
          ELSE IF g.wild THEN {[r |-> r, n |-> n, kind |-> "wild"]}
          ELSE IF g.open THEN {[r |-> r, n |-> n, kind |-> "wild"]}
          ELSE LET h == Force(BackwardP(cs, PertD(D), PertT(T), U, r.lam, TRUE))
               IN IF ~g.ok THEN (IF h.ok \/ h.wild \/ h.open THEN {[r |-> r, n |-> n, kind |-> "wild"]} ELSE again)
                  ELSE IF ~Good(h) THEN {[r |-> r, n |-> n, kind |-> "wild"]}
                  ELSE {[r |-> r, n |-> n, kind |-> "gain", g |-> g, h |-> h]}

----------------------------------------------------------------------------
(* Forward pass for one scale: the rollout of u + alpha k + K (x' - x), with the
   inputs limited when input constraints are on. *)
RECURSIVE FwdN(_, _, _, _, _, _, _)
FwdN(cs, X, U, g, alpha, pert, n) == \* [X, U] over the first n steps
  IF n = 0 THEN [X |-> <<X[1]>>, U |-> <<>>]
  ELSE LET p == FwdN(cs, X, U, g, alpha, pert, n - 1)
           raw == VAdd(VAdd(U[n], VScale(alpha, g.k[n])), MVec(g.K[n], VSub(p.X[n], X[n])))
           u == IF cs.cf.lim THEN VClamp(raw, LimLo(cs, n - 1), LimHi(cs, n - 1)) ELSE raw
           x == StateEq(cs, n - 1, p.X[n], u)
       IN [X |-> Append(p.X, IF pert THEN PV(x) ELSE x), U |-> Append(p.U, u)]
Fwd(cs, X, U, g, alpha) == FwdN(cs, X, U, g, alpha, FALSE, cs.N)
FwdP(cs, X, U, g, alpha) == FwdN(cs, X, U, g, alpha, TRUE, cs.N)

SeqDiff(A, B) == MaxTo([k \in 1..Len(A) |-> VMaxAbs(VSub(A[k], B[k]))], Len(A))

\* whether a ratio above the threshold is certain / possible
Ambig(x, y, scale) == FLe(FAbs(FSub(x, y)), scale)

(* Line search: the set of possible results [acc, j, X, U, C, act, exp, ratio]
   (acc = FALSE: no scale accepted; the other fields are those of the last). *)
RECURSIVE Search(_, _, _, _, _, _, _)
Search(cs, X, U, J, g, h, j) ==
  LET alpha == cs.cf.alphas[j]
      c == Force(Fwd(cs, X, U, g, alpha))
      cp == Force(FwdP(cs, X, U, h, alpha))
      C == Costs(cs, c.X, c.U)
      Cp == Costs(cs, cp.X, cp.U)
      act == FSub(J, VSum(C))
      Exp(q) == FMul(FMul(FInt(-1), alpha), FAdd(q.dV[1], FMul(alpha, q.dV[2])))
      exp == Exp(g)
      noiseA == FAdd(FMul(FDec("1e-12"), FAdd(FAbs(J), FAdd(FAbs(VSum(C)), VMaxAbs(C)))),
                     FMul(FInt(10), FAbs(FSub(VSum(C), VSum(Cp)))))
      noiseE == FAdd(FMul(FDec("1e-9"), FMul(alpha, FAdd(FAbs(g.dV[1]), FAbs(FMul(alpha, g.dV[2]))))),
                     FMul(FInt(10), FAbs(FSub(exp, Exp(h)))))
      down == FLe(exp, F0)
      ratio == IF down THEN (IF FLe(F0, act) THEN F1 ELSE FInt(-1)) ELSE FDiv(act, exp)
      yes == FLt(cs.cf.rthre, ratio)
      fin == VFinite(C)
      open == \/ fin # VFinite(Cp)                                  \* overflow, or not
              \/ /\ fin
                 /\ \/ FLe(FAbs(exp), noiseE)                      \* sign of the expectation unclear
                    \/ down /\ FLe(FAbs(act), noiseA)
                    \/ ~down /\ FLe(FAbs(FSub(act, FMul(cs.cf.rthre, exp))),
                                    FAdd(noiseA, FAdd(FAbs(FMul(cs.cf.rthre, noiseE)),
                                                      FMul(FDec("1e-9"), FAbs(FMul(cs.cf.rthre, exp))))))
      res(b) == [acc |-> b, j |-> j, X |-> c.X, U |-> c.U, C |-> C, act |-> act, exp |-> exp,
                 noise |-> noiseA, noiseE |-> noiseE, fin |-> fin /\ VFinite(Cp),
                 noiseX |-> FMul(FInt(10), FAdd(SeqDiff(c.X, cp.X), SeqDiff(c.U, cp.U)))]
      more == IF j = Len(cs.cf.alphas) THEN {res(FALSE)} ELSE Search(cs, X, U, J, g, h, j + 1)
  IN (IF yes \/ open THEN {res(TRUE)} ELSE {}) \cup (IF ~yes \/ open THEN more ELSE {})

KRel(cs, U, g) == MaxTo([i \in 1..cs.N |-> FDiv(VNorm(g.k[i]), FAdd(VNorm(U[i]), F1))], cs.N)

----------------------------------------------------------------------------
(* All allowed outcomes of an iteration from S = [lam, dlam, X, U, C].
   Fields: kind \in {"grad", "acc", "rej", "bfail", "nan", "wild"}, lam, dlam,
   verdict, n (gain failures), and the numbers recorded in the trace. *)
Outcomes(cs, S) ==
  LET D == Derivs(cs, S.X, S.U)
      T == TermDeriv(cs, S.X[cs.N + 1])
      J == VSum(S.C)
      huge == SeqFinite(S.X) /\ (~FLe(SeqMaxAbs(S.X), FDec("1e4")) \/ ~FLe(VMaxAbs(S.C), FDec("1e9")))
      tries == IF huge THEN {[r |-> [lam |-> S.lam, dlam |-> S.dlam], n |-> 0, kind |-> "wild"]} ELSE GainTries(cs, D, T, S.U, [lam |-> S.lam, dlam |-> S.dlam, ok |-> TRUE], 0)
      cf == cs.cf
      One(t) ==
        IF t.kind = "bfail" THEN {[kind |-> "bfail", lam |-> t.r.lam, dlam |-> t.r.dlam, verdict |-> "fail", n |-> t.n]}
        ELSE IF t.kind # "gain" THEN {[kind |-> t.kind, lam |-> t.r.lam, dlam |-> t.r.dlam, verdict |-> "any", n |-> t.n]}
        ELSE LET kr == KRel(cs, S.U, t.g)
                 krn == FAdd(FMul(FDec("1e-9"), kr), FMul(FInt(10), FAbs(FSub(kr, KRel(cs, S.U, t.h)))))
                 nearK == Ambig(kr, cf.kthre, FAdd(krn, FMul(FDec(IF cf.lim THEN "1e-4" ELSE "1e-8"), cf.kthre)))
                 nearL == t.r.lam # cf.lthre /\ Ambig(t.r.lam, cf.lthre, FMul(FDec("1e-9"), cf.lthre))
                 yes == FLt(kr, cf.kthre) /\ FLt(t.r.lam, cf.lthre)
                 open == /\ nearK \/ FLt(kr, cf.kthre)
                         /\ nearL \/ FLt(t.r.lam, cf.lthre)
                         /\ nearK \/ nearL
                 stop == [kind |-> "grad", lam |-> t.r.lam, dlam |-> t.r.dlam, verdict |-> "succ", n |-> t.n, kr |-> kr, krn |-> krn]
                 Fin(s) ==
                   IF s.acc
                   THEN LET small == FLt(s.act, cf.cthre)
                            op == Ambig(s.act, cf.cthre, FAdd(s.noise, FMul(FDec("1e-8"), FAbs(cf.cthre))))
                        IN {LET a == Ctl(cs.cf)!Accepted(t.r, b)
                            IN [kind |-> "acc", lam |-> a.lam, dlam |-> a.dlam, verdict |-> a.verdict, n |-> t.n,
                                kr |-> kr, krn |-> krn, s |-> s, used |-> t.r.lam] : b \in IF op THEN BOOLEAN ELSE {small}}
                   ELSE LET a == Ctl(cs.cf)!Rejected(t.r)
                        IN {[kind |-> "rej", lam |-> a.lam, dlam |-> a.dlam, verdict |-> a.verdict, n |-> t.n,
                             kr |-> kr, krn |-> krn, s |-> s, used |-> t.r.lam]}
             IN (IF yes \/ open THEN {stop} ELSE {})
                \cup (IF ~yes \/ open THEN UNION {Fin(s) : s \in Search(cs, S.X, S.U, J, t.g, t.h, 1)} ELSE {})
  IN UNION {One(t) : t \in tries}
=============================================================================
