------------------------------ MODULE TraceDDP ------------------------------
(* Conformance of recorded DDP solves with the specification.

   Each case of the trace file records the runs of fresh solvers on the same
   problem with iteration budgets 0, 1, 2, ...: run q has budget q - 1.  As the
   solver is deterministic, consecutive runs expose the state before and after
   every iteration.  A behaviour of this module walks through the runs of one
   case; each step must be an iteration allowed by DDPNum from the previously
   *observed* state.  bad collects the violated clauses (property, clause). *)
EXTENDS DDPNum, Json, IOUtils

CONSTANT Props                       \* identifiers of the properties to decide

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, q, bad
vars == <<c, q, bad>>

Cl(pid, name, ok) == IF pid \notin Props THEN {} ELSE IF ok THEN {} ELSE {<<pid, name>>}

Row(run) == run.rows[Len(run.rows)]
Tight == FDec("1e-11")
Loose == FDec("1e-6")

\* lengths and dimensions of everything a run reports
Shape(cs, run) == /\ ShapeX(cs, run.x) /\ ShapeU(cs, run.u) /\ Len(run.c) = cs.N + 1
                  /\ Len(run.rows) >= 1

----------------------------------------------------------------------------
(* C01: the trajectory is a rollout *)
Rollout(cs, run) ==
  LET sx == FAdd(F1, SeqMaxAbs(run.x))
      CX == \A i \in 1..cs.N :
              LET y == StateEq(cs, i - 1, run.x[i], run.u[i])
              IN VClose(run.x[i + 1], y, FAdd(sx, FMul(FDec("100"), VMaxAbs(y))), Tight)
      CC == \A i \in 1..(cs.N + 1) :
              LET y == IF i <= cs.N THEN RunCost(cs, i - 1, run.x[i], run.u[i]) ELSE TermCost(cs, run.x[i])
              IN Close(run.c[i], y, FAdd(sx, FAbs(y)), FDec("1e-10"))
  IN Cl("C01", "initial state", run.x[1] = cs.x0)
     \cup Cl("C01", "state equation", CX)
     \cup Cl("C01", "step costs", CC)

----------------------------------------------------------------------------
(* Clauses about one new iteration, relative to an allowed outcome o *)
Same(a, b) == a.x = b.x /\ a.u = b.u /\ a.c = b.c
Near(a, b, tol) == Close(a, b, tol, F1)
SeqNear(A, B, tol) == SeqClose(A, B, tol, F1)

LamOK(o, row) == Close(row.lam, o.lam, FAbs(o.lam), Tight) /\ Close(row.dlam, o.dlam, FAbs(o.dlam), Tight)

\* without a prediction of the outcome: some number of failures, then stop, accept or reject
RECURSIVE LamSome(_, _, _, _)
LamSome(cf, r, row, n) ==
  \/ \E o \in {Ctl(cf)!Stopped(r, "x"), Ctl(cf)!Accepted(r, TRUE), Ctl(cf)!Rejected(r)} : LamOK(o, row)
  \/ n > 0 /\ r.ok /\ LamSome(cf, Ctl(cf)!AfterBackward(r, 1), row, n - 1)

ClA(pid, name, ok) == IF ok THEN {} ELSE {<<pid, name>>}
AllFails(cs, prev, run, next, o) ==
  LET row == Row(run)
      ext == next # <<>> => Len(next[1].rows) > Len(run.rows)      \* goes on
      halt == next # <<>> => Len(next[1].rows) = Len(run.rows)     \* has stopped
      J == VSum(prev.c)
      sc == FAdd(F1, FMax(SeqMaxAbs(run.x), SeqMaxAbs(run.u)))
      known == o.kind \in {"grad", "acc", "rej", "bfail"}
      lims == cs.tag = "limoff"
      bt == FDec(IF cs.cf.lim THEN "1e-5" ELSE "1e-8")      \* the box QP solver has a tolerance of its own
      J1 == IF cs.cf.lim THEN FAbs(J) ELSE F0
      step(name, ok) == ClA("C05", name, ok) \cup (IF lims \/ cs.cf.lim THEN ClA("C07", name, ok) ELSE {})
  IN \* --- control flow
     (IF o.kind = "nan"
      THEN ClA("C03", "success although a gain is not a number", run.ret = 0)
      ELSE ClA("C03", "return value", known => run.ret = IF o.verdict = "succ" THEN 1 ELSE 0)
           \cup ClA("C03", "stops or continues", known => IF o.verdict = "cont" THEN ext ELSE halt))
     \* the recorded numbers decide the tests, also where the prediction leaves them open
     \cup ClA("C03", "the gradient test uses the recorded gain norm",
             CASE o.kind = "grad" -> FLt(row.kr, cs.cf.kthre)
               [] o.kind \in {"acc", "rej"} -> ~(FLt(row.kr, cs.cf.kthre) /\ FLt(FMul(o.used, FDec("1.000000001")), cs.cf.lthre))
               [] OTHER -> TRUE)
     \cup ClA("C03", "the decrease test uses the recorded decrease", o.kind = "acc" => (o.verdict = "succ") = FLt(row.ca, cs.cf.cthre))
     \* --- regularisation
     \cup ClA("C04", "lambda schedule",
             IF known THEN LamOK(o, row)
             ELSE LamSome(cs.cf, [lam |-> Row(prev).lam, dlam |-> Row(prev).dlam, ok |-> TRUE], row, 60))
     \cup ClA("C04", "failure iff lambda exceeds its maximum",
             (known /\ o.kind # "grad" /\ next # <<>> /\ o.verdict # "succ") =>
               ((Len(next[1].rows) = Len(run.rows)) <=> (o.verdict = "fail")))
     \* --- numbers
     \cup (IF o.kind \in {"grad", "acc", "rej"}
           THEN step("k_rel_norm", Near(row.kr, o.kr, FAdd(o.krn, FMul(bt, FAdd(FDec("1e-3"), o.kr))))) ELSE {})
     \cup (IF o.kind \in {"grad", "bfail", "rej"} THEN ClA("C02", "trajectory kept when no step is accepted", Same(prev, run)) ELSE {})
     \cup (IF o.kind \in {"acc", "rej"}
           THEN LET s == o.s
                IN step("alpha", row.al = cs.cf.alphas[s.j])
                   \cup step("expected cost update",
                          Near(row.ce, s.exp, FAdd(s.noiseE, FMul(bt, FAdd(FAbs(s.exp), FMul(FDec("1e-6"), FAbs(J)))))))
                   \cup (IF ~s.fin THEN {} ELSE
                         ClA("C02", "actual cost update", Near(row.ca, s.act, FAdd(FMul(FInt(10), s.noise), FMul(bt, FAdd(FAbs(s.act), J1))))))
                   \cup step("cost update ratio",
                          LET r == IF FLe(row.ce, F0) THEN (IF FLe(F0, row.ca) THEN F1 ELSE FInt(-1)) ELSE FDiv(row.ca, row.ce)
                          IN Close(row.cr, r, FAbs(r), FDec("1e-9")))
                   \cup step("accepted iff the ratio exceeds the threshold",
                          LET exact == FEq(cs.cf.rthre, F0) \/ FLt(FDec("1e-9"), FAbs(FSub(row.cr, cs.cf.rthre)))
                          IN exact => (o.kind = "acc") = FLt(cs.cf.rthre, row.cr))
                   \cup (IF o.kind = "acc"
                         THEN step("new inputs", SeqNear(run.u, s.U, FAdd(s.noiseX, FMul(bt, sc))))
                              \cup step("new states", SeqNear(run.x, s.X, FAdd(s.noiseX, FMul(bt, sc))))
                         ELSE {})
           ELSE {})


(* Which of the allowed outcomes explains the iteration: one that is right about everything the other
   properties state, if there is any; of these one that violates least of the properties in question. *)
Own(F) == {f \in F : f[1] \in Props}
Explain(cs, prev, run, next, outs) ==
  LET F == [o \in outs |-> AllFails(cs, prev, run, next, o)]
      clean == {o \in outs : F[o] = Own(F[o])}
      cand == IF clean # {} THEN clean ELSE outs
      best == CHOOSE o \in cand : \A p2 \in cand : Cardinality(Own(F[o])) <= Cardinality(Own(F[p2]))
  IN [o |-> best, bad |-> Own(F[best])]

(* C07 and C06: first-order optimality when the gradient test ends the solve *)
ProjGrad(cs, run, G) ==   \* per step, the part of the gradient that can be acted on
  Force([i \in 1..cs.N |->
    LET lo == LimLo(cs, i - 1) hi == LimHi(cs, i - 1)
    IN [j \in 1..NU(cs, i - 1) |->
         IF cs.cf.lim /\ FLe(run.u[i][j], FAdd(lo[j], FDec("1e-3"))) /\ FLt(F0, G[i][j]) THEN F0
         ELSE IF cs.cf.lim /\ FLe(FSub(hi[j], FDec("1e-3")), run.u[i][j]) /\ FLt(G[i][j], F0) THEN F0
         ELSE G[i][j]]])

\* How large the gradient may be when all relative feed-forward gains are below the threshold: gains and
\* gradient are related through the second derivatives, bounded here by those of the absolute values.
MAbs(A) == [A EXCEPT !.d = VAbs(@)]
RECURSIVE HessBound(_, _, _, _)
HessBound(D, i, V, m) ==
  IF i = 0 THEN m
  ELSE LET Fx == MAbs(D[i].Fx) Fu == MAbs(D[i].Fu)
           FuV == MMul(MT(Fu), V)
           H == FAdd(VMaxAbs(MAdd(MAbs(D[i].Luu), MMul(FuV, Fu)).d),
                     VMaxAbs(MAdd(MAbs(MT(D[i].Lxu)), MMul(FuV, Fx)).d))
       IN HessBound(D, i - 1, MAdd(MAbs(D[i].Lxx), MMul(MMul(MT(Fx), V), Fx)), FMax(m, H))
GradTol(cs, run) ==
  LET H == HessBound(Derivs(cs, run.x, run.u), cs.N, MAbs(TermDeriv(cs, run.x[cs.N + 1]).Lxx), F1)
  IN FMul(FMul(FMul(FInt(30 * cs.N), H), cs.cf.kthre), FAdd(F1, SeqMaxAbs(run.u)))

----------------------------------------------------------------------------
\* which kind of iteration was explained, and whether it was the only allowed one (coverage statistics)
Report(o, outs) == PrintT(<<"SEEN", o.kind \o "/" \o o.verdict \o (IF o.n > 0 THEN "/retried" ELSE "")
                                   \o (IF Cardinality(outs) > 1 THEN "/open" ELSE "")>>)

\* scripted cases: whether the solver went the way that MC_DDPCtl prescribes (statistics; bad says what is wrong if it did not)
OnPath(cs, it, o) ==
  "want" \in DOMAIN cs =>
    PrintT(<<"SEEN", IF it > Len(cs.want) THEN "script: beyond"
                     ELSE IF cs.want[it] = o.kind \/ (cs.want[it] = "end" /\ o.kind \in {"grad", "bfail"})
                     THEN "script: followed" ELSE "script: left"
           >>)

(* One step of the walk through the runs of case c: run q is examined. *)
Judge(cs, R, p) ==
  LET run == R[p]
      prev == R[p - 1]
      next == IF p < Len(R) THEN <<R[p + 1]>> ELSE <<>>
      it == p - 1                                   \* iteration budget of this run
  IN IF run.exc # ""
     THEN Cl("C08", "well-formed call throws", FALSE) \cup Cl("C01", "well-formed call throws", FALSE)
          \cup Cl("C03", "well-formed call throws", FALSE) \cup Cl("C05", "well-formed call throws", FALSE)
          \cup Cl("C02", "well-formed call throws", FALSE) \cup Cl("C04", "well-formed call throws", FALSE)
          \cup Cl("C06", "well-formed call throws", FALSE) \cup Cl("C07", "well-formed call throws", FALSE)
     ELSE IF ~Shape(cs, run)
     THEN Cl("C01", "shape of the result", FALSE)
     ELSE
       Rollout(cs, run)
       \cup Cl("C02", "recorded cost", Close(Row(run).cost, VSum(run.c), FAdd(FAbs(VSum(run.c)), VMaxAbs(run.c)), FDec("1e-12")))
       \cup Cl("C03", "numbering of trace entries", \A i \in 1..Len(run.rows) : run.rows[i].it = i - 1)
       \cup Cl("C03", "iteration budget", Len(run.rows) <= it + 1)
       \cup Cl("C03", "no NaN success", run.ret = 1 => /\ \A i \in 1..cs.N : VNoNaN(run.u[i])
                                                       /\ ~FIsNaN(Row(run).kr))
       \cup (IF cs.cf.lim /\ run.u # cs.u0
             THEN Cl("C07", "inputs within limits", \A i \in 1..cs.N :
                    LET lo == LimLo(cs, i - 1) hi == LimHi(cs, i - 1) IN
                    \A j \in 1..NU(cs, i - 1) :
                      /\ FLe(FSub(lo[j], FMul(Tight, FAdd(F1, FAbs(lo[j])))), run.u[i][j])
                      /\ FLe(run.u[i][j], FAdd(hi[j], FMul(Tight, FAdd(F1, FAbs(hi[j]))))))
             ELSE {})
       \cup
       (IF p = 1
        THEN Cl("C01", "initial inputs", run.u = cs.u0)
             \cup Cl("C03", "return value without iterations", run.ret = 0)
             \cup Cl("C03", "one entry for the initial guess", Len(run.rows) = 1)
             \cup Cl("C04", "initial regularisation", Row(run).lam = cs.cf.lam0 /\ Row(run).dlam = cs.cf.dlam0)
        ELSE IF prev.exc # "" \/ ~Shape(cs, prev) THEN {}
        ELSE IF Len(run.rows) = Len(prev.rows)
        THEN \* the solve had stopped before: a larger budget changes nothing
             Cl("C03", "larger budget after the end", run.rows = prev.rows /\ run.ret = prev.ret /\ Same(prev, run))
        ELSE IF Len(run.rows) # Len(prev.rows) + 1 \/ Len(run.rows) # it + 1
        THEN Cl("C03", "larger budget extends the run by one iteration", FALSE)
        ELSE
          Cl("C03", "larger budget keeps the past", SubSeq(run.rows, 1, it) = prev.rows /\ prev.ret = 0)
          \cup Cl("C02", "cost never increases",
                  ~FLt(cs.cf.rthre, F0) /\ VFinite(prev.c) =>
                    FLe(VSum(run.c), FAdd(VSum(prev.c), FMul(FDec("1e-12"), FAdd(FAbs(VSum(prev.c)), VMaxAbs(prev.c))))))
          \cup (IF Props \cap {"C02", "C03", "C04", "C05", "C07"} # {}
                   /\ FIsFinite(Row(prev).lam) /\ FIsFinite(Row(prev).dlam)
                THEN LET outs == Outcomes(cs, [lam |-> Row(prev).lam, dlam |-> Row(prev).dlam,
                                               X |-> prev.x, U |-> prev.u, C |-> prev.c])
                         e == Explain(cs, prev, run, next, outs)
                     IN IF Report(e.o, outs) /\ OnPath(cs, it, e.o) THEN e.bad ELSE {}
                ELSE {})
          \cup (IF Props \cap {"C06", "C07"} # {} /\ run.ret = 1 /\ Same(prev, run) /\ SeqFinite(run.x)
                   /\ (cs.cf.lim => run.u # cs.u0) /\ FLt(Row(run).kr, cs.cf.kthre) /\ FLe(cs.cf.kthre, FDec("1e-4")) /\ FLe(cs.cf.lthre, FDec("1e-2"))
                THEN LET G == InputGrad(cs, run.x, run.u)
                         PG == ProjGrad(cs, run, G)
                         ok == FLe(SeqMaxAbs(PG), GradTol(cs, run))
                     IN Cl("C06", "vanishing gradient at convergence", cs.cf.lim \/ ok)
                        \cup Cl("C07", "first-order optimality at convergence", ok)
                ELSE {}))

(* C06, convex linear-quadratic cases: the optimum is one exact Newton step away
   from any trajectory (checked here to have vanishing gradient). *)
LQ(cs, R) ==
  LET S0 == R[1]
      D == Derivs(cs, S0.x, S0.u)
      g == Backward([cs EXCEPT !.cf.lim = FALSE], D, TermDeriv(cs, S0.x[cs.N + 1]), S0.u, F0)
      opt == Fwd([cs EXCEPT !.cf.lim = FALSE], S0.x, S0.u, g, F1)
      J == VSum(Costs(cs, opt.X, opt.U))
      G == InputGrad(cs, opt.X, opt.U)
      last == R[Len(R)]
      sc == FAdd(F1, FMax(SeqMaxAbs(opt.X), SeqMaxAbs(opt.U)))
      sJ == FAdd(F1, FAdd(FAbs(J), VMaxAbs(S0.c)))
      sane == Assert(FLe(SeqMaxAbs(G), FMul(FDec("1e-8"), FAdd(sc, SeqMaxAbs(InputGrad(cs, S0.x, S0.u))))),
                     "LQ oracle: gradient does not vanish at the predicted optimum")
  IN IF sane
     THEN Cl("C06", "minimum cost reached", FLe(FSub(VSum(last.c), J), FMul(FDec("1e-6"), sJ)))
          \cup Cl("C06", "below the minimum", FLe(FSub(J, VSum(last.c)), FMul(FDec("1e-9"), sJ)))
          \cup Cl("C06", "zero regularisation: first iteration is optimal",
                  (FEq(cs.cf.lam0, F0) /\ Len(R) > 1) => SeqClose(R[2].u, opt.U, sc, Loose))
     ELSE {}

\* a solve that does not return at all (crash, endless loop) fulfils nothing
Crashed(cs) == IF cs.crash = "" THEN {} ELSE {<<pid, "solve does not return">> : pid \in Props}

Init == c \in 1..Len(Cases) /\ q = 0 /\ bad = Crashed(Cases[c])
Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1
  /\ c' = c
  /\ LET cs == Cases[c]
         R == cs.runs
     IN bad' = Judge(cs, R, q + 1)
               \cup (IF q + 1 = Len(R) /\ cs.tag = "lq" /\ "C06" \in Props
                        /\ \A i \in 1..Len(R) : R[i].exc = "" /\ Shape(cs, R[i])
                     THEN LQ(cs, R) ELSE {})
Spec == Init /\ [][Next]_vars

Conforms == bad = {}

\* every recorded run of every case has been examined
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Total(n - 1) + Len(Cases[n].runs) + 1
Examined == TLCGet("stats").distinct = Total(Len(Cases))
=============================================================================
