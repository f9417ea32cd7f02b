----------------------------- MODULE TraceFmpc -----------------------------
(* Conformance of FMPC solves (C11 - C15, C17, C26).  runs[k] is the result of a
   fresh solver with budget k - 1 on the same problem, arguments and settings,
   so runs[k].v is the iterate after k - 1 iterations. *)
EXTENDS TraceCommon, FmpcNum

SeqShape(l, n, D(_)) == Len(l) = n /\ \A k \in 1..n : Len(l[k]) = D(k)
Shape(cs, v) ==
  /\ SeqShape(v.x, cs.N + 1, LAMBDA k : cs.P.nx) /\ SeqShape(v.lam, cs.N + 1, LAMBDA k : cs.P.nx)
  /\ SeqShape(v.u, cs.N, LAMBDA k : NU(cs, k - 1))
  /\ SeqShape(v.s, cs.N, LAMBDA k : NG(cs, k - 1)) /\ SeqShape(v.nu, cs.N, LAMBDA k : NG(cs, k - 1))
Positive(v) == \A j \in 1..Len(v) : FLt(F0, v[j])
Stopped(p) == p.ret \in 1..4
Uninit == {0, 5}

\* shape of the exposed coefficients
MShape(A, n, m) == A.r = n /\ A.c = m /\ Len(A.d) = n * m
CoShape(cs, co) ==
  /\ Len(co) = cs.N + 1
  /\ \A k \in 1..(cs.N + 1) : LET e == co[k] n == cs.P.nx IN
       /\ Len(e.Lx) = n /\ Len(e.lxb) = n /\ Len(e.s) = n /\ MShape(e.Lxx, n, n) /\ MShape(e.P, n, n)
       /\ k <= cs.N => LET u == NU(cs, k - 1) g == NG(cs, k - 1) IN
            /\ MShape(e.Fx, n, n) /\ MShape(e.Fu, n, u) /\ MShape(e.Gx, g, n) /\ MShape(e.Gu, g, u)
            /\ Len(e.Lu) = u /\ MShape(e.Luu, u, u) /\ MShape(e.Lxu, n, u)
            /\ Len(e.xb) = n /\ Len(e.gb) = g /\ Len(e.lub) = u /\ Len(e.k) = u /\ MShape(e.K, u, n)
Gains(cs, co) == [k \in 1..(cs.N + 1) |-> IF k <= cs.N THEN <<co[k].k, co[k].K, co[k].s, co[k].P>> ELSE <<co[k].s, co[k].P>>]
AllZero(v) == \A j \in 1..Len(v) : FLe(FAbs(v[j]), F0)
NoGains(cs, co) == \A k \in 1..(cs.N + 1) : AllZero(co[k].s) /\ AllZero(co[k].P.d) /\ (k <= cs.N => AllZero(co[k].k) /\ AllZero(co[k].K.d))
HasCo(r) == "co" \in DOMAIN r /\ "C26" \in Props

\* budget 0
JudgeStart(cs, r) ==
  LET w == r.v
      S(k) == Force([j \in 1..NG(cs, k - 1) |->
                 FMul(FDec("1.01"), FMax(FNeg(Ineq(cs, k - 1, cs.v.x[k], cs.v.u[k])[j]), FDec("1e-2")))])
      V(s) == Force([j \in 1..Len(s) |-> FMul(FDec("1.01"), FMax(FDiv(FDec("1e-4"), s[j]), FDec("1e-2")))])
      ok == Shape(cs, w)
  IN Cl("C15", "well-formed call accepted", r.exc = "")
     \cup (IF r.exc # "" THEN {} ELSE
       Cl("C14", "nothing started without a budget", r.ret \in Uninit /\ r.rows = <<>>)
       \cup Cl("C14", "shape", ok)
       \cup Cl("C14", "initial guess kept", w.x = cs.v.x /\ w.u = cs.v.u /\ w.lam = cs.v.lam)
       \cup (IF ~ok THEN {} ELSE IF ~cs.cf.init
             THEN Cl("C14", "initial slacks and multipliers kept", w.s = cs.v.s /\ w.nu = cs.v.nu)
             ELSE Cl("C15", "slacks initialised from the constraints",
                      \A k \in 1..cs.N : VFinite(S(k)) => VClose(w.s[k], S(k), FAdd(F1, VMaxAbs(S(k))), FDec("1e-12")))
                  \cup Cl("C15", "multipliers initialised from the slacks",
                      \A k \in 1..cs.N : VFinite(S(k)) => VClose(w.nu[k], V(S(k)), FAdd(F1, VMaxAbs(V(S(k)))), FDec("1e-12")))
                  \cup Cl("C15", "strictly above the minimum",
                      \A k \in 1..cs.N : VFinite(S(k)) => \A j \in 1..Len(w.s[k]) :
                          FLt(FDec("1e-2"), w.s[k][j]) /\ FLt(FDec("1e-2"), w.nu[k][j])))
       \cup (IF HasCo(r) THEN Cl("C26", "dimensions", CoShape(cs, r.co)) \cup
                              (IF cs.reused \/ ~CoShape(cs, r.co) THEN {} ELSE Cl("C26", "no gains before the first step", NoGains(cs, r.co))) ELSE {})
       \cup (IF Seen("start" \o (IF cs.cf.init THEN " initialised" ELSE "")) THEN {} ELSE {}))

Big(l) == VMaxAbs(FlatL(l))
\* size of the numbers that the residuals at w are made of
Size(cs, w, L) ==
  LET jac == MaxTo([k \in 1..cs.N |-> LET D == L.st[k].D IN
               FMax(FMax(VMaxAbs(D.Fx.d), VMaxAbs(D.Fu.d)), FMax(VMaxAbs(D.Gx.d), VMaxAbs(D.Gu.d)))], cs.N)
      grad == MaxTo([k \in 1..cs.N |-> LET e == L.st[k] IN
               FMax(FMax(VMaxAbs(e.D.Lx), VMaxAbs(e.D.Lu)), FMax(FMax(VMaxAbs(e.xb), VMaxAbs(e.gb)), FMax(VMaxAbs(e.lxb), VMaxAbs(e.lub))))], cs.N)
      prod == MaxTo([k \in 1..cs.N |-> VMaxAbs(Prod(w, k))], cs.N)
  IN FAdd(FAdd(FMul(FAdd(F1, jac), FAdd(FAdd(Big(w.lam), Big(w.nu)), F1)), FAdd(grad, prod)),
          FAdd(FAdd(Big(w.x), Big(w.s)), FAdd(VMaxAbs(L.T.Lx), VMaxAbs(cs.x0))))

\* worst row relative to its terms (rows of one kind share their scale)
Worst(rows, kind, kindS, extra, rel) ==
  LET a == VMaxAbs(FlatL([k \in 1..Len(rows.st) |-> rows.st[k][kind]]))
      b == VMaxAbs(FlatL([k \in 1..Len(rows.st) |-> rows.st[k][kindS]]))
  IN FLe(a, FAdd(FMul(rel, b), extra))
RowsOKr(rows, ep, es, rel) == \* set of the names of the rows that are not annulled
  (IF FLe(VMaxAbs(rows.ini), FAdd(FMul(FDec("1e-8"), VMaxAbs(rows.iniS)), ep)) THEN {} ELSE {"initial state"})
  \cup (IF FLe(VMaxAbs(rows.ter), FAdd(FMul(rel, VMaxAbs(rows.terS)), es)) THEN {} ELSE {"terminal stationarity"})
  \cup (IF Worst(rows, "dyn", "dynS", ep, FDec("1e-8")) THEN {} ELSE {"dynamics"})
  \cup (IF Worst(rows, "sx", "sxS", es, rel) THEN {} ELSE {"state stationarity"})
  \cup (IF Worst(rows, "su", "suS", es, rel) THEN {} ELSE {"input stationarity"})
  \cup (IF Worst(rows, "in", "inS", ep, FDec("1e-8")) THEN {} ELSE {"inequality"})
  \cup (IF Worst(rows, "co", "coS", es, rel) THEN {} ELSE {"complementarity"})

RowsOK(rows, ep, es) == RowsOKr(rows, ep, es, FDec("1e-8"))

\* the line search from w along d: maximal step am, accepted step a; lost: step too small to be measured, at most floor
JudgeSearch(cs, w, L, eps, d, am, a, lost, floor) ==
  LET con == MeritCon(cs, w)
      objd == ObjDeriv(cs, w, L, eps, d)
      wt == MeritWeight(w, cs.cf.lagr, objd, con)
      sz == FAdd(F1, FAdd(Big(w.x), FAdd(Big(w.s), Big(w.u))))
      tiny == FMul(FDec("1e-14"), sz)
      dlo == FAdd(objd, FMul(wt, ConDeriv(cs, w, L, d, tiny, FALSE)))
      dhi == FAdd(objd, FMul(wt, ConDeriv(cs, w, L, d, tiny, TRUE)))
      m0 == FAdd(MeritObj(cs, w, eps), FMul(wt, con))
      MA_(al) == LET v == WAddP(w, al, d) IN FAdd(MeritObj(cs, v, eps), FMul(wt, MeritCon(cs, v)))
      RECURSIVE Halved(_)
      Halved(j) == IF j = 0 THEN am ELSE FMul(FHalf, Halved(j - 1))
      \* number of halvings that leads to a
      cand == {j \in 0..40 : FLe(FAbs(FSub(a, Halved(j))), FMul(FDec("1e-3"), Halved(j)))}
      \* rounding of the merit values
      noise(m) == FMul(FDec("1e-9"), FAdd(FAdd(FAbs(m0), FAbs(m)), FMul(wt, FMul(FDec("1e-4"), FAdd(con, sz)))))
      Holds(j) == LET m == MA_(Halved(j))       \* sufficient decrease, in doubt yes
                  IN FLt(m, FAdd(FAdd(m0, FMul(FMul(FDec("1e-3"), Halved(j)), dhi)), FAdd(noise(m), FDec("1e-300"))))
      Fails(j) == LET m == MA_(Halved(j))       \* in doubt yes
                  IN ~FLt(m, FSub(FAdd(m0, FMul(FMul(FDec("1e-3"), Halved(j)), dlo)), noise(m)))
      J == CHOOSE j \in cand : TRUE
  IN IF ~(FIsFinite(m0) /\ FIsFinite(dlo) /\ FIsFinite(dhi)) \/ FLt(FDec("1e8"), wt) THEN {}
     ELSE IF lost THEN Cl("C17", "first step with sufficient decrease (tiny)", \A j \in 0..40 : FLt(floor, Halved(j)) => Fails(j))
                       \cup (IF Seen("search tiny") THEN {} ELSE {})
     ELSE
     Cl("C17", "step is a halving of the maximum", cand # {})
     \cup (IF cand = {} THEN {} ELSE
       Cl("C17", "sufficient decrease", Holds(J) \/ FLt(Halved(J), FDec("1e-10")))
       \cup Cl("C17", "first step with sufficient decrease", \A j \in 0..(J - 1) : Fails(j))
       \cup Cl("C17", "not below the least step", J = 0 \/ ~FLt(Halved(J - 1), FDec("0.999e-10")))
       \cup (IF Seen("search " \o (IF FLt(Halved(J), FDec("1e-10")) THEN "gives up" ELSE IF J = 0 THEN "full" ELSE "halved")) THEN {} ELSE {}))

\* a completed iteration from w to w2
JudgeMove(cs, w, w2, L) ==
  LET eps == Barrier(cs, w, cs.cf.upd)
      D == Direction(cs, w, L, eps)
      pos == Positive(FlatL(w.s)) /\ Positive(FlatL(w.nu))
      ratio(a, b) == \A k \in 1..cs.N : \A j \in 1..Len(a[k]) :
                        FLt(F0, b[k][j]) /\ FLe(FMul(FDec("0.004999"), a[k][j]), b[k][j])
      fin == VFinite(AllOf(w2))
      delta == WSub(w2, w)
      \* slacks so small (or so large compared to the multiplier) that rounding decides the direction
      stiff == \E k \in 1..cs.N : \E j \in 1..Len(w.s[k]) : FLt(FMul(FDec("1e10"), w.s[k][j]), w.nu[k][j])
                                                           \/ FLt(FMul(FDec("1e11"), w.nu[k][j]), w.s[k][j])
      basic == Cl("C12", "slacks stay positive, 0.5 percent kept", pos => ratio(w.s, w2.s))
               \cup Cl("C12", "multipliers stay positive, 0.5 percent kept", pos => ratio(w.nu, w2.nu))
      Dp == Direction(cs, w, PertLin(cs, L), eps)
      stable == IF ~Dp.ok THEN FALSE
                ELSE IF ~VFinite(AllOf(Dp.d)) THEN FALSE
                ELSE /\ FLe(VNorm(VSub(Primal(D.d), Primal(Dp.d))), FMul(FDec("2e-6"), FAdd(FDec("1e-5"), VNorm(Primal(D.d)))))
                     /\ FLe(VNorm(VSub(Dual(D.d), Dual(Dp.d))), FMul(FDec("2e-6"), FAdd(FDec("1e-5"), VNorm(Dual(D.d)))))
      witness == IF ~D.ok THEN FALSE
                 ELSE IF ~VFinite(AllOf(D.d)) \/ ~FLe(VMaxAbs(AllOf(D.d)), FDec("1e8")) THEN FALSE
                 ELSE RowsOK(Rows(cs, w, L, eps, D.d), F0, F0) = {} /\ stable
  IN IF ~fin THEN Cl("C14", "non-finite iterate with checking on", ~(cs.cf.nan /\ pos /\ witness))
                  \cup (IF Seen("overflow") THEN {} ELSE {})
     ELSE IF ~Positive(FlatL(w.s)) \/ stiff \/ ~witness \/ ~FLe(VMaxAbs(AllOf(w2)), FDec("1e10")) THEN basic \cup (IF Seen("move unclear") THEN {} ELSE {})
     ELSE
     LET d == D.d
         dp == Primal(d) dd == Dual(d)
         wm == FAdd(F1, VMaxAbs(AllOf(w)))
         \* nothing can be said about the length of a step that is lost in rounding
         lost == cs.cf.ls /\ FLe(VNorm(Primal(delta)), FMul(FDec("1e-12"), wm))
         zp == lost \/ FLe(VNorm(dp), FMul(FDec("1e-7"), wm)) zd == FLe(VNorm(dd), FMul(FDec("1e-7"), wm))
         ap == IF zp THEN F1 ELSE FDiv(VDot(Primal(delta), dp), VSqr(dp))
         ad == IF zd THEN F1 ELSE FDiv(VDot(Dual(delta), dd), VSqr(dd))
         ms == FracMax(w.s, d.s) mn == FracMax(w.nu, d.nu)
         near(a, b) == FLe(FAbs(FSub(a, b)), FMul(FDec("1e-4"), b))
         range(a) == FLt(F0, a) /\ FLe(a, FDec("1.00001"))
         rp == FMul(FDec("1e-14"), FMul(FInt(Len(dp)), wm))
         okp == zp \/ range(ap) okd == zd \/ range(ad)
         obs == WDiv(delta, ap, ad)
         noise == FDiv(FMul(rp, FAdd(F1, Size(cs, w, L))), FMin(ap, ad))
         \* rounding of slack changes, amplified by nu / s, in the length of the dual step
         amp == MaxTo([k \in 1..cs.N |-> VMaxAbs(VDiv(w.nu[k], w.s[k]))], cs.N)
         dualErr == FDiv(FMul(FMul(FInt(10), amp), rp), FAdd(VNorm(dd), FDec("1e-300")))
         off == IF ~okp \/ ~okd \/ zp THEN {}
                ELSE RowsOKr(Rows(cs, w, L, eps, obs), noise, noise, FMax(FDec("1e-8"), dualErr)) \ (IF zd THEN {"terminal stationarity", "state stationarity", "input stationarity", "complementarity"} ELSE {})
         boundary(a, b) == \E k \in 1..cs.N : \E j \in 1..Len(a[k]) : FLe(b[k][j], FMul(FDec("0.005001"), a[k][j]))
         along(dl, a, v) == FLe(VNorm(VSub(dl, VScale(a, v))), FAdd(FMul(FDec("1e-5"), FMul(a, VNorm(v))), FMul(FInt(100), rp)))
         short(dl, v) == FLe(VNorm(dl), FAdd(FMul(FDec("1.001"), VNorm(v)), FMul(FInt(1000), rp)))
     IN basic
        \cup Cl("C12", "primal step length in (0, 1]", okp)
        \cup Cl("C12", "dual step length in (0, 1]", okd)
        \cup Cl("C12", "one common primal step length", IF zp THEN short(Primal(delta), dp) ELSE okp => along(Primal(delta), ap, dp))
        \cup Cl("C12", "one common dual step length", IF zd THEN short(Dual(delta), dd) ELSE okd => along(Dual(delta), ad, dd))
        \cup Cl("C13", "step along the Newton direction", okp /\ okd)
        \cup {x \in {<<"C13", "direction violates: " \o n>> : n \in off} : "C13" \in Props}
        \cup (IF ~okp \/ ~okd THEN {} ELSE
          Cl("C12", "largest admissible dual step", zd \/ near(ad, F1) \/ boundary(w.nu, w2.nu))
          \cup Cl("C12", "dual step length", zd \/ near(ad, mn))
          \cup (IF cs.cf.ls
                THEN IF zp /\ ~lost THEN {}
                     ELSE JudgeSearch(cs, w, L, eps, d, ms, ap, lost, FDiv(FMul(FDec("1e-11"), wm), FAdd(VNorm(dp), FDec("1e-300"))))
                     \cup Cl("C17", "dual step unaffected by the search", zd \/ near(ad, mn))
                ELSE Cl("C12", "largest admissible primal step", zp \/ near(ap, F1) \/ boundary(w.s, w2.s))
                     \cup Cl("C12", "primal step length", zp \/ near(ap, ms))
                     \cup Cl("C17", "no search when off", zp \/ near(ap, ms)))
          \cup Cl("C13", "optimum of unconstrained linear-quadratic problems in one step",
                  cs.lq /\ near(ap, F1) /\ near(ad, F1) /\ SumLen(w.s) = 0 =>
                    FLe(KktError(cs, w2, Lin(cs, w2)), FMul(FDec("1e-8"), FAdd(F1, Size(cs, w2, Lin(cs, w2)))))))
        \cup (IF Seen("move" \o (IF near(ap, F1) THEN " full" ELSE " cut") \o (IF cs.cf.ls THEN " ls" ELSE "") \o
                      (IF SumLen(w.s) = 0 THEN " free" ELSE "")) THEN {} ELSE {})

----------------------------------------------------------------------------
(* C26: the exposed coefficients. *)
\* the iteration started from w
JudgeCo(cs, w, L, co, p, r) ==
  LET near(a, b, sz) == VClose(a, b, FAdd(F1, sz), FDec("1e-9"))
      sz == Size(cs, w, L)
      St(k) == LET e == co[k] D == L.st[k].D
               IN (IF /\ near(e.Fx.d, D.Fx.d, MMax(D.Fx)) /\ near(e.Fu.d, D.Fu.d, MMax(D.Fu)) /\ near(e.Gx.d, D.Gx.d, MMax(D.Gx))
                      /\ near(e.Gu.d, D.Gu.d, MMax(D.Gu)) /\ near(e.Lx, D.Lx, VMaxAbs(D.Lx)) /\ near(e.Lu, D.Lu, VMaxAbs(D.Lu))
                      /\ near(e.Lxx.d, D.Lxx.d, MMax(D.Lxx)) /\ near(e.Luu.d, D.Luu.d, MMax(D.Luu)) /\ near(e.Lxu.d, D.Lxu.d, MMax(D.Lxu))
                   THEN {} ELSE {"derivatives"})
                  \cup (IF near(e.xb, L.st[k].xb, sz) /\ near(e.gb, L.st[k].gb, sz) /\ near(e.lxb, L.st[k].lxb, sz) /\ near(e.lub, L.st[k].lub, sz)
                        THEN {} ELSE {"offsets"})
      T == co[cs.N + 1]
      deriv == (IF near(T.Lx, L.T.Lx, VMaxAbs(L.T.Lx)) /\ near(T.Lxx.d, L.T.Lxx.d, MMax(L.T.Lxx)) /\ near(T.lxb, L.tb, sz)
                THEN {} ELSE {"terminal derivatives"}) \cup UNION {St(k) : k \in 1..cs.N}
      eps == Barrier(cs, w, cs.cf.upd)
      \* steps are judged from the observed offsets (judged above), P and s of the next step; only where the gains are well defined
      Lo == [L EXCEPT !.st = Force([k \in 1..cs.N |-> [L.st[k] EXCEPT !.xb = co[k].xb, !.gb = co[k].gb, !.lxb = co[k].lxb, !.lub = co[k].lub]])]
      Gn(k) == LET R == GainRows(cs, w, Lo, eps, k, co[k], co[k + 1])
                   fin == \A x \in R.rows : FIsFinite(x[3]) /\ FLe(x[3], FDec("1e200"))
                   C == Chol(R.G)
               IN IF ~fin \/ (R.G.r > 0 /\ ~C.ok) THEN IF Seen("gains unclear") THEN {} ELSE {}
                  ELSE {x[1] : x \in {y \in R.rows : ~FLe(y[2], FMul(FDec("1e-8"), FAdd(y[3], FDec("1e-290"))))}}
                       \cup (IF Seen("gains judged") THEN {} ELSE {})
      gains == (IF near(T.P.d, L.T.Lxx.d, MMax(L.T.Lxx)) /\ near(T.s, VScale(FInt(-1), L.tb), sz) THEN {} ELSE {"terminal law"})
               \cup UNION {Gn(k) : k \in 1..cs.N}
  IN IF ~CoShape(cs, co) THEN {<<"C26", "dimensions">>}
     ELSE IF ~LinFinite(cs, L) \/ ~Positive(FlatL(w.s)) THEN {}
     ELSE {<<"C26", n>> : n \in deriv}
          \cup (IF r.ret \in {2, 4, 5} THEN {<<"C26", n>> : n \in gains}
                ELSE IF r.ret = 1 /\ Len(r.rows) > 1 THEN Cl("C26", "gains of the last step kept", Gains(cs, co) = Gains(cs, p.co))
                ELSE IF r.ret = 1 /\ ~cs.reused THEN Cl("C26", "no gains before the first step", NoGains(cs, co))
                ELSE {})

JudgeIter(cs, p, r) ==
  LET w == p.v
      n == Len(p.rows) + 1
      L == Lin(cs, w)
      kkt == KktError(cs, w, L)
      sz == Size(cs, w, L)
      tolk == FAdd(FMul(FDec("1e-9"), kkt), FMul(FDec("1e-12"), sz))
      fin == LinFinite(cs, L) /\ FIsFinite(kkt)
      rec == r.rows[n].kkt
      eps == Barrier(cs, w, cs.cf.upd)
      pos == Positive(FlatL(w.s)) /\ \A j \in 1..Len(FlatL(w.nu)) : FLe(F0, FlatL(w.nu)[j])
      D == Direction(cs, w, L, eps)
      easy == fin /\ pos /\ (IF D.ok THEN VFinite(AllOf(D.d)) /\ FLe(VMaxAbs(AllOf(D.d)), FDec("1e6"))
                                         /\ RowsOK(Rows(cs, w, L, eps, D.d), F0, F0) = {} ELSE FALSE)
      small(v) == \E j \in 1..Len(v) : FLe(v[j], FDec("1e-280"))
      \* the gains do not depend on the given state: with the state of w in its place everything would go well
      L0 == [L EXCEPT !.x0b = [j \in 1..cs.P.nx |-> F0]]
      D0 == Direction(cs, w, L0, eps)
      easy0 == LinFinite(cs, L0) /\ pos /\ (IF D0.ok THEN VFinite(AllOf(D0.d)) /\ FLe(VMaxAbs(AllOf(D0.d)), FDec("1e6"))
                                           /\ RowsOK(Rows(cs, w, L0, eps, D0.d), F0, F0) = {} ELSE FALSE)
      rowsok == Len(r.rows) = n /\ SubSeq(r.rows, 1, n - 1) = p.rows
  IN Cl("C15", "well-formed call accepted", r.exc = "")
     \cup (IF r.exc # "" THEN {} ELSE
     Cl("C14", "one row per started iteration, a larger budget only extends", rowsok)
     \cup Cl("C14", "rows numbered consecutively", \A k \in 1..Len(r.rows) : r.rows[k].it = k)
     \cup Cl("C14", "known status", r.ret \in 1..5)
     \cup Cl("C14", "shape", Shape(cs, r.v))
     \cup (IF ~rowsok \/ ~Shape(cs, r.v) \/ r.ret \notin 1..5 THEN {} ELSE
       Cl("C11", "recorded optimality error", IF fin THEN FLe(FAbs(FSub(rec, kkt)), tolk) ELSE ~FIsFinite(rec) \/ ~FIsFinite(kkt) \/ FLe(FAbs(FSub(rec, kkt)), tolk))
       \cup Cl("C11", "success means optimality error below the threshold",
               r.ret = 1 => fin /\ FLe(kkt, FAdd(cs.cf.thre, tolk)))
       \cup Cl("C11", "success returns the tested variables", r.ret = 1 => r.v = w)
       \cup Cl("C11", "slacks not negative", r.ret = 1 => \A j \in 1..Len(FlatL(w.s)) : ~FLt(FlatL(w.s)[j], F0))
       \cup Cl("C14", "non-finite data is no success", r.ret = 1 => fin /\ VFinite(AllOf(r.v)))
       \cup Cl("C14", "success only from the optimality test", r.ret = 1 => FLe(rec, cs.cf.thre))
       \cup Cl("C14", "optimality test ends the solve", r.ret # 1 => ~FLe(rec, cs.cf.thre))
       \cup Cl("C14", "failed iteration changes nothing", r.ret \in 2..4 => r.v = w)
       \cup Cl("C14", "non-finite coefficients are reported (checking on)", cs.cf.nan /\ ~LinFinite(cs, [L EXCEPT !.x0b = <<>>]) => r.ret = 3)
       \cup Cl("C14", "non-finite direction is reported (checking on)", cs.cf.nan /\ ~VFinite(L.x0b) => r.ret \in {2, 3})
       \cup Cl("C14", "a non-finite initial deviation fails in the forward pass (checking on)",
               cs.cf.nan /\ ~VFinite(L.x0b) /\ easy0 => r.ret = 2)
       \cup Cl("C14", "no step without an admissible dual step length",
               r.ret = 5 /\ VFinite(AllOf(w)) /\ pos /\ VFinite(Primal(r.v)) => \A j \in 1..Len(FlatL(r.v.nu)) : ~FIsNaN(FlatL(r.v.nu)[j]))
       \cup Cl("C14", "no error without a cause", easy /\ ~(D.unf /\ cs.cf.brk) /\ ~small(FlatL(w.s) \o FlatL(w.nu)) => r.ret \in {1, 5})
       \cup Cl("C14", "an input Hessian without factorisation is reported if asked for",
               easy /\ D.unf /\ cs.cf.brk => r.ret \in {1, 3})
       \cup (IF D.unf /\ Seen("no factorisation, status " \o ToString(r.ret)) THEN {} ELSE {})
       \cup Cl("C14", "no admissible step length", r.ret = 4 => ~easy \/ small(FlatL(w.s) \o FlatL(w.nu)))
       \cup Cl("C14", "checking off: no stage reports non-finite values",
               ~cs.cf.nan => r.ret \notin {2} /\ (r.ret = 3 => cs.cf.brk))
       \cup (IF Seen("status " \o ToString(r.ret) \o (IF fin THEN "" ELSE " nonfinite") \o (IF cs.cf.nan THEN "" ELSE " nan-off")) THEN {} ELSE {})
       \cup (IF HasCo(r) THEN JudgeCo(cs, w, L, r.co, p, r) ELSE {})
       \cup (IF r.ret = 5 /\ fin THEN JudgeMove(cs, w, r.v, L) ELSE {})))

JudgeAfter(cs, p, r) ==
  Cl("C14", "a larger budget does not change a finished run", r.ret = p.ret /\ r.rows = p.rows /\ r.v = p.v)
  \cup (IF HasCo(r) THEN Cl("C26", "a larger budget does not change a finished run",
                             (~cs.reused \/ p.ret \in {2, 4} \/ (p.ret = 1 /\ Len(p.rows) > 1)) => r.co = p.co) ELSE {})

Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ LET cs == Cases[c] r == cs.runs[q + 1]
     IN bad' = IF q = 0 THEN JudgeStart(cs, r)
               ELSE LET p == cs.runs[q]
                    IN IF p.exc # "" \/ ~Shape(cs, p.v) THEN {}
                       ELSE IF q > 1 /\ Stopped(p) THEN JudgeAfter(cs, p, r)
                       ELSE JudgeIter(cs, p, r)
Spec == Init /\ [][Next]_vars
=============================================================================
