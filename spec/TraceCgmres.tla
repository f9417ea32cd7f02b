---------------------------- MODULE TraceCgmres ----------------------------
(* Conformance of the C/GMRES solver: a history of operations on one solver.
   C20: residual evaluation; C21: control update; C22: setup and run.
   The operation q of a case is judged against the solver state recorded after
   operation q - 1 (pos: index of the last record that holds a state). *)
EXTENDS TraceCommon, Cgmres

VARIABLES cf, pos, ini       \* configuration, last state, initial values in force

RECURSIVE Ortho1(_, _, _)
Ortho1(v, B, k) == IF k = 0 THEN v
                   ELSE LET w == Ortho1(v, B, k - 1) IN VSub(w, VScale(VDot(w, B[k]), B[k]))
Ortho(v, B) == Ortho1(Ortho1(v, B, Len(B)), B, Len(B))

ColsOK(l, n, m) == Len(l) = n /\ \A i \in 1..n : Len(l[i]) = m /\ VFinite(l[i])
Span(l) == VMaxAbs(Flat(l))
Scale(R) == FAdd(FAdd(FAdd(Span(R.X), Span(R.L)), FMul(FInt(10), Span(R.D))), F1)
Usable(R) == VFinite(Flat(R.X)) /\ VFinite(Flat(R.L)) /\ VFinite(Flat(R.D)) /\ FLe(Scale(R), FDec("1e6"))
Tol == FDec("1e-9")

JudgeDhDu(P, o, r, old) ==
  LET R == Residual(P, cf, o.t, o.x, o.ul)
  IN IF ~Usable(R) THEN {} ELSE
     Cl("C20", "finite residual list of the horizon", ColsOK(r.R, cf.N, P.nu))
     \cup (IF ~ColsOK(r.R, cf.N, P.nu) THEN {} ELSE
       Cl("C20", "residual list", VClose(Flat(r.R), Flat(R.D), Scale(R), Tol))
       \cup Cl("C20", "arguments kept", r.arg = o.ul /\ r.ax = o.x)
       \cup Cl("C20", "stored inputs kept", r.ul = old.ul /\ r.d = old.d /\ r.u = old.u /\ r.x = old.x)
       \cup (IF Seen("dhdu") THEN {} ELSE {}))

(* Krylov basis and images of one update: [V, W, clear] where W[j] = A V[j];
   clear: no direction is dominated by rounding. *)
RECURSIVE Basis(_, _, _, _, _, _)
Basis(P, e, ul, r0, k, noise) ==
  IF k = 0 THEN [V |-> <<>>, W |-> <<>>, clear |-> TRUE, done |-> FALSE]
  ELSE LET B == Basis(P, e, ul, r0, k - 1, noise)
       IN IF B.done \/ ~B.clear THEN B
          ELSE LET w == IF k = 1 THEN r0 ELSE Ortho(B.W[k - 1], B.V)
                   n == VNorm(w)
               IN IF FLe(n, FMul(FDec("1e4"), noise)) \/ (k > 1 /\ FLe(n, FMul(FDec("1e-5"), VNorm(B.W[k - 1]))))
                  THEN [B EXCEPT !.clear = FALSE, !.done = TRUE]
                  ELSE LET v == Force(VScale(FDiv(F1, n), w))
                       IN [V |-> Append(B.V, v), W |-> Append(B.W, Force(AMul(P, cf, e, ul, v))), clear |-> TRUE, done |-> FALSE]
RECURSIVE QBasis(_, _)
QBasis(W, k) ==
  IF k = 0 THEN <<>>
  ELSE LET Q == QBasis(W, k - 1)
           v == Ortho(W[k], Q)
       IN IF FLe(VNorm(v), FMul(FDec("1e-12"), VNorm(W[k]))) THEN Q ELSE Append(Q, Force(VScale(FDiv(F1, VNorm(v)), v)))
RECURSIVE Comb(_, _, _)
Comb(W, y, k) == IF k = 0 THEN VScale(F0, W[1]) ELSE VAdd(Comb(W, y, k - 1), VScale(y[k], W[k]))

\* the update from state old (u list, previous rate) at time t, x -> y
JudgeUpdate(P, t, x, y, r, old) ==
  LET e == Equation(P, cf, t, x, y, old.ul)
      n == P.nu * cf.N
      good == ColsOK(r.ul, cf.N, P.nu) /\ ColsOK(r.D, cf.N, P.nu) /\ Len(r.d) = n /\ VFinite(r.d)
      sc == Scale(e.R0)
      \* rounding of a difference quotient of residuals
      noise == FAdd(FDiv(FMul(FDec("1e-15"), FMul(sc, FInt(n))), cf.delta), FDec("1e-280"))
      kmx == IF cf.kmax > n THEN n ELSE cf.kmax
      r0 == VSub(e.b, AMul(P, cf, e, old.ul, old.d))
      B == Basis(P, e, old.ul, r0, kmx, noise)
      step == VSub(r.d, old.d)
      Y == [j \in 1..Len(B.V) |-> VDot(B.V[j], step)]
      Q == QBasis(B.W, Len(B.W))
      best == VNorm(Ortho(r0, Q))
      tol == FAdd(FMul(FDec("1e-7"), FAdd(VNorm(r0), FMul(FDec("1e-2"), VNorm(e.b)))),
                  FMul(FDec("1e3"), FMul(noise, FAdd(F1, FAdd(VNorm(r.d), VNorm(old.d))))))
      off == VNorm(Ortho(step, B.V))
      lin == IF Len(B.V) = 0 THEN VNorm(r0) ELSE VNorm(VSub(r0, Comb(B.W, Y, Len(B.W))))
      full == VNorm(VSub(e.b, AMul(P, cf, e, old.ul, r.d)))
      ul2 == Move(P, old.ul, cf.dt, r.d)
      usum == FAdd(F1, FAdd(Span(old.ul), FMul(cf.dt, VMaxAbs(r.d))))
      kind == IF ~B.clear THEN "exhausted" ELSE IF kmx = n THEN "full budget" ELSE "short budget"
  IN IF ~Usable(e.R0) \/ ~VFinite(e.b) \/ ~VFinite(r0) THEN {} ELSE
     Cl("C21", "finite update", good)
     \cup (IF ~good THEN {} ELSE
       Cl("C21", "sequence changes by dt times the rate", VClose(Flat(r.ul), Flat(ul2), usum, FDec("1e-12")))
       \cup Cl("C21", "returned control is the first input", r.ret = r.ul[1])
       \cup Cl("C21", "stored residual is that of the state before", VClose(Flat(r.D), e.D0, sc, Tol))
       \cup Cl("C21", "step within the Krylov space of the budget", B.clear => FLe(off, FAdd(FMul(FDec("1e-5"), VNorm(step)), FMul(FDec("1e-9"), VNorm(old.d)))))
       \cup Cl("C21", "smallest error of the budget", B.clear => FLe(lin, FAdd(best, tol)))
       \cup Cl("C21", "smallest error of the budget (affine)", P.affine => FLe(full, FAdd(best, tol)))
       \cup Cl("C21", "exact with full budget", P.affine /\ B.clear /\ kmx = n /\ Len(Q) = n /\ FLe(best, tol) => FLe(full, FMul(F2, tol)))
       \cup (IF Seen("update " \o kind \o (IF P.affine THEN " affine" ELSE "")) THEN {} ELSE {}))

JudgeSetup(P, r) ==
  LET lmd == DphiDx(P, F0, ini.x)
      good == ColsOK(r.ul, cf.N, P.nu) /\ ColsOK(r.D, cf.N, P.nu) /\ Len(r.u) = P.nu
      g == DhDu(P, F0, ini.x, r.u, lmd)
  IN Cl("C22", "setup: shapes", good)
     \cup (IF ~good THEN {} ELSE
       Cl("C22", "setup: state", r.x = ini.x)
       \cup Cl("C22", "setup: gradient vanishes", P.convex => FLe(VNorm(g), FDec("1.001e-6")))
       \cup Cl("C22", "setup: one input everywhere", \A i \in 1..cf.N : r.ul[i] = r.u)
       \cup Cl("C22", "setup: rate reset", Len(r.d) = P.nu * cf.N /\ \A i \in 1..Len(r.d) : FEq(r.d[i], F0))
       \cup Cl("C22", "setup: residual of the input", \A i \in 1..cf.N : P.convex => VClose(r.D[i], g, FAdd(F1, FMul(FInt(100), VMaxAbs(g))), Tol))
       \cup (IF Seen("setup") THEN {} ELSE {}))

(* A run with n periods against the same procedure executed step by step:
   record base is the setup, base + k the state after the k-th period. *)
JudgeRun(P, o, r, runs) ==
  LET n == FRound(FSub(FDiv(cf.sim, cf.dt), FDec("0.25"))) + 1      \* the duration is an exact multiple of the period or half a period off
      St(k) == runs[o.base + k]
      rows == ((n - 1) \div cf.dump) + 1
      Row(l, k, v) == Len(l[k + 1]) = Len(v) + 1
                      /\ Close(l[k + 1][1], FMul(cf.dt, FInt(k * cf.dump)), FAdd(FDec("1e-3"), cf.sim), FDec("1e-5"))
                      /\ \A i \in 1..Len(v) : Close(l[k + 1][i + 1], v[i], FAdd(FAbs(v[i]), FDec("1e-6")), FDec("2e-5"))
      end == St(n)
      same(a, b) == VClose(a, b, FAdd(F1, VMaxAbs(b)), FDec("1e-8"))
  IN IF \E k \in 1..n : ~VFinite(St(k).x \o St(k).u \o Flat(St(k).D)) THEN {} ELSE
     Cl("C22", "run: number of log rows", Len(r.lx) = rows /\ Len(r.lu) = rows /\ Len(r.le) = rows)
     \cup (IF ~(Len(r.lx) = rows /\ Len(r.lu) = rows /\ Len(r.le) = rows) THEN {} ELSE
       Cl("C22", "run: logged states", \A k \in 0..(rows - 1) : Row(r.lx, k, St(k * cf.dump + 1).x))
       \cup Cl("C22", "run: logged controls", \A k \in 0..(rows - 1) : Row(r.lu, k, St(k * cf.dump + 1).u))
       \cup Cl("C22", "run: logged residual norms", \A k \in 0..(rows - 1) : Row(r.le, k, <<VNorm(Flat(St(k * cf.dump + 1).D))>>)))
     \cup Cl("C22", "run: logging interval", Close(r.ldt, FMul(cf.dt, FInt(cf.dump)), r.ldt, FDec("2e-5")))
     \cup Cl("C22", "run: final state", same(r.x, end.x) /\ same(r.u, end.u) /\ same(Flat(r.ul), Flat(end.ul)))
     \cup (IF Seen("run") THEN {} ELSE {})

JudgeStep(P, o, r, old) ==
  LET F(t, x) == StateEq(P, t, x, old.u)
      y == OdeStep(P.sim, F, o.t, old.x, cf.dt)
  IN IF ~VFinite(y) THEN {} ELSE
     Cl("C22", "simulated state", VClose(r.x, y, FAdd(FAdd(VMaxAbs(y), VMaxAbs(old.x)), F1), FDec("1e-11")))
     \cup JudgeUpdate(P, o.t, old.x, r.x, [r EXCEPT !.ret = r.u], old)

CInit == Init /\ cf = [N |-> 0] /\ pos = 0 /\ ini = [x |-> Cases[c].P.x0, u |-> Cases[c].P.u0]
CNext ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ LET P == Cases[c].P
         o == Cases[c].ops[q + 1]
         r == Cases[c].runs[q + 1]
         old == Cases[c].runs[pos]
     IN CASE o.op = "cfg"   -> cf' = o.cf /\ bad' = {} /\ UNCHANGED <<pos, ini>>
          [] o.op = "init"  -> ini' = [x |-> o.x, u |-> o.u] /\ bad' = {} /\ UNCHANGED <<pos, cf>>
          [] o.op = "other" -> bad' = {} /\ UNCHANGED <<pos, cf, ini>>         \* solvers do not affect each other
          [] o.op = "setup" -> bad' = JudgeSetup(P, r) /\ pos' = q + 1 /\ UNCHANGED <<cf, ini>>
          [] o.op = "dhdu"  -> bad' = JudgeDhDu(P, o, r, old) /\ pos' = q + 1 /\ UNCHANGED <<cf, ini>>
          [] o.op = "ctl"   -> bad' = JudgeUpdate(P, o.t, o.x, o.y, r, old) /\ pos' = q + 1 /\ UNCHANGED <<cf, ini>>
          [] o.op = "step"  -> bad' = JudgeStep(P, o, r, old) /\ pos' = q + 1 /\ UNCHANGED <<cf, ini>>
          [] o.op = "run"   -> bad' = JudgeRun(P, o, r, Cases[c].runs) /\ pos' = q + 1 /\ UNCHANGED <<cf, ini>>
Spec == CInit /\ [][CNext]_<<vars, cf, pos, ini>>
=============================================================================
