------------------------------ MODULE TraceOde ------------------------------
(* Conformance of the integrators (C19) and of the L1 directional derivative (C23). *)
EXTENDS TraceCommon, Ode

JudgeOde(p, r) ==
  LET F(t, x) == Force([i \in 1..Len(p.f) |-> PVal(p.f[i], <<t>> \o x \o p.u)])
      y == OdeStep(p.kind, F, p.t, p.x, p.dt)
      sc == FAdd(FAdd(VMaxAbs(y), VMaxAbs(p.x)), FMul(FAbs(p.dt), VMaxAbs(F(p.t, p.x))))
      \* what the equation integrates itself, from half the state, with half the step, one time unit later
      h == FDec("0.5") k2 == IF p.nest = 3 THEN 1 - p.kind ELSE p.kind
      x2 == VScale(h, p.x) t2 == FAdd(p.t, F1) dt2 == FMul(h, p.dt)
      y2 == IF p.nest = 0 THEN p.x ELSE OdeStep(k2, F, t2, x2, dt2)
      sc2 == FAdd(FAdd(VMaxAbs(y2), VMaxAbs(x2)), FMul(FAbs(dt2), VMaxAbs(F(t2, x2))))
  IN Cl("C19", "dimension", Len(r.ret) = Len(p.x))
     \cup (IF Len(r.ret) # Len(p.x) THEN {} ELSE
       Cl("C19", IF p.kind = 0 THEN "Euler step" ELSE "Runge-Kutta step", VClose(r.ret, y, FAdd(sc, FDec("1e-300")), FDec("1e-11")))
       \cup Cl("C19", "integration within the equation", \A j \in 1..Len(r.inner) : VClose(r.inner[j], y2, FAdd(sc2, FDec("1e-300")), FDec("1e-11")))
       \cup Cl("C19", "state argument", ~p.alias => r.x = p.x)
       \cup Cl("C19", "input argument", r.u = p.u)
       \cup (IF Seen("ode " \o (IF p.kind = 0 THEN "euler" ELSE "rk") \o (IF p.alias THEN " in place" ELSE "") \o (IF p.nest > 0 THEN " nested" ELSE "")) THEN {} ELSE {}))

\* one-sided derivative of |f + s J d|_1 at s = 0+, component by component
L1Deriv(f, J, d) ==
  LET v == MVec(J, d)
  IN VSum([i \in 1..Len(f) |-> IF FLt(F0, f[i]) THEN v[i] ELSE IF FLt(f[i], F0) THEN FNeg(v[i]) ELSE FAbs(v[i])])
JudgeL1(p, r) ==
  LET y == L1Deriv(p.f, p.J, p.d)
      sc == FAdd(FDec("1e-300"), FMul(FInt(10), FMul(VMaxAbs(p.J.d), VMaxAbs(p.d))))
      \* the definition itself: difference quotient with a step too small to change any sign
      s == FDec("1e-6")
      f2 == VAdd(p.f, VScale(s, MVec(p.J, p.d)))
      quot == FDiv(FSub(VNorm1(f2), VNorm1(p.f)), s)
  IN Cl("C23", "directional derivative", Close(r.r, y, sc, FDec("1e-12")))
     \cup Cl("C23", "difference quotient", p.quot => Close(r.r, quot, FAdd(sc, F1), FDec("1e-7")))
     \cup (IF Seen("l1 " \o p.pattern) THEN {} ELSE {})

Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ LET p == Cases[c].in[q + 1] r == Cases[c].runs[q + 1]
     IN bad' = IF Cases[c].tag = "l1" THEN JudgeL1(p, r) ELSE JudgeOde(p, r)
Spec == Init /\ [][Next]_vars
=============================================================================
