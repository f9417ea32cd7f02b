----------------------------- MODULE TraceBoxQP -----------------------------
(* Conformance of the box QP solver with the declarative meaning in BoxMin (C10).
   A case is a sequence of solves, possibly on one solver object:
   in[q] = [H, g, lo, hi, x0, maxIter, print], runs[q] the observed result. *)
EXTENDS TraceCommon, BoxMin

FullIdx(n) == [i \in 1..n |-> i]
Obj(p, x) == QObj(p.H, p.g, x)
\* magnitude of the terms of the objective at x: its rounding error is relative to this
ObjScale(p, x) ==
  LET n == Len(x)
      lin == VSum([i \in 1..n |-> FAbs(FMul(p.g[i], x[i]))])
      quad == VSum([k \in 1..(n * n) |-> FAbs(FMul(p.H.d[k], FMul(x[((k - 1) \div n) + 1], x[((k - 1) % n) + 1])))])
  IN FAdd(lin, quad)

\* free variables at x: all but those at a bound with the gradient pushing outward; amb: sign of the gradient
\* within rounding of zero at a bound
GradScale(p, x) == FAdd(VMaxAbs(p.g), FMul(VMaxAbs(p.H.d), VMaxAbs(x)))
Free(p, x) ==
  LET gr == QGrad(p.H, p.g, x)
      Held(i) == \/ FEq(x[i], p.lo[i]) /\ FLt(F0, gr[i])
                 \/ FEq(x[i], p.hi[i]) /\ FLt(gr[i], F0)
  IN SelectSeq(FullIdx(Len(x)), LAMBDA i : ~Held(i))
Amb(p, x) ==
  LET gr == QGrad(p.H, p.g, x)
  IN \E i \in 1..Len(x) : /\ FEq(x[i], p.lo[i]) \/ FEq(x[i], p.hi[i])
                          /\ FLe(FAbs(gr[i]), FMul(FDec("1e-9"), GradScale(p, x)))
FreeBlockBad(p, x) == LET F == Free(p, x) IN F # <<>> /\ NotPDClear(MSub_(p.H, F, F))
FreeBlockGood(p, x) == LET F == Free(p, x) IN F = <<>> \/ PDClear(MSub_(p.H, F, F))

MColsClose(cols, M, tol) ==
  /\ Len(cols) = M.c
  /\ \A j \in 1..M.c : /\ Len(cols[j]) = M.r
                       /\ \A i \in 1..M.r : Close(cols[j][i], MAt(M, i, j), VMaxAbs(M.d), tol)

Judge(p, r) ==
  LET n == Len(p.g)
      pd == PDClear(p.H)
      start == VClamp(p.x0, p.lo, p.hi)
      done == SubSeq(r.rows, 1, Len(r.rows) - (IF r.ret = 1 THEN 0 ELSE 1))   \* iterations that were completed
      sane == Len(r.x) = n /\ VFinite(r.x)
      objTol == FAdd(FMul(FDec("1e-12"), FAdd(ObjScale(p, start), IF sane THEN ObjScale(p, r.x) ELSE F0)), FDec("1e-300"))
      low == VMaxAbs(p.lo) hig == VMaxAbs(p.hi)
      m == IF pd THEN BoxMin(p.H, p.g, p.lo, p.hi) ELSE [x |-> p.x0, a |-> <<>>, deg |-> TRUE]
      tol == FAdd(FMul(FDec("1e-7"), FAbs(Obj(p, m.x))), objTol)
      \* what the solver's stopping tests (gradient 1e-8, relative improvement 1e-8) leave open
      unit(i) == [j \in 1..n |-> IF j = i THEN F1 ELSE F0]
      trInv == IF pd THEN VSum([i \in 1..n |-> CholSolve(Chol(p.H).L, unit(i))[i]]) ELSE F0
      tr == VSum([i \in 1..n |-> MAt(p.H, i, i)])
      gradTol == FMul(FDec("1e-15"), FMul(FInt(n), trInv))
      gap == FMul(FDec("1e-7"), FAdd(FAbs(Obj(p, m.x)), ObjScale(p, start)))
      clear == \A i \in 1..n :
                 IF m.a[i] # 0 THEN FLt(FAdd(FDec("1e-7"), FSqrt(FMul(gap, tr))), FAbs(QGrad(p.H, p.g, m.x)[i]))
                 ELSE FLt(FAdd(FMul(FDec("1e-7"), trInv), FSqrt(FMul(gap, trInv))),
                          FMin(FSub(m.x[i], p.lo[i]), FSub(p.hi[i], m.x[i])))
      F == Free(p, r.x)
      kind == IF r.ret < 0 THEN "failed" ELSE IF r.ret = 1 THEN "budget" ELSE IF r.ret = 6 THEN "all held"
              ELSE IF Len(r.free) = n THEN "interior" ELSE "mixed"
  IN Cl("C10", "point of the right dimension", sane)
     \cup (IF ~sane THEN {} ELSE
       Cl("C10", "inside the box", InBox(r.x, p.lo, p.hi))
       \cup Cl("C10", "result code", pd => r.ret >= 0)
       \cup Cl("C10", "minimum", (pd /\ r.ret # 1) => FLe(Obj(p, r.x), FAdd(Obj(p, m.x), FAdd(tol, gradTol))))
       \cup Cl("C10", "no worse than the initial guess", r.ret >= 0 => FLe(Obj(p, r.x), FAdd(Obj(p, start), objTol)))
       \cup Cl("C10", "free variables", (pd /\ r.ret # 1 /\ ~m.deg /\ clear) => r.free = Idx(m.a, n, 0))
       \cup Cl("C10", "free variables of the returned point", (r.ret \notin {1, -2} /\ ~Amb(p, r.x)) => r.free = F)
       \cup Cl("C10", "factorisation of the free block",
               (r.ret \in {2, 4, 5} /\ r.free # <<>>) => MColsClose(r.LL, MSub_(p.H, r.free, r.free), FDec("1e-9")))
       \cup Cl("C10", "failure code without reason", r.ret = -1 => Amb(p, r.x) \/ ~FreeBlockGood(p, r.x))
       \cup Cl("C10", "indefinite free block not reported",
               r.ret # -1 => \A k \in 2..Len(done) : Amb(p, done[k].x) \/ ~FreeBlockBad(p, done[k].x))
       \cup Cl("C10", "indefinite free block of the initial guess not reported",
               (~Amb(p, start) /\ FreeBlockBad(p, start)) => r.ret = -1)
       \cup Cl("C10", "iteration budget", Len(r.rows) <= p.maxIter + 1 /\ (r.ret = 1 => Len(r.rows) = p.maxIter + 1))
       \cup Cl("C10", "numbering of iterations", \A k \in 1..Len(r.rows) : r.rows[k].it = k - 1)
       \cup Cl("C10", "starts at the limited initial guess", r.rows[1].x = start)
       \cup Cl("C10", "recorded objective",
               \A k \in 1..Len(done) : Close(done[k].obj, Obj(p, done[k].x), FAdd(ObjScale(p, done[k].x), FDec("1e-300")), FDec("1e-12")))
       \cup Cl("C10", "objective never increases",
               \A k \in 2..Len(done) : FLe(done[k].obj, FAdd(done[k - 1].obj, objTol)))
       \cup (IF Seen("box " \o kind) THEN {} ELSE {}))

Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ bad' = Judge(Cases[c].in[q + 1], Cases[c].runs[q + 1])
Spec == Init /\ [][Next]_vars
=============================================================================
