---------------------------- MODULE TraceSession ----------------------------
(* Conformance of sessions with reused solver objects (C08, C09, C15, C16, C24,
   C25).  A case records the calls <<object, kind>> of one history; kinds[k]
   says what a call of kind k is:
     exp     exceptions one of which must be thrown ("" = returns normally)
     det     its result is determined by its arguments
     cls     kinds of one class differ in the print level only
     print   print level
   The specification remembers in mem the first result of every kind; every
   later result of that kind must be the same, whatever happened in between.
   thrown holds the objects on which a call has thrown. *)
EXTENDS TraceCommon
VARIABLES mem, thrown
svars == <<c, q, bad, mem, thrown>>

\* pids of the solver's properties: [fun |-> .., rej |-> ..]
Fun(cs) == IF cs.solver = "ddp" THEN "C09" ELSE IF cs.solver = "fmpc" THEN "C16" ELSE "C10"
Rej(cs) == IF cs.solver = "ddp" THEN "C08" ELSE IF cs.solver = "fmpc" THEN "C15" ELSE "C10"

Volatile == {"out", "tk", "rd", "dur", "dump", "exc"}
Core(r) == IF "LL" \in DOMAIN r THEN <<r.x, r.ret>>      \* box QP
           ELSE [f \in DOMAIN r \ Volatile |-> r[f]]
Exc(r) == IF "exc" \in DOMAIN r THEN r.exc ELSE ""
Range(s) == {s[i] : i \in 1..Len(s)}

----------------------------------------------------------------------------
(* C24 *)
DDPColumns == <<"iter", "cost", "lambda", "dlambda", "alpha", "k_rel_norm", "cost_update_actual", "cost_update_expected",
                "cost_update_ratio", "duration_derivative", "duration_backward", "duration_forward">>
FmpcColumns == <<"iter", "kkt_error", "duration_coeff", "duration_backward", "duration_forward", "duration_update">>
Entry(solver, r, i) ==
  IF solver = "ddp"
  THEN LET w == r.rows[i] d == r.rd[i]
       IN <<FInt(w.it), w.cost, w.lam, w.dlam, w.al, w.kr, w.ca, w.ce, w.cr, d[1], d[2], d[3]>>
  ELSE LET w == r.rows[i] d == r.rd[i] IN <<FInt(w.it), w.kkt, d[1], d[2], d[3], d[4]>>
\* the number in the file has at least five significant digits
SameNum(a, b) == a = b \/ (FIsNaN(a) /\ FIsNaN(b)) \/ FEq(a, b) \/ FLe(FAbs(FSub(a, b)), FMul(FDec("1.1e-5"), FAbs(b)))
\* or the column order may be another one, as long as the header says so
Pos(cols, name) == CHOOSE i \in 1..Len(cols) : cols[i] = name
Dump(cs, r) ==
  LET cols == IF cs.solver = "ddp" THEN DDPColumns ELSE FmpcColumns
      head == r.dump[1]
      lines == Len(r.dump) >= 1
      names == lines /\ Len(head) = Len(cols) /\ Range(head) = Range(cols)
      count == Len(r.dump) = Len(r.rows) + 1
  IN Cl("C24", "header names the columns", names)
     \cup Cl("C24", "one line per entry", count)
     \cup (IF ~names \/ ~count THEN {} ELSE
       Cl("C24", "values in header order", \A i \in 1..Len(r.rows) :
            LET e == Entry(cs.solver, r, i) IN
            /\ Len(r.dump[i + 1]) = Len(cols)
            /\ \A j \in 1..Len(cols) : SameNum(r.dump[i + 1][j], e[Pos(cols, head[j])])))

RECURSIVE Sum(_, _, _)
Sum(rd, k, n) == IF n = 0 THEN F0 ELSE FAdd(Sum(rd, k, n - 1), rd[n][k])
Phases(cs) == IF cs.solver = "ddp" THEN <<"derivative", "backward", "forward">> ELSE <<"coeff", "backward", "forward", "update">>
Durations(cs, r) ==
  LET d == r.dur
      ms(t) == FDiv(FInt(t), FInt(1000))
      all == r.tk[1] + r.tk[2] + r.tk[3]
      eq(a, b) == FLe(FAbs(FSub(a, b)), FMul(FDec("1e-6"), FAdd(F1, FAbs(b))))
      le(a, b) == FLe(a, FAdd(b, FMul(FDec("1e-6"), FAdd(F1, FAbs(b)))))
      ph == Phases(cs)
      total == FAdd(FAdd(d[ph[1]], d[ph[2]]), IF Len(ph) = 3 THEN d[ph[3]] ELSE FAdd(d[ph[3]], d[ph[4]]))
      nn(x) == FIsFinite(x) /\ FLe(F0, x)
  IN Cl("C24", "durations are not negative", (\A f \in DOMAIN d : nn(d[f])) /\ \A i \in 1..Len(r.rd) : \A j \in 1..Len(r.rd[i]) : nn(r.rd[i][j]))
     \cup Cl("C24", "total is setup plus optimisation", eq(d.solve, FAdd(d.setup, d.opt)))
     \cup Cl("C24", "total covers the whole call and nothing else", eq(d.solve, ms(all)))
     \cup Cl("C24", "phases sum to at most the optimisation time", le(total, d.opt))
     \cup Cl("C24", "phases of the latest solve only", \A k \in 1..Len(ph) : eq(d[ph[k]], Sum(r.rd, k, Len(r.rd))))
     \cup Cl("C24", "differentiation is accounted to its phase", le(ms(r.tk[2]), d[ph[1]]))
     \* (a backward pass that fails is not accounted)
     \cup Cl("C24", "parts of a phase are within the phase",
             IF cs.solver = "ddp" THEN r.ret = 1 => le(FAdd(d.Q, FAdd(d.reg, d.gain)), d.backward)
             ELSE r.ret # 3 => le(FAdd(d.gain_pre, FAdd(d.gain_solve, d.gain_post)), d.backward))

----------------------------------------------------------------------------
Judge(cs, call, r) ==
  LET k == cs.kinds[call[2]]
      exc == Exc(r)
      twins == {m \in DOMAIN mem : cs.kinds[m].cls = k.cls /\ m # call[2]}
      first == mem[call[2]]
      same == Core(cs.runs[first]) = Core(r) /\ Exc(cs.runs[first]) = exc
      quiet == k.print = 0 => r.out = 0
  IN (IF cs.tag \in {"threads", "threads free"} /\ Seen(cs.tag) THEN {} ELSE {})
     \cup Cl(Rej(cs), IF k.exp = <<"">> THEN "well-formed call throws" ELSE "malformed call not rejected", exc \in Range(k.exp))
     \cup Cl("C25", "silent at print level 0", quiet)
     \cup (IF exc # "" THEN Cl(Rej(cs), "no result together with an exception", r.ret = -1)
                            \cup (IF Seen("throws " \o exc) THEN {} ELSE {})
           ELSE (IF ~k.det \/ call[2] \notin DOMAIN mem THEN {}
                 ELSE Cl(Fun(cs), "result depends on more than the call", same)
                      \cup (IF call[1] \in thrown THEN Cl(Rej(cs), "solver unusable after an exception", same) ELSE {})
                      \cup (IF Seen("repeated" \o (IF call[1] \in thrown THEN " after exception" ELSE "")) THEN {} ELSE {}))
                \cup (IF ~k.det \/ k.exp # <<"">> THEN {}
                      ELSE Cl("C25", "print level changes the result", \A m \in twins : Core(cs.runs[mem[m]]) = Core(r))
                           \cup (IF twins # {} /\ Seen("print twin" \o (IF r.out > 0 THEN " printing" ELSE "")) THEN {} ELSE {}))
                \cup (IF cs.solver = "box" THEN {} ELSE
                        (IF "dump" \in DOMAIN r THEN Dump(cs, r) ELSE {})
                        \cup (IF "dur" \in DOMAIN r THEN Durations(cs, r) ELSE {})))

SInit == Init /\ mem = <<>> /\ thrown = {}
Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ LET cs == Cases[c] r == cs.runs[q + 1] call == cs.calls[q + 1]
     IN /\ bad' = Judge(cs, call, r)
        /\ mem' = IF call[2] \in DOMAIN mem THEN mem ELSE mem @@ (call[2] :> q + 1)
        /\ thrown' = IF Exc(r) # "" THEN thrown \cup {call[1]} ELSE IF call[3] = 1 THEN thrown \ {call[1]} ELSE thrown
Spec == SInit /\ [][Next]_svars
=============================================================================
