-------------------------- MODULE TraceContainers --------------------------
(* Conformance of variables and coefficients (C27), and of dimensions (C28), with Containers. *)
EXTENDS TraceCommon, ContainerOps
T(cs) == [nx |-> cs.nx, nu |-> cs.nu, ng |-> cs.ng]

Value == <<FDec("0"), FDec("1.5"), FDec("-2"), FDec("1e308"), FDiv(F0, F0), FDiv(F1, F0), FDiv(FInt(-1), F0)>>
Is(d, code) == IF code = -1 THEN TRUE ELSE IF code = 4 THEN FIsNaN(d) ELSE d = Value[code + 1]
JudgeVariable(cs, n, r) ==
  LET w == Run(T(cs), cs.ops, n)
      shape == DOMAIN r.v = DOMAIN w /\ \A m \in DOMAIN w : Len(r.v[m]) = Len(w[m]) /\ \A i \in 1..Len(w[m]) : Len(r.v[m][i]) = Len(w[m][i])
  IN Cl("C27", "steps", r.hs = cs.ops[1][2])
     \cup Cl("C27", "lengths and dimensions after " \o cs.ops[n][1], shape)
     \cup (IF ~shape THEN {} ELSE
       Cl("C27", "values after " \o cs.ops[n][1], \A m \in DOMAIN w : \A i \in 1..Len(w[m]) : \A j \in 1..Len(w[m][i]) : Is(r.v[m][i][j], w[m][i][j]))
       \cup Cl("C27", "non-finite exactly if some component is", Assigned(w) => (r.bad = 1) = NonFinite(w)))
     \cup (IF Seen("variable " \o cs.ops[n][1]) THEN {} ELSE {})
JudgeCo(cs, r) ==
  LET m == cs.ops[2] j == cs.ops[3]
      there == j > 0 /\ j <= CoSize(T(cs), m, cs.ops[1])
  IN Cl("C27", "size of " \o m, r.size = CoSize(T(cs), m, cs.ops[1]))
     \cup Cl("C27", "non-finite exactly if some component is", (r.bad = 1) = (there /\ cs.ops[4] \in {4, 5, 6}))
     \cup (IF Seen("coefficient") THEN {} ELSE {})
JudgeDims(cs, r) ==
  (IF cs.ops[1] = "box"
   THEN Cl("C28", "box QP constructed exactly for positive, consistent dimensions", (r.exc = "") = BoxAccepts(cs.ops[2], cs.ops[3]))
        \cup Cl("C28", "type of the exception", r.exc \in {"", "runtime_error"})
        \cup Cl("C28", "dimension of the box QP", r.exc = "" => r.val = IF cs.ops[3] = -99 THEN cs.ops[2] ELSE cs.ops[3])
   ELSE LET e == Query(cs.ops[3], cs.ops[4] = 1, cs.ops[5] = 1)
        IN Cl("C28", "dimension", e >= 0 => r.exc = "" /\ r.val = e)
           \cup Cl("C28", "undefined dimension is reported", e < 0 => r.exc = "runtime_error"))
  \cup (IF Seen("dims " \o cs.ops[1]) THEN {} ELSE {})
Next ==
  /\ q < Len(Cases[c].runs)
  /\ q' = q + 1 /\ c' = c
  /\ LET cs == Cases[c] r == cs.runs[q + 1]
     IN bad' = CASE cs.tag = "variable" -> JudgeVariable(cs, q + 1, r)
                 [] cs.tag = "coefficient" -> JudgeCo(cs, r)
                 [] OTHER -> JudgeDims(cs, r)
Spec == Init /\ [][Next]_vars
=============================================================================
