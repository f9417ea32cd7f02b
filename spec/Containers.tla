----------------------------- MODULE Containers -----------------------------
(* Model: every history of a few operations on a variable, a coefficient, or constructions. *)
EXTENDS ContainerOps
CONSTANTS NX,        \* state dimension
          TU, TG,    \* input and inequality dimension, 9: may differ from step to step
          MaxN,      \* horizons 0..MaxN
          Kind       \* "variable", "coefficient" or "dims"
T == [nx |-> NX, nu |-> TU, ng |-> TG]
VARIABLES v, ops
vars == <<v, ops>>
StepDims == IF TU = Free /\ TG = Free THEN {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<0, 1>>, <<1, 0>>}
            ELSE IF TU = Free THEN {<<0, TG>>, <<2, TG>>} ELSE IF TG = Free THEN {<<TU, 0>>, <<TU, 2>>} ELSE {<<TU, TG>>}
Resets == {<<0, 1, 2, 1, 1>>, <<1, 2, 3, 0, 1>>} \cup {[j \in 1..5 |-> IF j = k THEN b ELSE 1] : k \in 1..5, b \in {NaN, PInf}}
Do(op) == v' = After(T, v, op) /\ ops' = Append(ops, op) /\ PrintT(<<"CASE", [ops |-> ops']>>)
Init == /\ v = <<>> /\ ops = <<>>
VNext ==
  \/ ops = <<>> /\ \E n \in 0..MaxN : Do(<<"make", n>>)
  \/ Len(ops) = 1 /\ \E ds \in [1..Len(v.u) -> StepDims] : Do(<<"dims", ds>>)
  \/ Len(ops) = 2 /\ \E r \in Resets : Do(<<"reset", r>>)
  \/ Len(ops) = 3 /\ \E m \in DOMAIN v : \E i \in 1..Len(v[m]) : \E j \in 1..Len(v[m][i]) : \E k \in {Huge, NaN, PInf, MInf} :
                       ops[3][2] = <<0, 1, 2, 1, 1>> /\ Do(<<"put", m, i, j, k>>)
  \/ Len(ops) = 4 /\ Do(<<"reset", <<2, 0, 1, 1, 3>>>>)
CNext ==
  /\ ops = <<>>
  /\ \E d \in StepDims : \E m \in {CoMembers[k] : k \in 1..17} : \E j \in 0..CoSize(T, m, d) : \E k \in {Huge, NaN, PInf, MInf} :
       /\ ops' = <<d, m, j, k>> /\ v' = v /\ PrintT(<<"CASE", [ops |-> ops']>>)
DNext ==
  /\ ops = <<>> /\ v' = v
  /\ \/ \E t \in {-1, 1, 2, 3} : \E a \in (-2..4) \cup {None} : ops' = <<"box", t, a>> /\ PrintT(<<"CASE", [ops |-> ops']>>)
     \/ \E t \in {-1, 1, 2} : \E what \in {"input", "ineq"} : \E time \in BOOLEAN : \E over \in BOOLEAN :
          ops' = <<"query", what, t, IF time THEN 1 ELSE 0, IF over THEN 1 ELSE 0>> /\ PrintT(<<"CASE", [ops |-> ops']>>)
Next == CASE Kind = "variable" -> VNext [] Kind = "coefficient" -> CNext [] OTHER -> DNext
Spec == Init /\ [][Next]_vars

\* the model itself: operations keep the shape they are meant to keep, reset leaves nothing unassigned, and makes everything finite again
Shape(w) == [m \in DOMAIN w |-> [i \in 1..Len(w[m]) |-> Len(w[m][i])]]
Kept == [][ops # <<>> /\ Len(ops) > 1 /\ Kind = "variable" => Shape(v') = Shape(v)]_vars
ResetAll == Kind = "variable" /\ Len(ops) >= 3 => Assigned(v)
Lengths == Kind = "variable" /\ ops # <<>> =>
             /\ Len(v.x) = ops[1][2] + 1 /\ Len(v.lam) = ops[1][2] + 1
             /\ Len(v.u) = ops[1][2] /\ Len(v.s) = ops[1][2] /\ Len(v.nu) = ops[1][2]
Recovers == Len(ops) = 5 => ~NonFinite(v)
=============================================================================
