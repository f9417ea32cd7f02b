------------------------------ MODULE MC_DDPCtl ------------------------------
(* The control logic of a DDP solve by itself (DDPCtl), with regularisation and
   scaling as powers of the factor: a number is its exponent, None stands for 0.

   The numerical part of the solver is replaced by an adversary.  At every point
   of the input space that the solver arrives at, the adversary fixes
     need   the gains exist exactly for lambda above this value (None: always)
     cross  the relative gain is small exactly for lambda above this value
            (None: always, Inf: never)
   and for every step tried whether it is accepted, and if so whether the cost
   decrease is small.  All behaviours up to MaxIter iterations are checked, and
   printed as cases, from which gen_ctl.py constructs problems that make the real
   solver take exactly this path (TraceDDP judges what it does). *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Variant, MaxIter
None == -1000
Inf == 1000
\* a few shapes of the configuration
LMinE   == CASE Variant = 1 -> -3 [] Variant = 2 -> -1 [] Variant = 3 -> 0
LMaxE   == CASE Variant = 1 -> 4  [] Variant = 2 -> 2  [] Variant = 3 -> 7
LThreE  == CASE Variant = 1 -> 1  [] Variant = 2 -> -1 [] Variant = 3 -> 5
Lam0s   == CASE Variant = 1 -> {None, -1, 3} [] Variant = 2 -> {None, -2, 1, 3} [] Variant = 3 -> {None, 0, 2}
DLam0s  == CASE Variant = 1 -> {0, 1} [] Variant = 2 -> {0, -1} [] Variant = 3 -> {0, 2, -2}
Needs   == CASE Variant = 1 -> {None, 0, 2} [] Variant = 2 -> {None, 0} [] Variant = 3 -> {None, 3}
Crosses == CASE Variant = 1 -> {None, 0, Inf} [] Variant = 2 -> {None, Inf} [] Variant = 3 -> {2, Inf}

Mul(a, b) == IF a = None \/ b = None THEN None ELSE a + b
Div(a, b) == IF a = None THEN None ELSE a - b
Lt(a, b) == a < b
Ctl == INSTANCE DDPCtl WITH Zero <- None, One <- 0, Fac <- 1, LMin <- LMinE, LMax <- LMaxE

VARIABLES lam, dlam, it, verdict, pos,
          path,      \* what happened: <<"at", need, cross>> on arrival, then <<"acc", small>> or <<"rej">>
          rises      \* increases of lambda since the last accepted step
vars == <<lam, dlam, it, verdict, pos, path, rises>>

Positions == {[need |-> n, cross |-> x] : n \in Needs, x \in Crosses}
At(p) == <<"at", p.need, p.cross>>
Init == /\ lam \in Lam0s /\ dlam \in DLam0s /\ it = 0 /\ verdict = "cont" /\ rises = 0
        /\ \E p \in Positions : pos = p /\ path = <<<<"start", lam, dlam>>, At(p)>>

\* gains at the present position, with as many increases of lambda as it takes
RECURSIVE Gains(_)
Gains(r) == IF ~r.ok \/ pos.need < r.lam \/ pos.need = None THEN r
            ELSE LET a == Ctl!AfterBackward([lam |-> r.lam, dlam |-> r.dlam, ok |-> TRUE], 1)
                 IN Gains([lam |-> a.lam, dlam |-> a.dlam, ok |-> a.ok, n |-> r.n + 1])
End(p) == verdict' # "cont" \/ it' = MaxIter => PrintT(<<"CASE", [path |-> p]>>)
Take(r, n) == lam' = r.lam /\ dlam' = r.dlam /\ verdict' = r.verdict /\ it' = it + 1
              /\ rises' = IF lam' = None \/ (dlam' < 0) THEN 0 ELSE rises + n
Iterate ==
  /\ verdict = "cont" /\ it < MaxIter
  /\ LET r == Gains([lam |-> lam, dlam |-> dlam, ok |-> TRUE, n |-> 0]) IN
     IF ~r.ok
     THEN Take(Ctl!Stopped(r, "fail"), r.n) /\ UNCHANGED <<pos, path>> /\ End(path)
     ELSE IF (pos.cross = None \/ pos.cross < r.lam) /\ r.lam < LThreE
     THEN Take(Ctl!Stopped(r, "succ"), r.n) /\ UNCHANGED <<pos, path>> /\ End(path)
     ELSE \/ /\ Take(Ctl!Rejected(r), r.n + 1)
             /\ path' = Append(path, <<"rej">>) /\ UNCHANGED pos /\ End(path')
          \/ \E small \in BOOLEAN :
             /\ Take(Ctl!Accepted(r, small), 0)
             /\ IF small \/ it + 1 = MaxIter THEN UNCHANGED pos /\ path' = Append(path, <<"acc", small>>)
                ELSE \E p \in Positions : pos' = p /\ path' = path \o <<<<"acc", small>>, At(p)>>
             /\ End(path')
Spec == Init /\ [][Iterate]_vars /\ WF_vars(Iterate)

\* C04: bounded schedule
Bounded == verdict = "cont" /\ dlam > 0 /\ it > 0 => lam <= LMaxE
FailsAbove == verdict = "fail" => LMaxE < lam /\ dlam > 0
\* an increase never leaves lambda below its minimum, and scaling points in the direction of the last change
Risen == it > 0 /\ verdict = "cont" /\ dlam > 0 => lam >= LMinE
Directed == it > 0 /\ verdict # "succ" => dlam # 0
\* C03: success only with lambda below its threshold or after an accepted step
Truthful == verdict = "succ" => \/ path[Len(path)] = <<"acc", TRUE>>
                                \/ (pos.cross < lam \/ pos.cross = None) /\ lam < LThreE
\* so many increases in a row suffice for failure: the scaling itself grows
Enough == (rises * (rises - 1)) \div 2 <= LMaxE - LMinE + LMaxE + 2
Monotone == [][verdict = "cont"]_vars
Terminates == <>(verdict # "cont" \/ it = MaxIter)
=============================================================================
