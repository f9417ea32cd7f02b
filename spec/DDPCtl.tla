------------------------------- MODULE DDPCtl -------------------------------
(* Control logic of one DDP solve, independent of the arithmetic it is carried
   out in.  The regularisation lambda and its scaling dlambda live in an
   abstract multiplicative structure given by the constants; MC_DDPCtl
   instantiates it with exponents (exhaustive model checking), DDPNum with IEEE
   doubles (conformance with the implementation). *)
EXTENDS Naturals
CONSTANTS Mul(_, _), Div(_, _), Lt(_, _), Zero, One,
          Fac, LMin, LMax

Max(a, b) == IF Lt(a, b) THEN b ELSE a
Min(a, b) == IF Lt(b, a) THEN b ELSE a

\* a failed gain computation or a rejected step
IncD(d)    == Max(Mul(d, Fac), Fac)
IncL(l, d) == Max(Mul(l, IncD(d)), LMin)
\* an accepted step
DecD(d)    == Min(Div(d, Fac), Div(One, Fac))
DecL(l, d) == IF Lt(l, LMin) THEN Zero ELSE Mul(l, DecD(d))

Exceeded(l) == Lt(LMax, l)

(* What one iteration does to [lam, dlam] and whether the solve goes on, as a
   function of the numerical outcome
     [bf    |-> number of failed gain computations,
      grad  |-> gains small enough for the gradient test,
      acc   |-> a step was accepted,
      small |-> the accepted step's cost decrease is below its threshold]
   The verdict is "cont", "succ" or "fail". *)
RECURSIVE AfterBackward(_, _)
AfterBackward(r, n) ==         \* r = [lam, dlam, ok]
  IF n = 0 \/ ~r.ok THEN r
  ELSE LET l == IncL(r.lam, r.dlam) IN
       AfterBackward([lam |-> l, dlam |-> IncD(r.dlam), ok |-> ~Exceeded(l)], n - 1)

Accepted(r, small) ==
  [lam |-> DecL(r.lam, r.dlam), dlam |-> DecD(r.dlam), verdict |-> IF small THEN "succ" ELSE "cont"]
Rejected(r) ==
  LET l == IncL(r.lam, r.dlam) IN
  [lam |-> l, dlam |-> IncD(r.dlam), verdict |-> IF Exceeded(l) THEN "fail" ELSE "cont"]
Stopped(r, v) == [lam |-> r.lam, dlam |-> r.dlam, verdict |-> v]
=============================================================================
