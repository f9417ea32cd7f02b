-------------------------------- MODULE Ode --------------------------------
(* One step of the Euler and the classical Runge-Kutta method for x' = F(t, x). *)
EXTENDS Poly

EulerStep(F(_, _), t, x, h) == VAdd(x, VScale(h, F(t, x)))
RKStep(F(_, _), t, x, h) ==
  LET h2 == FDiv(h, F2)
      k1 == Force(F(t, x))
      k2 == Force(F(FAdd(t, h2), VAdd(x, VScale(h2, k1))))
      k3 == Force(F(FAdd(t, h2), VAdd(x, VScale(h2, k2))))
      k4 == Force(F(FAdd(t, h), VAdd(x, VScale(h, k3))))
  IN VAdd(x, VScale(FDiv(h, FInt(6)), VAdd(VAdd(VAdd(k1, VScale(F2, k2)), VScale(F2, k3)), k4)))
OdeStep(kind, F(_, _), t, x, h) == IF kind = 0 THEN EulerStep(F, t, x, h) ELSE RKStep(F, t, x, h)
=============================================================================
