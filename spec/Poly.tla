-------------------------------- MODULE Poly --------------------------------
(* Multivariate polynomials over F64: a polynomial is a tuple of monomials
   [c |-> coefficient, e |-> tuple of exponents], evaluated at a vector z.
   (J): evaluated by spec/java/Poly.java, see LinAlg. *)
EXTENDS LinAlg

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN F1 ELSE FMul(FPow(x, n - 1), x)
RECURSIVE MonoTo(_, _, _)
MonoTo(z, e, n) == IF n = 0 THEN F1 ELSE FMul(MonoTo(z, e, n - 1), FPow(z[n], e[n]))

MonoVal(m, z) == FMul(m.c, MonoTo(z, m.e, Len(m.e)))
MonoDer(m, v) == [c |-> FMul(m.c, FInt(m.e[v])),
                  e |-> [m.e EXCEPT ![v] = IF @ = 0 THEN 0 ELSE @ - 1]]

PVal(p, z) == VSum([k \in 1..Len(p) |-> MonoVal(p[k], z)])                          \* (J)
PDer(p, v, z) == VSum([k \in 1..Len(p) |-> MonoVal(MonoDer(p[k], v), z)])           \* (J)
PDer2(p, v, w, z) == VSum([k \in 1..Len(p) |-> MonoVal(MonoDer(MonoDer(p[k], v), w), z)])   \* (J)
=============================================================================
