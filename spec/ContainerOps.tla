--------------------------- MODULE ContainerOps ---------------------------
(* The data structures of FMPC that a user handles directly: the variables of an
   optimisation (Variable) and the coefficients of a step (Coefficient), as
   objects with a few operations; and the construction of objects with
   dimensions.

   A variable is a function from its members to sequences of vectors of value codes.
   Unset is the value of what has not been assigned yet. *)
EXTENDS Integers, Sequences, TLC
\* codes of values; Bad are those that are not finite
Unset == -1
NaN == 4
PInf == 5
MInf == 6
Huge == 3
Codes == 0..6
Bad == {NaN, PInf, MInf}

Members == <<"x", "u", "lam", "s", "nu">>
Count(m, n) == IF m \in {"x", "lam"} THEN n + 1 ELSE n
Fill(k, w) == [j \in 1..k |-> w]
Dim(T, m, d) == IF m \in {"x", "lam"} THEN T.nx ELSE IF m = "u" THEN d[1] ELSE d[2]
\* T: [nx, nu, ng], the dimensions of the type, Free for those given at run time
Free == 9
FixedDims(T) == <<IF T.nu = Free THEN 0 ELSE T.nu, IF T.ng = Free THEN 0 ELSE T.ng>>

(* Operations: <<"make", n>>, <<"dims", <<du, dg>> for every step>>, <<"reset", five codes>>,
   <<"put", member, step, component, code>>.  State after an operation: *)
Make(T, n) == [m \in {Members[k] : k \in 1..5} |-> [i \in 1..Count(m, n) |-> Fill(Dim(T, m, FixedDims(T)), Unset)]]
Resize(T, w, ds) == [m \in DOMAIN w |-> [i \in 1..Len(w[m]) |-> IF m \in {"x", "lam"} THEN w[m][i] ELSE Fill(Dim(T, m, ds[i]), Unset)]]
Reset(w, vals) == [m \in DOMAIN w |->
                     LET k == CHOOSE k \in 1..5 : Members[k] = m
                     IN [i \in 1..Len(w[m]) |-> Fill(Len(w[m][i]), vals[k])]]
Put(w, m, i, j, code) == [w EXCEPT ![m][i][j] = code]
After(T, w, op) == CASE op[1] = "make" -> Make(T, op[2]) [] op[1] = "dims" -> Resize(T, w, op[2])
                  [] op[1] = "reset" -> Reset(w, op[2]) [] op[1] = "put" -> Put(w, op[2], op[3], op[4], op[5])
RECURSIVE Run(_, _, _)
Run(T, ops, n) == IF n = 0 THEN <<>> ELSE After(T, Run(T, ops, n - 1), ops[n])
Values(w) == UNION {UNION {{w[m][i][j] : j \in 1..Len(w[m][i])} : i \in 1..Len(w[m])} : m \in DOMAIN w}
Assigned(w) == Unset \notin Values(w)
NonFinite(w) == Values(w) \cap Bad # {}

(* A coefficient is a set of members with a number of components each; it is
   filled with a code and single components are changed. *)
CoMembers == <<"A", "B", "C", "D", "Lx", "Lu", "Lxx", "Luu", "Lxu", "x_bar", "g_bar", "Lx_bar", "Lu_bar", "k", "K", "s", "P">>
CoSize(T, m, d) == LET n == T.nx u == d[1] g == d[2] IN
  CASE m \in {"A", "Lxx", "P"} -> n * n [] m \in {"B", "Lxu", "K"} -> n * u [] m = "C" -> g * n [] m = "D" -> g * u
    [] m \in {"Lx", "x_bar", "Lx_bar", "s"} -> n [] m \in {"Lu", "Lu_bar", "k"} -> u [] m = "Luu" -> u * u [] m = "g_bar" -> g

(* Construction with dimensions: a box QP for the type dimension t (-1: any) with
   argument a (None: none given), and problems queried for their dimensions. *)
None == -99
BoxAccepts(t, a) == LET d == IF a = None THEN t ELSE a IN d > 0 /\ (t = -1 \/ d = t)
\* type dimension t, query with time or not, overridden by the user (result 7) or not: result or -1 for an exception
Query(t, time, over) == IF over THEN 7 ELSE IF t = -1 THEN -1 ELSE t
=============================================================================
