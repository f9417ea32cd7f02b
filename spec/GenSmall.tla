------------------------------ MODULE GenSmall ------------------------------
(* Exhaustive small-scope inputs for the self-contained solvers: every initial
   state is one input, printed for replay in the implementation.  Bounds of 9
   stand for infinity. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Kind
VARIABLE in

Bounds == {<<-1, 1>>, <<0, 0>>, <<0, 2>>, <<-2, -1>>, <<-9, 9>>, <<-9, 0>>, <<1, 9>>}
Box1 == [H : {<<1>>, <<2>>, <<0>>, <<-1>>}, g : [1..1 -> -3..3], b : [1..1 -> Bounds], x0 : [1..1 -> {-3, -1, 0, 1, 3}]]
Hs2 == {<<1, 0, 0, 1>>, <<2, 1, 1, 1>>, <<2, -1, -1, 2>>, <<1, -3, -3, 10>>, <<1, 2, 2, 1>>, <<0, 0, 0, 1>>, <<-1, 0, 0, 2>>}
Box2 == [H : Hs2, g : [1..2 -> {-2, -1, 0, 1, 2}], b : [1..2 -> {<<-1, 1>>, <<0, 0>>, <<0, 2>>, <<-9, 1>>}],
         x0 : [1..2 -> {-1, 0, 1}]]
Hs3 == {<<2, 1, 0, 1, 2, 1, 0, 1, 2>>, <<3, -1, 1, -1, 2, -1, 1, -1, 3>>}
Box3 == [H : Hs3, g : [1..3 -> {-2, 0, 1}], b : [1..3 -> {<<-1, 1>>, <<0, 0>>, <<0, 2>>}], x0 : [1..3 -> {0, 1}]]

\* GMRES: integer matrices that are nonsingular
Det2(a) == a[1] * a[4] - a[2] * a[3]
Gm1 == [n : {1}, A : [1..1 -> {-2, -1, 1, 3}], b : [1..1 -> -2..2], x0 : [1..1 -> -1..1], k : {0, 1, 5}]
Gm2 == [n : {2}, A : {a \in [1..4 -> {-1, 0, 1, 2}] : Det2(a) # 0}, b : [1..2 -> {-1, 0, 2}], x0 : [1..2 -> {0, 1}], k : {1, 2}]
Perm3 == {<<0, 1, 0, 0, 0, 1, 1, 0, 0>>, <<1, 0, 0, 0, 0, 1, 0, 1, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<2, 0, 0, 0, 2, 0, 0, 0, 3>>,
          <<1, 1, 0, 0, 1, 1, 0, 0, 1>>, <<0, 0, 1, 0, 2, 0, -1, 0, 0>>, <<2, -1, 0, -1, 2, -1, 0, -1, 2>>}
Gm3 == [n : {3}, A : Perm3, b : [1..3 -> {-1, 0, 2}], x0 : [1..3 -> {0, 1}], k : {1, 2, 3}]

\* L1: all sign patterns of function values and products
L1a == UNION {[f : [1..m -> {-1, 0, 2}], J : [1..(m * n) -> {-1, 0, 2}], d : [1..n -> {-1, 1}]] : m \in {1, 2}, n \in {1, 2}}
L1e == [f : {<<>>}, J : {<<>>}, d : [1..2 -> {1}]] \cup [f : [1..2 -> {-1, 0, 2}], J : {<<>>}, d : {<<>>}]

All == CASE Kind = "box1" -> Box1 [] Kind = "box2" -> Box2 [] Kind = "box3" -> Box3
         [] Kind = "gm1" -> Gm1 [] Kind = "gm2" -> Gm2 [] Kind = "gm3" -> Gm3
         [] Kind = "l1" -> L1a \cup L1e
Init == in \in All /\ PrintT(<<"CASE", in>>)
Next == UNCHANGED in
Spec == Init /\ [][Next]_in
=============================================================================
