---------------------------- MODULE WhitenoiseMC ----------------------------
(* Self consistency of the rule over all short components.                      *)
EXTENDS Whitenoise
CONSTANT Lens
VARIABLES x, ref, s, k
Vals == -2..2
Comps == UNION {[1..n -> Vals] : n \in Lens}
Init == /\ x \in Comps /\ SqSum(x) > 0 /\ ref \in {<<0, 1, 0, 1, 0>>, <<1, 2, 1, 0, 0>>, <<0, 0, 0, 0, 1>>} /\ s \in 0..2 /\ k \in {6737, 8028}
Next == x' = [j \in 1..Len(x) |-> 2 * x[j]] /\ s' = s /\ \A j \in 1..Len(x) : WAbs(x[j]) < 64 /\ UNCHANGED <<ref, k>>
Spec == Init /\ [][Next]_<<x, ref, s, k>>
C == [x |-> x, s |-> s]
ASSUME \A a, b \in {1, 2, 3, 7, 10, 50, 123, 5000} : WAbs(Ln(a * b) - Ln(a) - Ln(b)) <= 12
(* doubling the values quadruples the energy: the a posteriori value only rises, by ln 4 *)
Monotone == Post(C, [x |-> ref, s |-> 0], k) < Post([x |-> [j \in 1..Len(x) |-> 2 * x[j]], s |-> s], [x |-> ref, s |-> 0], k)
(* scale and exponent are interchangeable *)
Scale == WAbs(Prior(C, k) - Prior([x |-> [j \in 1..Len(x) |-> 4 * x[j]], s |-> s + 2], k)) <= 12
(* turning time around changes nothing *)
Rev == LET y == [j \in 1..Len(x) |-> x[Len(x) + 1 - j]] IN Peaks(x) = Peaks(y) /\ SqSum(x) = SqSum(y)
=============================================================================
