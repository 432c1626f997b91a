------------------------------- MODULE GridMC -------------------------------
(* Morphological reconstruction by repeated geodesic dilation, on every small   *)
(* image: what it leaves standing are exactly the peaks of Grid.  Mirror        *)
(* extension and local extrema: sanity laws.                                    *)
EXTENDS Grid
CONSTANTS R, C, MaxV, Hs
VARIABLES img, h, f
Max2(S) == CHOOSE m \in S : \A x \in S : x <= m
Min2(a, b) == IF a < b THEN a ELSE b
(* the image is laid down row by row *)
Init == img = <<>> /\ h \in Hs /\ f = <<>>
Lay == /\ Len(img) < R
       /\ \E row \in [1..C -> 0..MaxV] : img' = Append(img, row)
       /\ f' = IF Len(img) + 1 < R THEN <<>> ELSE [i \in 1..R |-> [j \in 1..C |-> img'[i][j] - h]]
       /\ UNCHANGED h
Dilated == [i \in 1..R |-> [j \in 1..C |->
              Min2(img[i][j], Max2({V(f, q) : q \in Nb(f, <<i, j>>) \cup {<<i, j>>}}))]]
Ready == Len(img) = R
Fresh == Ready /\ \A i \in 1..R : \A j \in 1..C : f[i][j] = img[i][j] - h
Next == Lay \/ /\ Ready /\ f' = Dilated /\ f' # f
               /\ UNCHANGED <<img, h>>
Spec == Init /\ [][Next]_<<img, h, f>>
Stable == Dilated = f
Below == Ready => \A p \in Cells(img) : V(f, p) <= V(img, p) /\ V(f, p) >= V(img, p) - h
Standing == {p \in Cells(img) : V(img, p) > V(f, p)}
Correct == Ready /\ Stable => Standing = Peaks(img, h)
Dual == Fresh => LocMin(img) = LocMax(Neg(img))
(* with h = 1 peaks of integer images are local maxima; every image has one *)
PeaksAreMaxima == Fresh => /\ Peaks(img, h) # {}
                           /\ h = 1 => \A p \in Peaks(img, h) : Inner(img, p) => p \in LocMax(img)
Extension == Fresh => LET B == Tile(img) IN
  /\ \A i \in 1..R : \A j \in 1..C : B[R + i][C + j] = img[i][j]
  /\ \A i \in 1..(3 * R) : \A j \in 1..(3 * C) :
       /\ j \in 1..C => B[i][j] = B[i][2 * C + 1 - j]
       /\ j \in (2 * C + 1)..(3 * C) => B[i][j] = B[i][4 * C + 1 - j]
       /\ i \in 1..R => B[i][j] = B[2 * R + 1 - i][j]
       /\ i \in (2 * R + 1)..(3 * R) => B[i][j] = B[4 * R + 1 - i][j]
  (* what was an inner extremum stays one *)
  /\ \A p \in LocMax(img) : <<p[1] + R, p[2] + C>> \in LocMax(B)
=============================================================================
