-------------------------------- MODULE Desc --------------------------------
(***************************************************************************)
(* The implementation of descriptions: a padded sorted array, built by     *)
(* exchange sort, grown by insertion after a binary search, shrunk by      *)
(* shifting.  Checked against DescCore for all sets and histories within   *)
(* the bounds.                                                             *)
(***************************************************************************)
EXTENDS DescCore, Integers, TLC

CONSTANT Ids
Pad == -1
VARIABLES arr, len, S     \* S: the set that should be described (specification only)
vars == <<arr, len, S>>

Blank == [i \in 1..MaxKinds |-> Pad]
Exchange(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
\* for i in 0..n { for j in i+1..n { if a[j] < a[i] swap } }
RECURSIVE SortFrom(_, _, _, _)
SortFrom(a, n, i, j) ==
    IF i > n THEN a
    ELSE IF j > n THEN SortFrom(a, n, i + 1, i + 2)
    ELSE SortFrom(IF a[j] < a[i] THEN Exchange(a, i, j) ELSE a, n, i, j + 1)
Build(ids) == SortFrom([i \in 1..MaxKinds |-> IF i <= Len(ids) THEN ids[i] ELSE Pad], Len(ids), 1, 2)

\* Where k is, or where it belongs: <<found, position>>.
RECURSIVE Search(_, _, _, _)
Search(a, lo, hi, k) ==
    IF lo > hi THEN <<FALSE, lo>>
    ELSE LET m == (lo + hi) \div 2 IN
         IF a[m] = k THEN <<TRUE, m>> ELSE IF a[m] < k THEN Search(a, m + 1, hi, k) ELSE Search(a, lo, m - 1, k)
Add(a, n, k) ==
    IF n = MaxKinds THEN <<FALSE, a>>
    ELSE LET p == Search(a, 1, n, k) IN
         IF p[1] THEN <<FALSE, a>>
         ELSE <<TRUE, [i \in 1..MaxKinds |-> IF i < p[2] THEN a[i] ELSE IF i = p[2] THEN k
                                             ELSE IF i <= n + 1 THEN a[i - 1] ELSE a[i]]>>
Remove(a, n, k) ==
    IF n = 1 THEN <<FALSE, a>>
    ELSE LET p == Search(a, 1, n, k) IN
         IF ~p[1] THEN <<FALSE, a>>
         ELSE <<TRUE, [i \in 1..MaxKinds |-> IF i < p[2] THEN a[i] ELSE IF i < n THEN a[i + 1] ELSE IF i = n THEN Pad ELSE a[i]]>>

RECURSIVE Inc(_, _, _, _, _, _), Exc(_, _, _, _, _, _)
Inc(a, n, b, m, i, j) ==
    IF i > m THEN TRUE ELSE IF j > n THEN FALSE
    ELSE IF a[j] = b[i] THEN Inc(a, n, b, m, i + 1, 1) ELSE Inc(a, n, b, m, i, j + 1)
Contains(a, n, b, m) == IF m > n THEN FALSE ELSE Inc(a, n, b, m, 1, 1)
Exc(a, n, b, m, i, j) ==
    IF i > m THEN TRUE ELSE IF j > n THEN Exc(a, n, b, m, i + 1, 1)
    ELSE IF a[j] = b[i] THEN FALSE ELSE Exc(a, n, b, m, i, j + 1)

Orders == UNION {{f \in [1..n -> Ids] : Cardinality(Range(f)) = n} : n \in 1..MaxKinds}
Init == \E f \in Orders : arr = Build(f) /\ len = Len(f) /\ S = Range(f)
DoAdd(k) == LET r == Add(arr, len, k) IN r[1] /\ arr' = r[2] /\ len' = len + 1 /\ S' = S \cup {k}
DoRemove(k) == LET r == Remove(arr, len, k) IN r[1] /\ arr' = r[2] /\ len' = len - 1 /\ S' = S \ {k}
Next == \E k \in Ids : DoAdd(k) \/ DoRemove(k)
Spec == Init /\ [][Next]_vars

Prefix == [i \in 1..len |-> arr[i]]
Describes == Range(Prefix) = S /\ len = Cardinality(S) /\ len > 0
Sorted == \A i \in 1..len - 1 : arr[i] < arr[i + 1]
Padded == \A i \in len + 1..MaxKinds : arr[i] = Pad
Refusals == \A k \in Ids : Add(arr, len, k)[1] = CanAdd(S, k) /\ Remove(arr, len, k)[1] = CanRemove(S, k)
Relations == \A f \in Orders :
    LET b == Build(f) IN
    /\ Contains(arr, len, b, Len(f)) = Includes(S, Range(f))
    /\ Exc(arr, len, b, Len(f), 1, 1) = Excludes(S, Range(f))
\* Only the set decides the contents of the array, hence everything computed from it.
Unique == \A f \in Orders : Range(f) = S => Build(f) = arr
=============================================================================
