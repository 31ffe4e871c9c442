------------------------------- MODULE MemCore -------------------------------
(***************************************************************************)
(* How much memory a registry may hold, given only the populations it has  *)
(* reached: of each component set the most entities it ever had at once    *)
(* (its peak) and the size of its row of components, and the most entities *)
(* that ever lived at once.  How often entities came and went does not     *)
(* occur.  The allowance is generous (storage may be several times as      *)
(* large as its contents), but constant.                                   *)
(***************************************************************************)
EXTENDS Naturals

MaxN2(a, b) == IF a > b THEN a ELSE b

\* In KiB; divided before multiplied, to stay within TLC's integers.
SetKiB(peak, row) == 16 + 8 * ((MaxN2(peak, 256) \div 64 + 1) * ((row + 8) \div 16 + 1))
TableKiB(top) == 1024 + (MaxN2(top, 1024) \div 1024 + 1) * 64
=============================================================================
