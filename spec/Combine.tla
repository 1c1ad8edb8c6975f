------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* Combining the results of several fitters, and fitting all PSFs.         *)
(* A result is [none : 0/1, n : rows, cols : column names, vals : column   *)
(* name -> values (flattened), sb : shear bands of the rows].              *)
(***************************************************************************)
EXTENDS Common

Some(rs) == {i \in DOMAIN rs : rs[i].none = 0}
Mismatch(rs) ==
  \/ \E i, j \in Some(rs) : rs[i].n # rs[j].n
  \/ \E i \in Some(rs) : rs[i].n > 0 /\ Some(rs) # DOMAIN rs
  \/ \E i, j \in Some(rs) : rs[i].n > 0 /\ rs[i].sb # rs[j].sb
(* two results of the same kind: their columns cannot be told apart *)
Twice(rs) == \E i, j \in Some(rs) : i # j
               /\ (RangeOf(rs[i].cols) \cap RangeOf(rs[j].cols)) \ {"shear_bands"} # {}
CombineOutcome(rs) ==
  IF Len(rs) = 1 THEN "same"
  ELSE IF Some(rs) = {} THEN "none"
  ELSE IF Twice(rs) THEN "refused"
  ELSE IF Mismatch(rs) THEN "error" ELSE "table"

Shared == "shear_bands"
Own(r) == SelectSeq(r.cols, LAMBDA x : x # Shared)
RECURSIVE AllOwn(_, _)
AllOwn(rs, i) == IF i > Len(rs) THEN << >>
                 ELSE (IF rs[i].none = 1 THEN << >> ELSE Own(rs[i])) \o AllOwn(rs, i + 1)
Rows(rs) == rs[CHOOSE i \in Some(rs) : TRUE].n

(* ---- fitting all PSFs: a monitor over the fits ---- *)
(* bands : observations per band; a fit is [b, flags]                      *)
Fitted(fits, b) == {i \in DOMAIN fits : fits[i].b = b}
LastOf(fits, b) == fits[MaxSet(Fitted(fits, b))].flags
StopBand(bands, fits) ==      \* first band which stops the fitting, or none
  LET S == {b \in DOMAIN bands : bands[b] # 1 \/ (Fitted(fits, b) # {} /\ LastOf(fits, b) # 0)}
  IN IF S = {} THEN Len(bands) + 1 ELSE MinSet(S)
FitOrder(bands, fits) ==
  /\ \A i, j \in DOMAIN fits : i < j => fits[i].b <= fits[j].b
  \* a good fit is not repeated
  /\ \A i \in DOMAIN fits : i < Len(fits) /\ fits[i + 1].b = fits[i].b => fits[i].flags # 0
  /\ \A b \in DOMAIN bands :
       Fitted(fits, b) # {} <=>
         (b < StopBand(bands, fits) \/ (b = StopBand(bands, fits) /\ bands[b] = 1))
FitOutcome(bands, fits) ==
  LET s == StopBand(bands, fits)
  IN IF s > Len(bands) THEN "ok" ELSE IF bands[s] # 1 THEN "raise:AssertionError"
     ELSE "raise:BootPSFFailure"
=============================================================================
