---------------------------- MODULE MC_Measure ----------------------------
(***************************************************************************)
(* The loop over the sources, with the contexts of the model subtractor:   *)
(* a failing stamp (image edge, no weight) ends a context with an error,   *)
(* a failing fit does not.  Sources are taken in any order.                *)
(***************************************************************************)
EXTENDS Measure, Json
CONSTANTS NS, KINDS, WITHMODELS
VARIABLES kinds, models, pending, cur, present, rows, calls, pc
vars == <<kinds, models, pending, cur, present, rows, calls, pc>>

(* a lone parent, a child cut off by the edge, one on dead pixels, a good
   one, one without a centroid, one whose fit fails *)
Childless == {i \in DOMAIN kinds : kinds[i] # "parent"}
Ids == IF models THEN Childless ELSE {}

Init == /\ kinds \in UNION {[1..n -> KINDS] : n \in 0..NS}
        /\ models \in WITHMODELS
        /\ pending = {i \in DOMAIN kinds : kinds[i] # "parent"}
        /\ cur = 0 /\ present = {} /\ rows = {} /\ calls = << >> /\ pc = "next"
Take == /\ pc = "next" /\ pending # {}
        /\ \E s \in pending : cur' = s /\ pending' = pending \ {s} /\ calls' = Append(calls, s)
        /\ pc' = "centroid" /\ UNCHANGED <<kinds, models, present, rows>>
Open == /\ pc = "centroid" /\ present' = present \cup (Ids \cap {cur})
        /\ pc' = "open" /\ UNCHANGED <<kinds, models, pending, cur, rows, calls>>
Close == /\ pc = "open" /\ present' = present \ {cur}
         /\ pc' = IF kinds[cur] \in {"edge", "zero"} THEN "failed" ELSE "stamp"
         /\ UNCHANGED <<kinds, models, pending, cur, rows, calls>>
Row(reason, saw, fit) == rows' = rows \cup {[id |-> cur, reason |-> reason, saw |-> saw, fit |-> fit]}
Fail == /\ pc = "failed" /\ Row(kinds[cur], {}, "not tried") /\ pc' = "next"
        /\ UNCHANGED <<kinds, models, pending, cur, present, calls>>
Fit == /\ pc = "stamp" /\ Row("none", Ids \cap {cur}, IF kinds[cur] = "badfit" THEN "failed" ELSE "done")
       /\ pc' = "next" /\ UNCHANGED <<kinds, models, pending, cur, present, calls>>
Emit == /\ pc = "next" /\ pending = {}
        /\ PrintT("SCN " \o ToJson([kind |-> "measure", kinds |-> kinds, models |-> IF models THEN 1 ELSE 0]))
        /\ pc' = "end" /\ UNCHANGED <<kinds, models, pending, cur, present, rows, calls>>
Next == Take \/ Open \/ Close \/ Fail \/ Fit \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneRowEach == /\ \A r, q \in rows : r.id = q.id => r = q
              /\ pc = "end" => {r.id : r \in rows} = Childless
NoParents == \A r \in rows : kinds[r.id] # "parent"
ReasonsRight == \A r \in rows : /\ r.reason = (IF kinds[r.id] \in {"edge", "zero"} THEN kinds[r.id] ELSE "none")
                                /\ (r.fit = "not tried") = (r.reason # "none")
(* outside of contexts every child is out of the image; a stamp shows its own only *)
NobodyLeftIn == pc \in {"next", "centroid", "failed", "stamp", "end"} => present = {}
OwnOnly == present \subseteq {cur}
OneCallEach == \A i, j \in DOMAIN calls : calls[i] = calls[j] => i = j
Done == <>(pc = "end")
=============================================================================
