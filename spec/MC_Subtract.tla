---------------------------- MODULE MC_Subtract ----------------------------
(***************************************************************************)
(* Every history of contexts, with errors inside them, of an incremental   *)
(* subtractor over one pixel row; checked against the definition.          *)
(***************************************************************************)
EXTENDS Subtract, Json
CONSTANTS IDS, STRANGER, MAXEV, NPIX
VARIABLES img, orig, stack, hist, pc
vars == <<img, orig, stack, hist, pc>>

(* child s covers a few pixels, overlapping its neighbours *)
M(s, p) == IF p \in {s, s + 1} THEN 3 * s + p ELSE 0
Px == 1..NPIX
Init == /\ orig = [p \in Px |-> 10 * p] /\ stack = << >> /\ hist = << >> /\ pc = "run"
        /\ img = [p \in Px |-> 10 * p - SumIds(IDS, [s \in IDS |-> M(s, p)])]
Room == pc = "run" /\ Len(hist) < MAXEV
Enter(s) == /\ Room /\ s \notin RangeOf(stack)
            /\ hist' = Append(hist, [t |-> "enter", id |-> s, how |-> "normal"])
            /\ IF s \in IDS
               THEN /\ stack' = Append(stack, s) /\ img' = [p \in Px |-> img[p] + M(s, p)]
               ELSE UNCHANGED <<stack, img>>
            /\ UNCHANGED <<orig, pc>>
Leave(how) == /\ Room /\ stack # << >>
              /\ LET s == stack[Len(stack)]
                 IN /\ hist' = Append(hist, [t |-> "leave", id |-> s, how |-> how])
                    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                    /\ img' = [p \in Px |-> img[p] - M(s, p)]
              /\ UNCHANGED <<orig, pc>>
Look(s) == /\ Room /\ hist # << >> /\ hist[Len(hist)].t # "look"
           /\ hist' = Append(hist, [t |-> "look", id |-> s, how |-> "normal"])
           /\ UNCHANGED <<img, orig, stack, pc>>
Emit == /\ pc = "run" /\ Len(hist) = MAXEV
        /\ PrintT("SCN " \o ToJson([kind |-> "subtract", events |-> hist]))
        /\ pc' = "end" /\ UNCHANGED <<img, orig, stack, hist>>
Next == \/ \E s \in IDS \cup {STRANGER} : Enter(s)
        \/ \E how \in {"normal", "error"} : Leave(how)
        \/ \E s \in IDS : Look(s)
        \/ Emit
Spec == Init /\ [][Next]_vars

StackIsHistory == stack = StackAt(IDS, hist, Len(hist))
ImageIsDefinition == \A p \in Px :
  img[p] = Shown(orig[p], [s \in IDS |-> M(s, p)], IDS, stack)
RestoredWhenClosed == stack = << >> =>
  \A p \in Px : img[p] = orig[p] - SumIds(IDS, [s \in IDS |-> M(s, p)])
OriginalKept == [][orig' = orig]_vars
StrangersChangeNothing == [][(hist' # hist /\ hist'[Len(hist')].id = STRANGER) => UNCHANGED <<img, stack>>]_vars
=============================================================================
