------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Many runs in one process.                                               *)
(*                                                                         *)
(* A run is executed by an instance, which is given images, a              *)
(* configuration, band combinations and a random generator.  What a run    *)
(* gives is a function of these and of the states of the generator at the  *)
(* starts of the instance's runs so far (an instance may be run again and  *)
(* then keeps what it knows of its images): nothing else that happens in   *)
(* the process enters.  And a run changes nothing but the generator it is  *)
(* given.                                                                  *)
(***************************************************************************)
EXTENDS Common

\* what a run may depend on
KeyOf(inst, starts) == << inst.kind, inst.cfg, inst.obs, inst.comb, starts >>

\* memo: the runs seen, key -> [out, dig, end]
Agrees(memo, k, v) == (k \in DOMAIN memo) => (memo[k] = v)
Remember(memo, k, v) == IF k \in DOMAIN memo THEN memo ELSE (k :> v) @@ memo

\* two snapshots agree on every name of the first
Kept(before, after) == \A n \in DOMAIN before : (n \in DOMAIN after /\ after[n] = before[n])
KeptBut(before, after, except) ==
  \A n \in DOMAIN before \ except : (n \in DOMAIN after /\ after[n] = before[n])
=============================================================================
