---------------------------- MODULE MC_Fitters ----------------------------
(***************************************************************************)
(* A run which takes the configured fitters one after the other, for each  *)
(* the objects, and for each object the bands (moments) or all shear bands *)
(* at once (joint models), for every list of up to MAXF fitters with       *)
(* different columns.  The calls it makes must be those Fitters defines,   *)
(* and the definition must have the properties a user relies on.           *)
(***************************************************************************)
EXTENDS Fitters, Json
CONSTANTS MAXF, MODELS, FWHMS, REGS, SYMMS, COADDS
VARIABLES fs, comb, pc, fi, k, b, calls
RegsQ == {-1, 80}
RegsT == {-1, 80, 105}
SymmsQ == {-1, 0}
SymmsT == {-1, 0, 1}
CoaddsQ == {-1, 0, 1}
vars == <<fs, comb, pc, fi, k, b, calls>>

Zero == [r \in 1..4 |-> [c \in 1..4 |-> 0]]
W1 == << <<3, 3, 3, 3>>, <<3, 3, 0, 3>>, <<3, 3, 5, 3>>, <<3, 0, 3, 3>> >>
W2_ == << <<2, 2, 2, 2>>, <<2, 2, 2, 2>>, <<2, 2, 4, 2>>, <<2, 2, 2, 0>> >>
Bd(w) == [w |-> w, b |-> Zero, o |-> Zero, m |-> << >>, psf |-> [flags |-> 0]]
Cfg == [nrow |-> 4, ncol |-> 4, nband |-> 2, colour |-> 0, nodet |-> 0, types |-> <<"1p">>,
        combs_given |-> 1, combs |-> <<comb>>, det_mode |-> "default", dets |-> << >>,
        sets |-> << [bands |-> <<Bd(W1), Bd(W2_)>>, mcal |-> 1] >>,
        objs |-> [t \in {"1p"} |-> << [r |-> 1, c |-> 1, box |-> 2, bands |-> <<0, 1>>, nd |-> << >>],
                                      [r |-> 2, c |-> 1, box |-> 3, bands |-> <<1>>, nd |-> << >>] >>]]
Fit == [model : MODELS, fwhm : FWHMS, smooth : {-1, 80}, reg : REGS, symm : SYMMS, coadd : COADDS]
Sound(f) == IF f.model \in Wavg THEN f.coadd = -1 ELSE f.reg < 0 /\ f.smooth < 0 /\ f.fwhm = MinSet(FWHMS)
Fits == {f \in Fit : Sound(f)}
Init ==
  /\ fs = << >> /\ comb \in {<<0, 1>>, <<1>>} /\ pc = "choose" /\ fi = 1 /\ k = 1 /\ b = 0 /\ calls = << >>
Add ==
  /\ pc = "choose" /\ Len(fs) < MAXF
  /\ \E f \in Fits : /\ \A i \in DOMAIN fs : Kind(fs[i]) # Kind(f)
                     /\ fs' = Append(fs, f)
  /\ UNCHANGED <<comb, pc, fi, k, b, calls>>
Go == pc = "choose" /\ fs # << >> /\ pc' = "run" /\ UNCHANGED <<fs, comb, fi, k, b, calls>>

F == fs[fi]
O == Cfg.objs["1p"][k]
NextObject == IF k < 2 THEN k' = k + 1 /\ fi' = fi /\ b' = 0
              ELSE k' = 1 /\ fi' = fi + 1 /\ b' = 0
Moments ==       \* one band
  /\ pc = "run" /\ fi <= Len(fs) /\ F.model \in Wavg
  /\ IF b = 2 THEN NextObject /\ UNCHANGED calls
     ELSE /\ b' = b + 1 /\ UNCHANGED <<k, fi>>
          /\ LET st == StampW(Cfg, b, O)
                 w == IF F.symm = 0 THEN st ELSE SymWeight(st)
             IN calls' = IF \A i \in DOMAIN w : \A j \in DOMAIN w : w[i][j] = 0 THEN calls
                         ELSE Append(calls, Call(Kind(F), F.fwhm,
                                IF F.smooth > 0 /\ F.model # "wmom" THEN F.smooth ELSE 0,
                                <<FluxAt(Cfg, 0, "1p", b, k)>>, w))
  /\ UNCHANGED <<fs, comb, pc>>
JointFit ==
  /\ pc = "run" /\ fi <= Len(fs) /\ F.model \in Joint
  /\ calls' = calls \o CallsOf(Cfg, F, "1p", k, comb)
  /\ NextObject /\ UNCHANGED <<fs, comb, pc>>
Emit ==
  /\ pc = "run" /\ fi > Len(fs)
  /\ PrintT("SCN " \o ToJson([kind |-> "fitters", fs |-> fs]))
  /\ pc' = "end" /\ UNCHANGED <<fs, comb, fi, k, b, calls>>
Next == Add \/ Go \/ Moments \/ JointFit \/ Emit
Spec == Init /\ [][Next]_vars

End == pc = "end"
All(l) == AllCalls(Cfg, l, 1, 1, 1)
AsDefined == End => calls = All(fs)
(* what one fitter sees does not depend on the other fitters or their order *)
Of(cs, f) == SelectSeq(cs, LAMBDA c : c.m = Kind(f))
Independent == End => \A i \in DOMAIN fs : Of(calls, fs[i]) = All(<<fs[i]>>)
NothingElse == End => \A i \in DOMAIN calls : \E j \in DOMAIN fs : calls[i].m = Kind(fs[j])
(* the defaults: symmetrised, not coadded *)
Defaulted(f) == [f EXCEPT !.symm = IF @ < 0 THEN 1 ELSE @, !.coadd = IF @ < 0 THEN 0 ELSE @]
Defaults == End => All(fs) = All([i \in DOMAIN fs |-> Defaulted(fs[i])])
(* regularisation changes nothing of what is measured, only the name *)
Plain(f) == [f EXCEPT !.reg = -1]
RegOnlyNames == End => \A i \in DOMAIN fs :
  LET a == All(<<fs[i]>>) p == All(<<Plain(fs[i])>>)
  IN Len(a) = Len(p) /\ \A n \in DOMAIN a : [a[n] EXCEPT !.m = ""] = [p[n] EXCEPT !.m = ""]
(* moments see every band, also those which are not shear bands; joint fits only shear bands *)
EveryBand == End => \A i \in DOMAIN fs :
  IF fs[i].model \in Wavg
  THEN fs[i].symm # 0 \/ Len(All(<<fs[i]>>)) = 4
  ELSE \A n \in DOMAIN All(<<fs[i]>>) : Len(All(<<fs[i]>>)[n].codes) <= Len(comb)
(* symmetrised weights can only lose pixels *)
SymmLoses == End => \A i \in DOMAIN calls : \A j \in DOMAIN fs :
  (fs[j].model \in Wavg /\ calls[i].m = Kind(fs[j]) /\ Symm(fs[j])) =>
     LET w == calls[i].w IN SymWeight(w) = w
=============================================================================
