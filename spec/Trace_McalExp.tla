--------------------------- MODULE Trace_McalExp ---------------------------
(* Recorded metacal products of exposures. *)
EXTENDS McalExp, TraceLib
VARIABLE l

TolPix == 3       \* in 1/1000 of a count
TolKer == 3       \* in 1/1000000
NearGrid(a, b, tol) == /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : IsNum(a[i][j]) /\ Abs(a[i][j] - b[i][j]) <= tol
Added(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] + b[i][j]]]
TimesG(k, a) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> IF IsNum(a[i][j]) THEN k * a[i][j] ELSE a[i][j]]]

(* e.out[i]: what key i of the answer holds; e.ref[t][b], e.nref[t][b]: the terms *)
CheckMcal(e) ==
  LET nb == Len(e.names)
      asked == IF e.dflt = 1 THEN DefaultTypes ELSE e.types
      want == Refused(e.api, nb, e.nstats, asked)
      use == Distinct(asked)
      Ix(t) == CHOOSE i \in DOMAIN use : use[i] = t
      fix == Fixed(e.api)
      NoiseOk(ref, i, b) == NearGrid(e.nout[i].cols[b].im, ref[Ix(e.nkeys[i])][b], TolPix)
      Cells == {<<i, b>> : i \in DOMAIN e.out, b \in 1..nb}
      NCells == {<<i, b>> : i \in DOMAIN e.nout, b \in 1..nb}
      refN == IF \A c \in NCells : NoiseOk(e.nref, c[1], c[2]) THEN e.nref ELSE e.nref3
  IN Clause("L07.inputs_unchanged", e.same = 1)
     \cup (IF want # "ok" THEN Clause("L07.refused", e.outcome = want)
           ELSE IF e.outcome # "ok" THEN {"L07.completes"}
           ELSE IF ~(RangeOf(e.keys) = RangeOf(asked) /\ Len(e.keys) = Len(use)
                     /\ (fix => RangeOf(e.nkeys) = RangeOf(asked) /\ Len(e.nkeys) = Len(use)))
           THEN {"L07.one_product_per_type"}
           ELSE IF ~(/\ \A i \in DOMAIN e.out : e.out[i].bands = e.names /\ Len(e.out[i].cols) = nb
                     /\ \A i \in DOMAIN e.nout : e.nout[i].bands = e.names /\ Len(e.nout[i].cols) = nb)
           THEN {"L07.bands_in_order"}
           ELSE
             Clause("L07.bands_in_order", \A c \in Cells : e.out[c[1]].cols[c[2]].band = e.names[c[2]])
             \cup Clause("L07.noise_processed_turned", fix => \A c \in NCells : NoiseOk(refN, c[1], c[2]))
             \cup Clause("L07.image_is_its_terms", \A c \in Cells :
                    LET t == Ix(e.keys[c[1]]) b == c[2]
                    IN NearGrid(e.out[c[1]].cols[b].im,
                                IF fix THEN Added(e.ref[t][b], refN[t][b]) ELSE e.ref[t][b], 2 * TolPix))
             \cup Clause("L07.variance_counts_both", \A c \in Cells :
                    e.out[c[1]].cols[c[2]].var = TimesG(VarFactor(e.api), e.var[c[2]]))
             \cup Clause("L07.noise_variance_kept", \A c \in NCells :
                    e.nout[c[1]].cols[c[2]].var = e.nvar[c[2]])
             \cup Clause("L07.mask_and_frame_kept",
                    /\ \A c \in Cells : e.out[c[1]].cols[c[2]].mask = e.mask[c[2]]
                    /\ \A c \in NCells : e.nout[c[1]].cols[c[2]].mask = e.nmask[c[2]]
                    /\ \A c \in Cells : e.out[c[1]].cols[c[2]].fr = e.fr /\ e.out[c[1]].cols[c[2]].wcs = 1)
             \cup Clause("L07.kernel_of_own_band",
                    /\ \A c \in Cells : NearGrid(e.out[c[1]].cols[c[2]].ker, e.ker[c[2]], TolKer)
                    /\ \A c \in NCells : NearGrid(e.nout[c[1]].cols[c[2]].ker, e.ker[c[2]], TolKer))
             \* positions are recorded twice over
             \cup Clause("L07.kernel_at_the_centre", \A i \in DOMAIN e.pos :
                    /\ Abs(e.pos[i][1] - (2 * e.fr[1] + e.fr[3] - 1)) <= 1
                    /\ Abs(e.pos[i][2] - (2 * e.fr[2] + e.fr[4] - 1)) <= 1))

(* moments of compact objects, 1e-4 arcsec^2: no reference to any image library *)
TolM == 60
CheckMoments(e) ==
  IF e.outcome # "ok" \/ e.keys # Distinct(e.types) THEN {"L07.completes"}
  ELSE UNION {LET r == e.rows[i] IN
    Clause("L07.shear_of_the_type",
      /\ Close(r.out.m, AfterMetacal(r.t, r.in.m, r.psf.m, r.ker.m), TolM)
      /\ Close(r.out.cen, Moved(r.t, r.in.cen), 10) /\ Abs(r.out.flux - r.in.flux) * 1000 <= 2 * Abs(r.in.flux))
    \cup Clause("L07.noise_sees_the_inverse_shear",
      /\ Close(r.nout.m, AfterMetacal(Inverse(r.t), r.nin.m, Turned(r.psf.m), r.ker.m), TolM)
      /\ Close(r.nout.cen, Moved(Inverse(r.t), r.nin.cen), 10) /\ Abs(r.nout.flux - r.nin.flux) * 1000 <= 2 * Abs(r.nin.flux))
    \cup Clause("L07.kernel_round", /\ Abs(r.ker.m[1] - r.ker.m[3]) <= 20 /\ Abs(r.ker.m[2]) <= 20
                                    /\ Abs(r.ker.cen[1]) <= 2 /\ Abs(r.ker.cen[2]) <= 2)
    : i \in DOMAIN e.rows}

Failing(e) == CASE e.op = "mcal" -> CheckMcal(e)
                [] e.op = "mcmom" -> CheckMoments(e)
                [] OTHER -> {"L07.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
