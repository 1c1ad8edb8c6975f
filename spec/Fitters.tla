----------------------------- MODULE Fitters -----------------------------
(***************************************************************************)
(* The measurements of a run.  A configured fitter is                      *)
(*   [model, fwhm, smooth, reg (hundredths, -1 if absent), symm, coadd     *)
(*    (-1 if absent)]                                                      *)
(* Moments (wmom, ksigma, pgauss) are measured per band; joint models (am, *)
(* admom, gauss) once per object.  A call is described by what reaches the *)
(* measurement: model, weight size, smoothing, object, bands and weights.  *)
(***************************************************************************)
EXTENDS Pipeline

Wavg == {"wmom", "ksigma", "pgauss"}
Joint == {"am", "admom", "gauss"}
KnownModel(m) == m \in Wavg \cup Joint

Hund(n) == ToString(n \div 100) \o "." \o (IF n % 100 < 10 THEN "0" ELSE "") \o ToString(n % 100)
Kind(f) == IF f.model = "admom" THEN "am"
           ELSE IF f.reg >= 0 THEN f.model \o "_reg" \o Hund(f.reg) ELSE f.model
Symm(f) == f.symm # 0
Coadd(f) == f.coadd = 1

StampW(cfg, b, o) ==
  StampOf(Band(cfg, 0, b).w, cfg.nrow, cfg.ncol, StartOf(o.r, o.box), StartOf(o.c, o.box),
          o.box, 0)
WFor(cfg, f, b, o) == IF Symm(f) THEN SymWeight(StampW(cfg, b, o)) ELSE StampW(cfg, b, o)
Pattern(w) == [i \in DOMAIN w |-> [j \in DOMAIN w[i] |-> IF w[i][j] > 0 THEN 1 ELSE 0]]
(* usable pixels of a coadd: positive weight in every band *)
CoaddPattern(cfg, comb, o) ==
  LET ws == [n \in DOMAIN comb |-> StampW(cfg, comb[n], o)]
  IN [i \in 1..o.box |-> [j \in 1..o.box |->
        IF \A n \in DOMAIN comb : ws[n][i][j] > 0 THEN 1 ELSE 0]]

Call(m, fwhm, smooth, codes, w) ==
  [m |-> m, fwhm |-> fwhm, smooth |-> smooth, codes |-> codes, w |-> w]

(* the calls for one object of a type, one fitter, one combination *)
CallsOf(cfg, f, t, k, comb) ==
  LET o == cfg.objs[t][k]
      sm == IF f.smooth >= 0 /\ f.model # "wmom" THEN f.smooth ELSE 0
  IN IF f.model \in Wavg
     THEN LET bands == SelectSeq([b \in 1..cfg.nband |-> b - 1],
                                 LAMBDA b : AnyPositive(WFor(cfg, f, b, o)))
          IN [n \in DOMAIN bands |->
                Call(Kind(f), f.fwhm, sm, <<FluxAt(cfg, 0, t, bands[n], k)>>,
                     WFor(cfg, f, bands[n], o))]
     ELSE LET one == Len(comb) = 1
              pat == CoaddPattern(cfg, comb, o)
              cp == IF f.model # "gauss" /\ Symm(f) THEN SymWeight(pat) ELSE pat
              codes == [n \in DOMAIN comb |-> FluxAt(cfg, 0, t, comb[n], k)]
          IN IF f.model = "gauss" /\ ~Coadd(f)
             THEN << Call("gauss", 0, 0, codes, << >>) >>
             ELSE IF ~one /\ ~AnyPositive(pat) THEN << >>
             ELSE << Call(Kind(f), 0, 0, IF one THEN codes ELSE << -1 >>, cp) >>

RECURSIVE AllCalls(_, _, _, _, _)
AllCalls(cfg, fs, ti, i, fi) ==
  IF ti > Len(cfg.types) THEN << >>
  ELSE IF i > Len(Combs(cfg)) THEN AllCalls(cfg, fs, ti + 1, 1, 1)
  ELSE IF fi > Len(fs) THEN AllCalls(cfg, fs, ti, i + 1, 1)
  ELSE LET t == cfg.types[ti]
           d == Detected(cfg, t, DetBands(cfg, i))
       IN FlattenSeq_([n \in DOMAIN d |-> CallsOf(cfg, fs[fi], t, d[n], Combs(cfg)[i])])
          \o AllCalls(cfg, fs, ti, i, fi + 1)

(* size and shape a moments fitter reports; shape in 1e-4 *)
TQ(cfg, f, o, comb) ==
  LET w2 == [n \in DOMAIN comb |-> PosMedian2(WFor(cfg, f, comb[n], o))]
  IN Q(SumSeq([n \in DOMAIN comb |-> w2[n] * TCode(o, comb[n])]), SumSeq(w2))
Usable(cfg, f, o, comb) == \A n \in DOMAIN comb : AnyPositive(WFor(cfg, f, comb[n], o))
Treg3(f) == IF f.reg < 0 THEN 0 ELSE (f.reg * f.reg * 36067) \div 1000000
G14(cfg, f, o, comb) ==
  LET t3 == Scaled(TQ(cfg, f, o, comb), 1000) IN (1000 * t3) \div (t3 + Treg3(f))
=============================================================================
