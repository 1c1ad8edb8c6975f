------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Full configurations (property L01).  A configuration is the set of its  *)
(* entries <<section, key, value>>; top level entries have section "".     *)
(* Values are written out as text.                                         *)
(***************************************************************************)
EXTENDS Common

Sections == {"detect", "metacal", "pgauss"}
Default == {<<"", "subtract_sky", "False">>, <<"", "deblender", "'sdss'">>,
            <<"detect", "thresh", "5.0">>, <<"metacal", "reconv_type", "'fitgauss'">>,
            <<"pgauss", "fwhm", "2.0">>, <<"", "stamp_size", "49">>, <<"", "shear_bands", "None">>}
TopKeys == {e[2] : e \in {x \in Default : x[1] = ""}} \cup Sections
Strict == [s \in {"detect", "pgauss"} |-> {e[2] : e \in {x \in Default : x[1] = s}}]
Bad(c) == \E e \in c : \/ e[1] = "" /\ e[2] \notin TopKeys
                       \/ e[1] # "" /\ e[1] \notin Sections
                       \/ e[1] \in DOMAIN Strict /\ e[2] \notin Strict[e[1]]
Path(e) == <<e[1], e[2]>>
Merge(d, c) == {e \in d : \A x \in c : Path(x) # Path(e)} \cup c
Full(c) == Merge(Default, c)
Put(c, e) == Merge(c, {e})
Drop(c, s, k) == {e \in c : Path(e) # <<s, k>>}
=============================================================================
