------------------------------- MODULE Flags -------------------------------
(***************************************************************************)
(* Processing flags and their descriptions (property P01).  Flag values    *)
(* are bit masks below 2^31; LIBBITS are the bits of the measurement       *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS Common

Names == {"SHEAR_RANGE_ERROR", "EDGE_HIT", "PSF_FAILURE", "OBJ_FAILURE", "NOMOMENTS_FAILURE",
          "BAD_BBOX", "ZERO_WEIGHTS", "NO_DATA", "MISSING_BAND", "INCONSISTENT_BANDS",
          "CENTROID_FAILURE", "DEBLEND_FAILURE"}
(* a word every description of the flag must contain *)
Keyword == [n \in Names |->
  CASE n = "SHEAR_RANGE_ERROR" -> "shear" [] n = "EDGE_HIT" -> "edge" [] n = "PSF_FAILURE" -> "psf"
    [] n = "OBJ_FAILURE" -> "object" [] n = "NOMOMENTS_FAILURE" -> "moments"
    [] n = "BAD_BBOX" -> "box" [] n = "ZERO_WEIGHTS" -> "weights" [] n = "NO_DATA" -> "no data"
    [] n = "MISSING_BAND" -> "missing" [] n = "INCONSISTENT_BANDS" -> "#"
    [] n = "CENTROID_FAILURE" -> "centroid" [] n = "DEBLEND_FAILURE" -> "deblend"]

(* encoding and decoding a set of bits *)
RECURSIVE Encode(_)
Encode(B) == IF B = {} THEN 0 ELSE LET b == CHOOSE x \in B : TRUE
             IN (IF b = 30 THEN 1073741824 ELSE Pow(2, b)) + Encode(B \ {b})
Decode(v) == BitSet(v)
(* the description of v, given what each single bit is called *)
Described(parts, single, v) ==
  /\ Len(parts) = Cardinality(Decode(v))
  /\ RangeOf(parts) = {single[b + 1] : b \in Decode(v)}
=============================================================================
