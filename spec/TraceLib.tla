----------------------------- MODULE TraceLib -----------------------------
(***************************************************************************)
(* Plumbing of trace validation.  A trace is an ndjson file (path in the   *)
(* environment variable TRACE), one recorded call or event per line.  A    *)
(* Trace_X module defines the set of clauses of the specification that the *)
(* l-th line breaks; every line is consumed whatever the verdict, so that  *)
(* one run judges the whole trace, and each broken line is printed as      *)
(*    VERDICT {"line": l, "sid": .., "clauses": [...]}                     *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, clauses) ==
  IF clauses = {} THEN TRUE
  ELSE PrintT("VERDICT " \o ToJson([line |-> l, clauses |-> clauses]))
=============================================================================
