------------------------------ MODULE Converter -------------------------------
(* What a run of the converter may look like from the outside.                *)
(*                                                                            *)
(*  input    "good": source and pathbuilder can be read completely            *)
(*           "bad": missing, not exactly one of each, or unusable             *)
(*  options  whether at most one kind of output has been asked for            *)
(*  room     "yes": everything that is to be written can be                   *)
(*           "no": it cannot; "unknown": can't be told from the outside       *)
(*  exit     whether the exit status claims success                           *)
(*  out      "complete": the output, as found by its reader, is exactly what  *)
(*           the input says; "other": anything else                           *)
Inputs == {"good", "bad"}
Rooms == {"yes", "no", "unknown"}
Outs == {"complete", "other"}
Possible(r) == r.input = "good" /\ r.options /\ r.room # "no"

Honest(r) == r.exit => r.out = "complete"                   \* success is only claimed for the complete output
Fails(r) == ~Possible(r) => ~r.exit                         \* what can't be done fails
Works(r) == (r.input = "good" /\ r.options /\ r.room = "yes") => r.exit   \* what can be done is done
Allowed(r) == Honest(r) /\ Fails(r) /\ Works(r)
=============================================================================
