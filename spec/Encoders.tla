------------------------------ MODULE Encoders ------------------------------
(***************************************************************************)
(* One encoder over its life: groups are collected into a document until   *)
(* it is finished; every document is what a fresh encoder would have       *)
(* written for the same groups; a call fails exactly when the destination  *)
(* failed in it, and what arrived is then a prefix of the document.        *)
(*                                                                         *)
(* Content is a sequence (bytes, or one interned document at a time).      *)
(* Fresh(gs, done): what arrives from a fresh encoder for groups gs when   *)
(* it is finished; the same is an upper bound while it is not.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES
  pend,    \* groups collected into the document under way
  got,     \* what arrived of it
  torn     \* a call failed since the last document was finished (text: what follows is not specified until then)

evars == <<pend, got, torn>>

EInit == pend = <<>> /\ got = <<>> /\ torn = FALSE

\* a call that meets no failure of the destination; kind: "text", "buf", "proto"
Collected(kind, g, new, whole) ==
  /\ torn \/ IsPrefix(got \o new, whole)
  /\ pend' = Append(pend, g)
  /\ got' = got \o new
  /\ UNCHANGED torn

Finished(kind, new, whole) ==
  /\ torn \/ got \o new = whole
  /\ pend' = <<>> /\ got' = <<>> /\ torn' = FALSE

\* the destination failed: the caller is told; what arrived is a prefix; protobuf starts afresh, text with the next finish,
\* and a finish that fails is the end of its document too
Failed(kind, call, new, whole) ==
  /\ torn \/ IsPrefix(got \o new, whole)
  /\ pend' = <<>> /\ got' = <<>>
  /\ torn' = (kind # "proto" /\ call # "fin")
=============================================================================
