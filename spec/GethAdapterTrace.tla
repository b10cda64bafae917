--------------------------- MODULE GethAdapterTrace ---------------------------
(***************************************************************************)
(* Conformance of recorded transactions that were executed through the     *)
(* geth adapter.  Replaced are, in FloriaTrace and Floria:                 *)
(*   Enter <- GEnter, Leave <- GLeave, Begin <- GBegin, End <- GEnd,       *)
(*   Destroyed <- GDestroyed, KindShown <- GKindShown                      *)
(***************************************************************************)
EXTENDS GethAdapter, FloriaTrace

\* The adapter does not know the kind of a frame.
GKindShown == FALSE
===============================================================================
