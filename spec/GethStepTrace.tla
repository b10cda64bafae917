---------------------------- MODULE GethStepTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions on real states (drivers/go/ctstate, with     *)
(* geth.go) with GethStep; Effect is replaced by GApply.                   *)
(***************************************************************************)
EXTENDS CtStateTrace, GethStep
=============================================================================
