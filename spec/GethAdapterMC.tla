----------------------------- MODULE GethAdapterMC -----------------------------
(***************************************************************************)
(* Exploration of the machine of GethAdapter, as FloriaMC does for Floria, *)
(* with refunds and destroyed accounts.  Replaced are, in Floria and       *)
(* FloriaMC:                                                               *)
(*   Enter <- GEnter, Leave <- GLeave, Begin <- GBegin, End <- GEnd,       *)
(*   Destroyed <- GDestroyed, DriverRule <- GDriverRule, More <- GMore     *)
(***************************************************************************)
EXTENDS GethAdapter, FloriaMC

GMore == << [o |-> "ret", ok |-> TRUE, out |-> << >>, gas |-> TRUE, ref |-> N(4800)],
            [o |-> "ret", ok |-> TRUE, out |-> << >>, gas |-> TRUE, ref |-> N(900), neg |-> TRUE],
            [o |-> "destroy", to |-> Bob] >>

\* A message that fails gives nothing back to the refunds and takes nothing from them.
RefundsKept == (mach.mode = "result" /\ ~mach.res.ok) => Here.w.ref = mach.w.ref
\* It destroys and creates nothing either.
NothingDestroyed == (mach.mode = "result" /\ ~mach.res.ok) => (Here.w.gone = mach.w.gone /\ Here.w.new = mach.w.new)
\* Destroyed accounts were paid out, except by what came later; from Cancun on only those created by the transaction are destroyed.
OnlyNew == (mach.mode # "end" /\ mach.rev >= Cancun) => mach.w.gone \subseteq mach.w.new
===============================================================================
