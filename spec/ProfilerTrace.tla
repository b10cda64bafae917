----------------------------- MODULE ProfilerTrace -----------------------------
(* Recorded histories of the real profiler (TRACE, ndjson):                  *)
(*   [mode, ev: events, obs: [i, n, t, runs, rt] after event i,              *)
(*    listed: byte values a dump lists]                                      *)
EXTENDS Profiler, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES vRun, vPos, vS, vObs
vars == <<vRun, vPos, vS, vObs>>
View == <<vRun, vPos>>
H == Hist[vRun]

AsFun(ps) == TLCEval([k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]])
\* An entry of zero calls and no time is none.
NonZero(n, t) == {k \in DOMAIN n \cup DOMAIN t : Get(n, k) # 0 \/ Get(t, k) # 0}
Same(o, p) ==
  LET n == AsFun(o.n)  t == AsFun(o.t) IN
  /\ \A k \in NonZero(n, t) \cup NonZero(p.n, p.t) : Get(n, k) = Get(p.n, k) /\ Get(t, k) = Get(p.t, k)
  /\ o.runs = p.runs /\ o.rt = p.rt

Init == vRun \in 1..Len(Hist) /\ vPos = 0 /\ vS = Fresh /\ vObs = 1
Step ==
  LET x == H.ev[vPos + 1]
      s == TLCEval(After(H.mode, vS, x))
      seen == vObs <= Len(H.obs) /\ H.obs[vObs].i = vPos + 1
  IN /\ vPos >= 0 /\ vPos < Len(H.ev)
     /\ Assert(Enabled0(vS, x), <<"impossible event", x>>)
     /\ IF seen /\ ~Same(H.obs[vObs], s.prof)
        THEN PrintT(ToString(<<"BAD", H.id, H.mode, vPos + 1, x.e, H.obs[vObs], s.prof>>)) /\ vPos' = -1
        ELSE vPos' = vPos + 1
     /\ vS' = s /\ vRun' = vRun /\ vObs' = (IF seen THEN vObs + 1 ELSE vObs)
Finish ==
  /\ vPos = Len(H.ev) /\ vPos' = -1
  /\ IF {H.listed[i] : i \in 1..Len(H.listed)} # Reported(H.mode) \/ Len(H.listed) # Cardinality(Reported(H.mode))
     THEN PrintT(ToString(<<"BAD", H.id, H.mode, vPos, "dump", H.listed>>)) ELSE TRUE
  /\ UNCHANGED <<vRun, vS, vObs>>
Next == Step \/ Finish
================================================================================
