---- MODULE Trace_FixedQueue ----
(* Trace validation for FixedQueue: every recorded call must be a step of the
   specification whose reply agrees with the recorded one (generated by tools/mktrace.py). *)
EXTENDS FixedQueue, TLCExt, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tid].ev[l]
Match(o, e) == \A k \in DOMAIN o : k \in DOMAIN e /\ o[k] = e[k]
ASSUME \A t \in 1..NTraces : TLCSet(t, 0)
TraceInit == /\ tid \in 1..NTraces /\ l = 1 /\ InitCfg(Traces[tid].cfg)
TraceNext == /\ l <= Len(Traces[tid].ev)
             /\ Ev.op # "crash"
             /\ Do(Ev) /\ Match(out', Ev) /\ Inv'
             /\ l' = l + 1 /\ UNCHANGED tid
Progress == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Accepted == /\ \A t \in 1..NTraces : TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\ PrintT("ACCEPTED-END")
====
