---- MODULE Trace_FileLogger ----
(* Trace validation for FileLogger: every recorded event must be an event step of the
   specification; steps of Silent may happen in between (generated by tools/mktrace.py). *)
EXTENDS FileLogger, TLCExt, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tid].ev[l]
ASSUME \A t \in 1..NTraces : TLCSet(t, 0)
TraceInit == /\ tid \in 1..NTraces /\ l = 1 /\ InitCfg(Traces[tid].cfg)
TraceNext == /\ l <= Len(Traces[tid].ev)
             /\ \/ Do(Ev) /\ l' = l + 1
                \/ Silent /\ UNCHANGED l
             /\ Inv' /\ UNCHANGED tid
Progress == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Accepted == /\ \A t \in 1..NTraces : TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\ PrintT("ACCEPTED-END")
====
