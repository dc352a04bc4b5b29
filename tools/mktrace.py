#!/usr/bin/env python3
"""Writes spec/Trace_<M>.tla: the trace specification binding a sequential
component specification M (which defines InitCfg, Do, Inv, out) to recorded traces."""
import os, sys
T = '''---- MODULE Trace_%(m)s ----
(* Trace validation for %(m)s: every recorded call must be a step of the
   specification whose reply agrees with the recorded one (generated by tools/mktrace.py). *)
EXTENDS %(m)s, TLCExt, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tid].ev[l]
Match(o, e) == \\A k \\in DOMAIN o : k \\in DOMAIN e /\\ o[k] = e[k]
ASSUME \\A t \\in 1..NTraces : TLCSet(t, 0)
TraceInit == /\\ tid \\in 1..NTraces /\\ l = 1 /\\ InitCfg(Traces[tid].cfg)
TraceNext == /\\ l <= Len(Traces[tid].ev)
             /\\ Ev.op # "crash"
             /\\ Do(Ev) /\\ Match(out', Ev) /\\ Inv'
             /\\ l' = l + 1 /\\ UNCHANGED tid
Progress == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Accepted == /\\ \\A t \\in 1..NTraces : TLCGet(t) = Len(Traces[t].ev) + 1 \\/ PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\\ PrintT("ACCEPTED-END")
====
'''
spec = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
C = '''---- MODULE Trace_%(m)s ----
(* Trace validation for %(m)s: every recorded event must be an event step of the
   specification; steps of Silent may happen in between (generated by tools/mktrace.py). *)
EXTENDS %(m)s, TLCExt, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tid].ev[l]
ASSUME \\A t \\in 1..NTraces : TLCSet(t, 0)
TraceInit == /\\ tid \\in 1..NTraces /\\ l = 1 /\\ InitCfg(Traces[tid].cfg)
TraceNext == /\\ l <= Len(Traces[tid].ev)
             /\\ \\/ Do(Ev) /\\ l' = l + 1
                \\/ Silent /\\ UNCHANGED l
             /\\ Inv' /\\ UNCHANGED tid
Progress == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Accepted == /\\ \\A t \\in 1..NTraces : TLCGet(t) = Len(Traces[t].ev) + 1 \\/ PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\\ PrintT("ACCEPTED-END")
====
'''
L = '''---- MODULE Trace_%(m)s ----
(* Linearizability of concurrent histories against %(m)s (LInit, LDo, lvars): a recorded
   call carries the operations it stands for together with their results; each takes effect
   as one step of the specification, with a reply that agrees, between the recorded call and
   the recorded return.  (It is enough to let operations take effect right before a return.)
   Generated by tools/mktrace.py. *)
EXTENDS %(m)s, TLCExt, Json, IOUtils
VARIABLES tid, l, pend
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tid].ev[l]
Match(o, e) == \\A k \\in DOMAIN o \\cap DOMAIN e : o[k] = e[k]
ASSUME \\A t \\in 1..NTraces : TLCSet(t, 0)
TraceInit == /\\ tid \\in 1..NTraces /\\ l = 1 /\\ pend = <<>> /\\ LInit(Traces[tid].cfg)
Call == /\\ Ev.op = "call" /\\ Ev.t \\notin DOMAIN pend /\\ l' = l + 1
        /\\ pend' = pend @@ [i \\in {Ev.t} |-> Ev.es] /\\ UNCHANGED lvars
Ret == /\\ Ev.op = "ret" /\\ pend[Ev.t] = <<>> /\\ l' = l + 1
       /\\ pend' = [i \\in DOMAIN pend \\ {Ev.t} |-> pend[i]] /\\ UNCHANGED lvars
Effect == /\\ Ev.op = "ret" /\\ pend[Ev.t] # <<>> /\\ UNCHANGED l
          /\\ \\E i \\in DOMAIN pend : /\\ pend[i] # <<>>
                                  /\\ LDo(Head(pend[i])) /\\ Match(out', Head(pend[i])) /\\ LInv'
                                  /\\ pend' = [pend EXCEPT ![i] = Tail(@)]
End == Ev.op = "end" /\\ Ev.held = 0 /\\ Ev.live = 0 /\\ pend = <<>> /\\ l' = l + 1 /\\ UNCHANGED <<pend, lvars>>
TraceNext == l <= Len(Traces[tid].ev) /\\ UNCHANGED tid /\\ (Call \\/ Ret \\/ Effect \\/ End)
Progress == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Accepted == /\\ \\A t \\in 1..NTraces : TLCGet(t) = Len(Traces[t].ev) + 1 \\/ PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\\ PrintT("ACCEPTED-END")
====
'''
tpl = T
for m in sys.argv[1:]:
    if m.startswith("--"):
        tpl = {"--conc": C, "--lin": L}[m]
    else:
        open(os.path.join(spec, "Trace_%s.tla" % m), "w").write(tpl % {"m": m})
