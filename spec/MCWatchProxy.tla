---------------------------- MODULE MCWatchProxy ----------------------------
EXTENDS CkubeWatchProxy
CONSTANT Steps
MCInit == st = [s \in Stream |-> NoStream] /\ n = Steps
MCSpec == MCInit /\ [][WPNext]_wpvars /\ WF_wpvars(Proxy)
\* however the steps are interleaved with the rest, the proxy gets where Closure says
ClosureOK == \A s \in Stream : ~CanStep(Closure(st[s]))
=============================================================================
