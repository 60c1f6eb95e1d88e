---- MODULE AutodiffTrace ----
(* Sessions recorded from the real code: each logged event must be the step  *)
(* the specification takes for that operation, with the observation it gives. *)
EXTENDS Autodiff, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
TInit == Init /\ s \in 1..Len(Sessions) /\ l = 1
TNext == /\ l <= Len(Sessions[s].ev)
         /\ LET e == Sessions[s].ev[l] IN Do(e.op, e.a, [r |-> e.r, v |-> e.v])
         /\ l' = l + 1 /\ s' = s
Conforms == l > 1 => LET e == Sessions[s].ev[l - 1] IN out.r = e.r /\ out.v = e.v
(* on failure TLC prints what the specification expected                      *)
Where == [session |-> s, event |-> l - 1, expected |-> out]
====
