----------------------------- MODULE StateTrace -----------------------------
(* Trace validation of the state: histories of operations performed on the *)
(* real stores (in memory, or backed by the database), with what each      *)
(* operation told its caller.                                              *)
EXTENDS State, TraceLib

Raw == JsonDeserialize(IOEnv.SCENARIOS)
VARIABLES sc, s, n, v
vars == <<sc, s, n, v>>
View == <<sc, n>>

ConvOp(j) ==
  [op |-> j.op, a |-> UnHex(j.a), b |-> UnHex(j.b), k |-> N(j.k), v |-> IF j.op = "setCode" THEN UnHex(j.v) ELSE N(j.v),
   r |-> [n |-> N(j.r[1]), b |-> N(j.r[2]), c |-> UnHex(j.r[3])],
   as |-> [i \in 1..Len(j.as) |-> UnHex(j.as[i])], ks |-> [i \in 1..Len(j.ks) |-> N(j.ks[i])]]
Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)

Init == sc \in 1..Len(Raw) /\ s = NewStore /\ n = 0 /\ v = ""
Next ==
  /\ v = ""
  /\ sc' = sc
  /\ n' = n + 1
  /\ IF n = Len(Raw[sc].ops) THEN Report(<<>>) /\ v' = "done" /\ s' = s
     ELSE LET j == Raw[sc].ops[n + 1]
              o == ConvOp(j)
              d == Do(Raw[sc].fork, o, s)
          IN IF ~Allowed(Raw[sc].fork, o, s)
             THEN Report(<<"not allowed", j.op, "", "">>) /\ v' = "done" /\ s' = s
             ELSE IF d.res # j.res
             THEN Report(<<j.op, ToString(n + 1), ToString(d.res), ToString(j.res)>>) /\ v' = "done" /\ s' = s
             ELSE s' = d.s /\ v' = ""
Spec == Init /\ [][Next]_vars
=============================================================================
