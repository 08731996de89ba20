------------------------------ MODULE TrieTrace -----------------------------
(* Trace validation of tries: histories of writes, reads, copies and root  *)
(* computations on the real tries.  The model of a trie is the map of what *)
(* was written and not removed, and its root is Trie!Root of that map.     *)
EXTENDS TraceLib

Raw == JsonDeserialize(IOEnv.SCENARIOS)
VARIABLES sc, f, g, n, v       \* f: the trie at hand, g: the other one
vars == <<sc, f, g, n, v>>
View == <<sc, n>>

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)
RootOf(m) == Hex(IF Raw[sc].secured THEN SecureRoot(m) ELSE Root(m))
Result(o) == CASE o[1] = "get" -> LET k == UnHex(o[2]) IN IF k \in DOMAIN f THEN Hex(f[k]) ELSE ""
               [] o[1] = "root" -> RootOf(f)
               [] OTHER -> ""
Init == sc \in 1..Len(Raw) /\ f = EmptyMap /\ g = EmptyMap /\ n = 0 /\ v = ""
Next ==
  /\ v = ""
  /\ sc' = sc
  /\ n' = n + 1
  /\ IF n = Len(Raw[sc].ops) THEN Report(<<>>) /\ v' = "done" /\ UNCHANGED <<f, g>>
     ELSE LET o == Raw[sc].ops[n + 1]                 \* <<op, key, value, result>>
              want == Result(o)
          IN IF want # o[4]
             THEN Report(<<o[1], ToString(n + 1), want, o[4]>>) /\ v' = "done" /\ UNCHANGED <<f, g>>
             ELSE /\ v' = ""
                  /\ f' = CASE o[1] = "set" -> (IF o[3] = "" THEN Del(f, UnHex(o[2])) ELSE Put(f, UnHex(o[2]), UnHex(o[3])))
                            [] o[1] = "swap" -> g
                            [] OTHER -> f
                  /\ g' = CASE o[1] = "copy" -> f [] o[1] = "swap" -> f [] OTHER -> g
Spec == Init /\ [][Next]_vars
=============================================================================
