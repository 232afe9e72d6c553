----------------------------- MODULE KSVHCheck -----------------------------
(* Histories that the real program went through, against KSVHist.  The file
   KSVH_IN has one history per line, a sequence of runs with what was observed. *)
EXTENDS KSVHist

Given == ndJsonDeserialize(IOEnv.KSVH_IN)

VARIABLES h, k, C, pub, saved
vars == <<h, k, C, pub, saved>>
Init == h \in DOMAIN Given /\ k = 0 /\ C = {NoCache} /\ pub = 0 /\ saved = 0 - 1
Next ==
  /\ k < Len(Given[h])
  /\ k' = k + 1 /\ h' = h
  /\ LET x == Given[h][k + 1]
         j == Judge(C, pub, saved, {Given[h][i].own : i \in 1..k} \ {x.own}, x)
     IN /\ C' = j.C /\ pub' = j.pub /\ saved' = j.saved
        /\ (j.labels = {} \/ PrintT("VIOL " \o ToJson([h |-> h, k |-> k + 1, labels |-> j.labels, C |-> C, pub |-> pub])))
Spec == Init /\ [][Next]_vars
=============================================================================
