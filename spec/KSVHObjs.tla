------------------------------ MODULE KSVHObjs ------------------------------
(* Writes out the objects of the histories in KSVH_IN, for the harness that
   signs and serves them. *)
EXTENDS KSVHist

Given == ndJsonDeserialize(IOEnv.KSVH_IN)
Key(o) == [kind |-> o.kind, n |-> o.n, t0 |-> IF o.kind \in {"brief", "early"} THEN o.t0 ELSE 0]
Keys == UNION {{Key(Given[h][k].own) : k \in DOMAIN Given[h]} : h \in DOMAIN Given}
Revs == {[s |-> s, n |-> n] : s \in {"A", "B"}, n \in 1..FarMax}
ASSUME LET ks == SetToSeq(TLCEval(Keys))
           rs == SetToSeq(Revs)
       IN /\ ndJsonSerialize(IOEnv.KSVH_OUT \o ".own", [i \in DOMAIN ks |-> [key |-> ks[i], objs |-> OwnObjs(ks[i].kind, ks[i].n, ks[i].t0)]])
          /\ ndJsonSerialize(IOEnv.KSVH_OUT \o ".far", [i \in DOMAIN rs |-> [key |-> rs[i], objs |-> FarObjs(rs[i].s, rs[i].n)]])
          /\ ndJsonSerialize(IOEnv.KSVH_OUT \o ".ta", <<[tas |-> <<TaH, UFiles>>]>>)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
