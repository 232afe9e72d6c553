------------------------------ MODULE KSVHGen ------------------------------
(* Histories for KSVHist: TLC walks at random (with a fixed seed), and every
   walk is written out: what the source and Far serve, the time, and how
   krill-sync is run. *)
EXTENDS KSVHist

CONSTANTS MaxLen, Family      \* Family: "cache", "gate"

VARIABLES far, own, now, tals, hist, done
vars == <<far, own, now, tals, hist, done>>

Init ==
  /\ far = [up |-> TRUE, s |-> "A", n |-> 1, w |-> 0, bad |-> ""]
  /\ own = [kind |-> "ok", n |-> 1, t0 |-> 0] /\ now = 0 /\ tals = 1 /\ hist = <<>> /\ done = FALSE

MinI(a, b) == IF a < b THEN a ELSE b
Bads == {"", "snap", "delta", "both", "gap", "deltasess", "deltabase", "notif"}
\* what becomes of Far
FarSame == {far}
FarUp == {[far EXCEPT !.up = ~@]}
FarNext == {[far EXCEPT !.n = m, !.up = TRUE, !.w = MinI(w, m - 1), !.bad = b] :
              m \in {k \in {far.n + 1, far.n + 2} : k <= FarMax}, w \in {0, 1, 2, 5}, b \in Bads}
FarGood == {[far EXCEPT !.n = m, !.up = TRUE, !.w = MinI(w, m - 1), !.bad = b] :
              m \in {k \in {far.n + 1, far.n + 2, far.n + 3} : k <= FarMax}, w \in {2, 3, 5}, b \in {"", "snap"}}
\* a new revision with a delta for it that is no good
FarFalse == {[far EXCEPT !.n = m, !.up = TRUE, !.w = MinI(w, m - 1), !.bad = b] :
               m \in {k \in {far.n + 1} : k <= FarMax}, w \in {1, 2, 3}, b \in {"delta", "deltasess", "deltabase", "both", "gap"}}
FarBack == {[far EXCEPT !.n = m, !.w = MinI(@, m - 1), !.bad = ""] : m \in 1..(far.n - 1)}
FarReset == {[far EXCEPT !.s = IF @ = "A" THEN "B" ELSE "A", !.n = m, !.w = MinI(1, m - 1), !.bad = "", !.up = TRUE] : m \in {1, 2}}
FarMend == {[far EXCEPT !.bad = b, !.up = TRUE] : b \in {"", "snap"}}
Scripts == IF Family = "gate" THEN {<<>>, <<0>>, <<1>>, <<0, 0>>, <<0, 1>>, <<3, 0>>, <<1, 2>>,
                                        <<1009>>, <<1015, 0>>, <<0, 1006>>, <<3000>>, <<3001, 0>>, <<255>>} ELSE {<<>>}
Kinds == IF Family = "gate" THEN {"ok", "ok2", "hash", "gone", "brief", "early"} ELSE {"ok"}
OwnMoves ==
  {[kind |-> k, n |-> own.n + d, t0 |-> now] : k \in Kinds, d \in 1..1} \cup (IF Family = "gate" THEN {own} ELSE {})
Waits == <<1, 600, 3590, 3610, 3610, 3700, 5000, 5000>>
Run(f, o, t, tl, off, rej, sc) ==
  [far |-> f, own |-> o, now |-> t, tals |-> tl, offline |-> off, reject |-> rej, scripts |-> sc]

\* a value of a random set among those that have any
Pick(ss) == RandomElement(RandomElement({x \in ss : x # {}}))
Moves == IF Family = "cache" THEN {FarSame, FarUp, FarNext, FarGood, FarFalse, FarBack, FarReset, FarMend} ELSE {FarSame, FarUp, FarGood}
Next ==
  \/ /\ Len(hist) < MaxLen /\ done' = FALSE
     /\ now' = now + Waits[RandomElement(DOMAIN Waits)]
     /\ far' = Pick(Moves)
     /\ own' = Pick({OwnMoves})
     /\ tals' = LET t == RandomElement(IF Family = "gate" THEN 0..8 ELSE 1..8) IN IF t > (IF Family = "gate" THEN 4 ELSE 2) THEN tals ELSE t
     /\ hist' = Append(hist, Run(far', own', now', tals', RandomElement(1..6) = 1, Family = "gate" /\ RandomElement(BOOLEAN),
                                 RandomElement(Scripts)))
  \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<far, own, now, tals, hist>>
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
