------------------------------- MODULE KSVJobs -------------------------------
(* Which trees to try: every sound tree, every single fault (in the trees of
   Full), and N combinations of two or three faults, spread over all by a
   congruential sequence from Seed.  The trees go to the file KSV_OUT.

   As a state machine this walks through the trees and checks the
   specification of validation against what is known about the faults. *)
EXTENDS KSVGen

Seed == atoi(IOEnv.KSV_SEED)
N == atoi(IOEnv.KSV_N)
FullTo == atoi(IOEnv.KSV_FULL)      \* all single faults for the first so many variants

FS == [v \in Variants |-> SetToSeq(FaultsOf(Sound(v)))]
Singles(F) == Concat([v \in 1..FullTo |-> [i \in DOMAIN F[v] |-> [v |-> v, fs |-> <<F[v][i]>>]]])
Sounds == [v \in Variants |-> [v |-> v, fs |-> <<>>]]

\* Wichmann and Hill's three sequences
R1(x) == (171 * x) % 30269
R2(x) == (172 * x) % 30307
R3(x) == (170 * x) % 30323
RECURSIVE Walk(_, _, _, _, _)
Swap(ft) == ft.f \in {"asroa", "asasa", "ascer", "asgbr", "ascrl"}
\* faults that cannot be combined: one replaces what the other changes
Clash(a, b) == a.u = b.u /\ a.r = b.r /\ (a = b \/ Swap(a) \/ Swap(b))
Combo(F, x, y, z) ==
  LET v == 1 + ((x + y + z) % Len(Places))
      a == F[v][1 + (x % Len(F[v]))]
      b == F[v][1 + (y % Len(F[v]))]
      c == F[v][1 + (z % Len(F[v]))]
  IN IF Clash(a, b) THEN [v |-> v, fs |-> <<a>>]
     ELSE IF (x + z) % 3 # 0 \/ Clash(a, c) \/ Clash(b, c) THEN [v |-> v, fs |-> <<a, b>>]
     ELSE [v |-> v, fs |-> <<a, b, c>>]
Walk(F, n, x, y, z) == IF n = 0 THEN <<>> ELSE <<Combo(F, x, y, z)>> \o Walk(F, n - 1, R1(x), R2(y), R3(z))
\* in chunks, so that recursion stays shallow
RECURSIVE Chunks(_, _, _)
Chunks(F, n, s) ==
  IF n <= 0 THEN <<>>
  ELSE Walk(F, IF n < 200 THEN n ELSE 200, 1 + ((s * 7919) % 30000), 1 + ((s * 10473) % 30000), 1 + ((s * 1299) % 30000)) \o Chunks(F, n - 200, s + 1)

Jobs == IF IOEnv.KSV_JOBS # "" THEN ndJsonDeserialize(IOEnv.KSV_JOBS)
        ELSE LET F == TLCEval(FS) IN Sounds \o Singles(F) \o Chunks(F, N, 1 + (Seed % 1000))

ASSUME IOEnv.KSV_OUT = "" \/ LET js == TLCEval(Jobs)
                              IN ndJsonSerialize(IOEnv.KSV_OUT, [i \in DOMAIN js |-> [job |-> js[i], tree |-> Build(js[i])]])

(* The state machine: first a part, then a job of this part (in parallel). *)
Given == ndJsonDeserialize(IOEnv.KSV_GIVEN)
Parts == 32
NoJob == [v |-> 1, fs |-> <<>>]
VARIABLES part, j
Init == part \in 0..(Parts - 1) /\ j = NoJob
Next == part >= 0 /\ part' = 0 - 1 - part /\ \E n \in DOMAIN Given : n % Parts = part /\ j' = Given[n].job
Spec == Init /\ [][Next]_<<part, j>>
NoInit == part = 0 /\ j = NoJob
NoNext == FALSE /\ UNCHANGED <<part, j>>

(* ---- what must hold for the specification itself ------------------------- *)
Fine == {"na0", "nb0", "noncritext", "trim", "overtrim", "twice", "many", "nosigntime", "binary", "next0", "this0",
         "norev", "unlisted", "less4", "inherit", "crldp", "badnotify", "nonotify", "othermft", "missing", "revoke"}
\* a sound tree has no issues, unless its other repository is down
SoundIsClean ==
  j.fs = <<>> => LET t == Build(j)
                       IN TasOk(t) /\ \A x \in Elems(Validate(t, 1)) : x.k = "issue" => ~t.repos[x.r].up
\* every fault that is not Fine is noticed, where there is somebody to notice it
Known(v) == {x.u : x \in {y \in Elems(Validate(Sound(v), 1)) : TRUE}}
Noticed ==
    (Len(j.fs) = 1 /\ ~(j.fs[1].w = "ta" /\ j.fs[1].f = "noaki") /\ j.fs[1].f \notin Fine /\ j.fs[1].w \in {"ta", "ee", "obj", "cer"} /\ (j.fs[1].w = "ta" \/ j.fs[1].u \in Known(j.v)))
     => LET t == Build(j) IN ~TasOk(t) \/ \E x \in Elems(Validate(t, 1)) : x.k = "issue" /\ (x.u = j.fs[1].u \/ x.k # "roa")
\* what is counted has no fault, nor is anything above it revoked or spoiled
NoPhantom ==
  LET t == Build(j)
  IN TasOk(t) => \A x \in Elems(Validate(t, 1)) :
       x.k \in {"roa", "aspa", "router", "cert"} =>
         \A n \in DOMAIN j.fs : (j.fs[n].u = x.u /\ j.fs[n].r = x.r /\ j.fs[n].w \in {"obj", "ee", "cer"}) => j.fs[n].f \in Fine
=============================================================================
