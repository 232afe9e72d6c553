------------------------------- MODULE KSGen -------------------------------
(***************************************************************************)
(* Scenario generator: a big-step model of krill-sync and its environment. *)
(* A state is what matters for the next run: what the source serves, what  *)
(* is published, what waits for clean-up and for how long, and the delta   *)
(* limit.  TLC enumerates all states within the bounds; VIEW hides the     *)
(* history, and every transition prints the history that leads to it, so   *)
(* the harness runs the real program through every transition of this      *)
(* model.  Each run's predicted outcome is part of the history and is      *)
(* compared with the real run.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Sess,      \* session names, e.g. {"A", "B"}
  MaxSer,    \* highest serial
  MaxWin,    \* most deltas listed
  Lims,      \* delta limits; 99 is none
  Ages,      \* half the clean-up time passes with every tick; Ages = {0, 1, 2}
  MaxDep,    \* most revisions waiting for clean-up
  MaxLen,    \* length of histories
  Opts,      \* other configurations, as numbers; 0 is the default
  Mode       \* which actions: subset of {"reset", "back", "rewin", "lim", "tick", "bad", "opt"}

VARIABLES src, top, pub, dep, lim, opt, broken, hist
vars == <<src, top, pub, dep, lim, opt, broken, hist>>

MinI(a, b) == IF a < b THEN a ELSE b
Rev(r) == <<r.s, r.n>>
None == [s |-> "", n |-> 0, w |-> 0]

Init ==
  /\ \E w \in {0, 1} : src = [s |-> "A", n |-> 1, w |-> w]
  /\ top = [s \in Sess |-> IF s = "A" THEN 1 ELSE 0]
  /\ pub = None /\ dep = <<>> /\ lim \in Lims /\ opt = <<0, 0>> /\ broken = FALSE
  /\ hist = <<[a |-> "cfg", lim |-> lim], [a |-> "src", s |-> src.s, n |-> src.n, w |-> src.w]>>

Add(x) == hist' = Append(hist, x)
SrcEv(r) == [a |-> "src", s |-> r.s, n |-> r.n, w |-> r.w]
LastA == hist[Len(hist)].a

SetSrc(r) == src' = r /\ top' = [top EXCEPT ![r.s] = IF @ < r.n THEN r.n ELSE @]
             /\ broken' = FALSE /\ Add(SrcEv(r)) /\ UNCHANGED <<pub, dep, lim, opt>>

Windows(n) == 0..MinI(MaxWin, n)

Advance == \E k \in {1, 2}, w \in 0..MaxWin :
  /\ LastA # "src" /\ ~broken
  /\ src.n + k <= MaxSer /\ w <= src.n + k
  /\ SetSrc([s |-> src.s, n |-> src.n + k, w |-> w])

\* the same revision, with another list of deltas
Rewindow == \E w \in Windows(src.n) :
  /\ "rewin" \in Mode /\ LastA = "run" /\ w # src.w
  /\ SetSrc([src EXCEPT !.w = w])

\* a new session, or a return to an earlier one
Reset == \E s \in Sess, k \in {0, 1}, w \in 0..MaxWin :
  /\ "reset" \in Mode /\ LastA # "src"
  /\ s # src.s
  /\ LET n == IF top[s] = 0 THEN 1 + k ELSE top[s] + k IN
     /\ n <= MaxSer /\ w <= n
     /\ SetSrc([s |-> s, n |-> n, w |-> w])

Rollback == \E n \in 1..(MaxSer - 1), w \in {0, 1} :
  /\ "back" \in Mode /\ LastA = "run" /\ n < src.n
  /\ SetSrc([s |-> src.s, n |-> n, w |-> w])

Tick ==
  /\ "tick" \in Mode /\ LastA = "run"
  /\ dep' = [r \in DOMAIN dep |-> MinI(dep[r] + 1, 2)]
  /\ dep' # dep
  /\ Add([a |-> "tick"]) /\ UNCHANGED <<src, top, pub, lim, opt, broken>>

SetLim == \E l \in Lims :
  /\ "lim" \in Mode /\ LastA = "run" /\ l # lim
  /\ lim' = l /\ Add([a |-> "cfg", lim |-> l]) /\ UNCHANGED <<src, top, pub, dep, opt, broken>>

\* opt: configuration now, and configuration when the published revision was installed
SetOpt == \E o \in Opts :
  /\ "opt" \in Mode /\ LastA = "run" /\ o # opt[1]
  /\ opt' = <<o, opt[2]>> /\ Add([a |-> "opt", o |-> o]) /\ UNCHANGED <<src, top, pub, dep, lim, broken>>

Kinds == {"gap", "dup", "snap-missing", "snap-hash", "snap-garbage", "snap-trunc", "snap-badobj", "snap-delta",
          "snap-wrong", "delta-missing", "delta-hash", "delta-garbage", "delta-trunc", "delta-snap",
          "delta-badobj", "notif-garbage", "notif-trunc", "notif-empty", "notif-baduuid",
          "notif-nosnap", "notif-badhash", "notif-missing", "snap-foreign", "delta-foreign"}
NeedsDelta == {"dup", "delta-missing", "delta-hash", "delta-garbage", "delta-trunc", "delta-snap",
               "delta-badobj", "delta-foreign"}
\* the source is defective for one run, and repaired after it
Break == \E k \in Kinds, at \in 0..2 :
  /\ "bad" \in Mode /\ LastA # "tick" /\ ~broken
  /\ (k \in NeedsDelta) => (at < src.w)
  /\ k = "gap" => (src.w >= 3 /\ at = 1)
  /\ (k \notin NeedsDelta /\ k # "gap") => at = 0
  /\ broken' = TRUE
  /\ Add([a |-> "bad", kind |-> k, at |-> src.n - at, s |-> src.s, n |-> src.n, w |-> src.w])
  /\ UNCHANGED <<src, top, pub, dep, lim, opt>>
Repair ==
  /\ broken /\ LastA = "run" /\ SetSrc(src)

\* what a run does
Kept == MinI(src.w, lim)
Outcome ==
  IF pub.n > 0 /\ pub.s = src.s /\ pub.n = src.n THEN "same"
  ELSE IF pub.n > 0 /\ pub.s = src.s /\ pub.n > src.n THEN "back"
  ELSE "update"
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Run ==
  /\ LastA # "run" \/ (Len(hist) > 1 /\ hist[Len(hist) - 1].a # "run")
  /\ UNCHANGED <<src, top, lim, broken>>
  /\ IF broken
     THEN Add([a |-> "run", o |-> "bad"]) /\ UNCHANGED <<pub, dep, opt>>
     ELSE /\ Add([a |-> "run", o |-> Outcome])
          /\ IF Outcome = "update"
             THEN /\ opt' = <<opt[1], opt[1]>>
                  /\ pub' = [s |-> src.s, n |-> src.n, w |-> Kept]
                  /\ LET d1 == Without(dep, {r \in DOMAIN dep : dep[r] = 2} \cup {Rev(src)})
                     IN dep' = IF pub.n > 0 THEN With(d1, Rev(pub), 0) ELSE d1
             ELSE UNCHANGED <<pub, dep, opt>>

Next == Advance \/ Rewindow \/ Reset \/ Rollback \/ Tick \/ SetLim \/ SetOpt \/ Break \/ Repair \/ Run
Spec == Init /\ [][Next]_vars

View == <<src, top, pub, dep, lim, opt, broken, LastA, IF broken THEN hist[Len(hist)] ELSE 0>>
Bound == Len(hist) <= MaxLen /\ Cardinality(DOMAIN dep) <= MaxDep
\* print the history of every transition that is a run
Emit == (hist'[Len(hist')].a = "run") => PrintT("HIST " \o ToJson(hist'))

\* sanity of the model itself
TypeOK ==
  /\ src.n \in 1..MaxSer /\ src.w <= src.n
  /\ pub.n = 0 \/ pub.n <= top[pub.s]
  /\ \A r \in DOMAIN dep : dep[r] \in Ages /\ r # Rev(pub)
=============================================================================
