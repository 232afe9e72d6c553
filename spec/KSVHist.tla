------------------------------ MODULE KSVHist ------------------------------
(* Validation over time: the content krill-sync is about to publish, the
   repository of somebody else that the validator follows (Far), what the
   validator has kept of it, scripts, and the gate that all this controls. *)
EXTENDS KSVGen

(* ---- contents --------------------------------------------------------------
   Far publishes the point of CA B.  Its revision (s, n) lists CA certificates
   whose publication points are in Own, and these say by the number of their
   VRPs which of them have been seen. *)
FarMax == 8
Mark(s, n) == 2 * n + (IF s = "A" THEN 0 ELSE 1)      \* 2..17 for n = 1..8
DMft(m) == Sia("D") \o "D" \o ToString(m) \o ".mft"
Child(m, sn) == [CaCert("D", "B", sn, Own, Set(<<5>>), No, No) EXCEPT !.mft = DMft(m)]
FarList(s, n) ==
  <<E("B", "B.crl", "crl"), E("B", "now" \o ToString(Mark(s, n)) \o ".cer", "cer"), E("B", "same.cer", "cer"),
    E("B", "coming.cer", "cer"), E("B", "old" \o ToString(n % 3) \o ".cer", "cer"), E("B", "old" \o ToString((n + 2) % 3) \o ".cer", "cer")>>
\* what is listed but not there would count if it had been left there by mistake
If(there, o) == [o EXCEPT !.there = there]
Old(k) == CerObj(Child(20 + k, 510 + k))
FarObjs(s, n) ==
  FunOf(<< <<MftOf("B"), [MftObj("B", 1000 + Mark(s, n), FarList(s, n)) EXCEPT !.next = 900000]>>,
           <<CrlOf("B"), [CrlObj("B") EXCEPT !.next = 900000]>>,
           <<Sia("B") \o "now" \o ToString(Mark(s, n)) \o ".cer", CerObj(Child(Mark(s, n), 300 + Mark(s, n)))>>,
           <<Sia("B") \o "same.cer", CerObj(Child(0, 400 + Mark(s, n)))>>,     \* always there, always another one
           <<Sia("B") \o "coming.cer", If(n % 2 = 1, CerObj(Child(1, 500)))>>,
           <<Sia("B") \o "old" \o ToString(n % 3) \o ".cer", Old(n % 3)>>,
           <<Sia("B") \o "old" \o ToString((n + 2) % 3) \o ".cer", If(FALSE, Old((n + 2) % 3))>>,
           <<Sia("B") \o "unlisted" \o ToString(n % 2) \o ".bin", Obj("bin")>> >>)

Weight(m) == IF m < 20 THEN 1 + 2 * m ELSE 35 + 7 * (m - 20)
DPoint(m) ==
  << <<DMft(m), [MftObj("D", 600 + m, <<E("D", "D.crl", "crl"), E("D", "d" \o ToString(m) \o ".roa", "roa")>>) EXCEPT !.next = 900000]>>,
     <<Sia("D") \o "d" \o ToString(m) \o ".roa", RoaObj("D", 650 + m, Set(<<5>>), No, [i \in 1..Weight(m) |-> Pfx(4, 5)])>> >>
Marks == {0, 1} \cup 2..17 \cup {20, 21, 22}
DPoints == LET ms == SetToSeq(Marks) IN Concat([i \in DOMAIN ms |-> DPoint(ms[i])])
TFiles(n) ==
  << <<"B.cer", CerObj(CaCert("B", "T", 12, Far, Set(<<4, 5>>), Set(<<3>>), Set(<<4>>)))>>,
     <<"t.roa", RoaObj("T", 102, Set(<<5>>), No, [i \in 1..n |-> Pfx(4, 5)])>> >>
\* Own's revision n of some kind, made at time t0
OwnObjs(kind, n, t0) ==
  LET fs == TFiles(n)
      list == <<E("T", "T.crl", "crl")>> \o [i \in DOMAIN fs |-> E("T", fs[i][1], fs[i][2].k)]
      mft == [MftObj("T", 101, list) EXCEPT !.next = IF kind = "brief" THEN t0 + 4000 ELSE 900000,
                                            !.this = IF kind = "early" THEN t0 + 4000 ELSE @]
      all == << <<MftOf("T"), mft>>, <<CrlOf("T"), [CrlObj("T") EXCEPT !.next = 900000]>>,
                <<CrlOf("D"), [CrlObj("D") EXCEPT !.next = 900000]>> >>
             \o [i \in DOMAIN fs |-> <<Sia("T") \o fs[i][1], IF kind = "hash" /\ fs[i][1] = "t.roa" THEN [fs[i][2] EXCEPT !.hash = FALSE]
                                                           ELSE IF kind = "gone" /\ fs[i][1] = "t.roa" THEN [fs[i][2] EXCEPT !.there = FALSE]
                                                           ELSE fs[i][2]>>]
             \o DPoints
  IN FunOf(all)

NoView == [s |-> "", n |-> 0]
TaH == [TaT(Places[2]) EXCEPT !.notify = Own]
UFiles == [TaU(Places[1]) EXCEPT !.notify = "https://third.example/notification.xml"]
\* tals: 0 none, 1 the one that leads to Own, 2 another one as well, 3 only the other one (which does not lead
\* to Own), 4 both, but the certificate of the other one cannot be had
TreeH(own, view, now, tals) ==
  [now |-> now, tas |-> IF tals = 1 THEN <<TaH>> ELSE IF tals = 3 THEN <<UFiles>> ELSE <<TaH, UFiles>>,
   repos |-> [r \in {Own, Far} |->
     IF r = Own THEN [up |-> TRUE, objs |-> OwnObjs(own.kind, own.n, own.t0)]
     ELSE IF view = NoView THEN [up |-> FALSE, objs |-> [x \in {"none"} |-> Obj("bin")]]
     ELSE [up |-> TRUE, objs |-> FarObjs(view.s, view.n)]]]

(* ---- the validator's copy of Far -------------------------------------------
   far: [up, s, n, w, bad]: the last w deltas are listed; bad: "", "snap",
   "delta" (the delta of serial n), "both", "gap" (the delta n is not listed),
   or "notif".  cache: [s, n, at] with the time of the last download *)
NoCache == [s |-> "", n |-> 0, at |-> 0]
View(c) == [s |-> c.s, n |-> c.n]
Chain(c, far) == /\ c.s = far.s /\ c.n < far.n /\ far.n - c.n <= far.w
                 /\ far.bad \notin {"delta", "both", "gap", "deltasess", "deltabase"}
Snapshot(far) == far.bad \notin {"snap", "both"}
Answers(far) == far.up /\ far.bad # "notif"

\* possible [view, cache] after a run at time now
Outcomes(c, far, asked, now) ==
  IF ~asked THEN {[view |-> View(c), cache |-> c]}
  ELSE IF ~Answers(far) THEN {[view |-> NoView, cache |-> c], [view |-> View(c), cache |-> c]}
  ELSE IF c.s = far.s /\ c.n = far.n THEN {[view |-> View(c), cache |-> c]}
  ELSE IF Chain(c, far) \/ Snapshot(far)
  THEN LET k == [s |-> far.s, n |-> far.n, at |-> now] IN {[view |-> View(k), cache |-> k]}
  ELSE {[view |-> NoView, cache |-> NoCache]}
\* when it need not ask
MayKeep(c, offline, now) == offline \/ (c # NoCache /\ now - c.at <= 3600)

(* ---- one run ------------------------------------------------------------------
   x: [now, far, own, tals, offline, reject, scripts (exit codes), obs], with
   obs: [rc, asked, rep, ran (the scripts that found the new content before them), early (those that found it
         published already), published (serial of Own, or 0), touched (published or saved files), found (whether
         the saved copy of Far could be read), has (whether there is one), cached (the revisions it equals)].
   What may be true so far: C, possible caches; pub, the published serial; saved, the TALs of the saved state. *)
Open(tree, x) == Clean(tree, Own) \/ x.tals = 0
\* 1000 + k: ended by signal k; 3000 + k: exit status k after a lot of output
ScriptsOk(x) == \A i \in DOMAIN x.scripts : x.scripts[i] \in {0, 3000}
\* Far is only looked at if its CA is accepted
Reached(x) == \E i \in Elems(Validate(TreeH(x.own, NoView, x.now, x.tals), 1)) : i.k = "cert" /\ i.u = Sia("T") \o "B.cer"
Possible(C, x) ==
  IF ~Reached(x) THEN {[view |-> View(c), cache |-> c] : c \in C}
  ELSE UNION {Outcomes(c, x.far, x.obs.asked, x.now) : c \in {d \in C : x.obs.asked \/ MayKeep(d, x.offline, x.now)}}

Views == {NoView} \cup {[s |-> a, n |-> b] : a \in {"A", "B"}, b \in 1..FarMax}
\* olds: earlier revisions of Own
Judge(C, pub, saved, olds, x) ==
  LET o == x.obs
      reset == x.tals # saved
      all == IF x.tals = 0 THEN {[view |-> NoView, cache |-> NoCache]}
             ELSE Possible(C \cup (IF reset THEN {NoCache} ELSE {}), x)
      said == {p \in all : x.tals = 0 \/ ReportOk(TreeH(x.own, p.view, x.now, x.tals), Own, o.rep)}
      some == IF said # {} THEN said ELSE all
      \* the outcome of validation of Own does not depend on what is seen of Far
      tree == TreeH(x.own, NoView, x.now, x.tals)
      reject == x.reject /\ ~(Open(tree, x) /\ ScriptsOk(x))
      next == {p.cache : p \in some}
      kept == {c \in next : o.found => IF c = NoCache THEN ~o.has ELSE View(c) \in Elems(o.cached)}
      \* is the report about Own as it is now, seen with some other data of Far, or about an earlier revision?
      Sees(own, v) == ReportOk(TreeH(own, v, x.now, x.tals), Own, o.rep)
      Blame == IF said # {} THEN {}
               ELSE IF \E v \in Views : Sees(x.own, v) THEN {"C20"}
               ELSE IF \E v \in Views, own \in olds : Sees(own, v) THEN {"C18"}
               ELSE {"C18", "C20"}
  IN IF x.own.n = pub
     THEN \* nothing new
          [labels |-> (IF o.rc # 0 \/ o.touched THEN {"C18"} ELSE {}), C |-> C, pub |-> pub, saved |-> saved]
     ELSE IF x.tals = 4
     THEN \* validation cannot be done
          [labels |-> IF (x.reject /\ o.rc = 0) \/ (o.rc # 0 /\ (o.touched \/ o.published # pub)) THEN {"C18"} ELSE {},
           C |-> IF o.rc # 0 THEN C ELSE C \cup {NoCache}, pub |-> o.published, saved |-> IF o.rc # 0 THEN saved ELSE 4]
     ELSE
     [labels |->
        Blame
        \cup (IF ~reject /\ o.rc = 0 /\ x.tals # 0 /\ said # {} /\ kept = {} THEN {"C20"} ELSE {})
        \cup (IF reject /\ (o.rc = 0 \/ o.published # pub \/ o.touched) THEN {"C18"} ELSE {})
        \cup (IF ~reject /\ (o.rc # 0 \/ o.published # x.own.n) THEN {"C18"} ELSE {})
        \cup (IF (x.reject => Open(tree, x)) /\ \E i \in DOMAIN x.scripts : i \notin Elems(o.ran) THEN {"C18"} ELSE {})
        \cup (IF x.reject /\ o.early # <<>> THEN {"C18"} ELSE {}),
      C |-> IF reject \/ o.rc # 0 THEN C ELSE IF kept # {} THEN kept ELSE IF next # {} THEN next ELSE C,
      pub |-> IF o.published \in {x.own.n, pub} THEN o.published ELSE x.own.n,
      saved |-> IF reject \/ o.rc # 0 THEN saved ELSE x.tals]
=============================================================================
