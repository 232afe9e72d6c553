----------------------------- MODULE KrillSync -----------------------------
(***************************************************************************)
(* The design of krill-sync: what a run does, one file system operation    *)
(* after the other, with an environment that changes the source, lets time *)
(* pass, changes options, kills runs between any two operations and makes  *)
(* any single operation fail.  All properties of KSState are evaluated at  *)
(* every step.                                                             *)
(*                                                                         *)
(* Program is the sequence of file system operations of a run, a function  *)
(* of the state in which the run starts.  The order is the one in          *)
(* process.rs, rrdp.rs, rsync.rs and file_ops.rs.  The constant Defects    *)
(* brings back defects that the code had (see DESIGN.md); the design must  *)
(* be Quiet without, and not Quiet with each of them.                      *)
(***************************************************************************)
EXTENDS KSState

CONSTANTS
  Sess, MaxSer, MaxWin, Lims, Cleans, Delays,
  MaxRuns,     \* runs in a behaviour
  MaxFaults,   \* killed or failed runs in a behaviour
  MaxTicks,
  FaultKinds,  \* subset of {"kill", "fail"}
  Mode,        \* environment actions: subset of {"reset", "back", "lim", "bad", "rsync", "host"}
  Defects      \* subset of DefectNames

DefectNames == {
  "clean-first",       \* expired RRDP files are removed before the new notification file is there
  "keep-deprecated",   \* a file in use again stays on the list of deprecated files
  "rsync-old-current", \* a revision that is current again stays on the list of old ones
  "rsync-rewrite",     \* files in an existing revision directory are rewritten
  "state-in-place",    \* state files are written in place
  "notif-in-place",    \* the notification file is written in place
  "link-remove",       \* the link is removed before the new one is made
  "persist-early",     \* state is saved before the notification file is replaced
  "shared-layout",     \* a revision directory is used with and without host directories
  "trust-state",       \* whether an update is needed is decided from the saved state only
  "chain-append" }     \* old deltas are never dropped

VARIABLES
  sst,   \* saved RRDP state; sst.ok = FALSE: none; sst.broken: unreadable
  rst,   \* saved rsync state
  todo,  \* operations that the run in progress still has to do
  top,   \* session -> highest serial so far
  cnt    \* [runs, faults, ticks]

dvars == <<vars, sst, rst, todo, top, cnt>>

-----------------------------------------------------------------------------
(* Names *)

N2S(n) == ToString(n)
SnapC(s, n) == "S" \o s \o N2S(n)
DeltaC(s, n) == "D" \o s \o N2S(n)
Dir(s, n) == s \o N2S(n)
SnapP(s, n) == Dir(s, n) \o "/s"
DeltaP(s, n) == Dir(s, n) \o "/d"
RevN(s, n, h) == "rev_" \o s \o N2S(n) \o (IF h /\ "shared-layout" \notin Defects THEN "_host" ELSE "")
ParentOf(p) == SubSeq(p, 1, Len(p) - 2)

\* Two objects: one changes with every revision, one never does
DesignObjTree(sr, h) ==
  LET s == sr.s
      n == sr.n
  IN
  IF h THEN ("h/o" :> ("o" \o s \o N2S(n))) @@ ("h/k" :> "k")
       ELSE ("o" :> ("o" \o s \o N2S(n))) @@ ("k" :> "k")
ObjSeq(s, n, h) ==
  IF h THEN <<<<"h/o", "o" \o s \o N2S(n)>>, <<"h/k", "k">>>>
       ELSE <<<<"o", "o" \o s \o N2S(n)>>, <<"k", "k">>>>

Source(s, n, w) ==
  LET ds == [i \in 1..w |-> LET k == n - w + i IN [n |-> k, p |-> DeltaP(s, k), c |-> DeltaC(s, k)]]
  IN [ok |-> TRUE, s |-> s, n |-> n, sp |-> SnapP(s, n), sc |-> SnapC(s, n), ds |-> ds, w |-> "",
      av |-> {<<SnapP(s, n), SnapC(s, n)>>} \cup {<<ds[i].p, ds[i].c>> : i \in 1..w},
      junk |-> {}, foreign |-> {}, odd |-> {}, net |-> [tls |-> "good", late |-> "good", st |-> {}],
      revdirs |-> {RevN(s, n, FALSE), RevN(s, n, TRUE)}]

NoState == [ok |-> FALSE, broken |-> FALSE, s |-> "", n |-> 0, ds |-> <<>>, depr |-> {}]
NoRst == [cur |-> <<>>, old |-> {}, broken |-> FALSE]

-----------------------------------------------------------------------------
(* The program of a run *)

Op(ch) == [k |-> "fs", ch |-> ch, nch |-> {}, lch |-> {}, torn |-> {}]
\* writing a file: it is created empty first, and a write may be cut short
WriteFile(a, s, p, c) ==
  <<Op({<<a, s, p, "empty">>}), [Op({<<a, s, p, c>>}) EXCEPT !.torn = {<<a, s, p, "torn">>}]>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Each(seq, F(_)) == Concat([i \in DOMAIN seq |-> F(seq[i])])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
When(b, seq) == IF b THEN seq ELSE <<>>

\* the source's deltas within the limit, in order (the source is sorted)
KeptDs == IF cfg.lim < 0 THEN src.ds
          ELSE SubSeq(src.ds, Len(src.ds) - (IF Len(src.ds) < cfg.lim THEN Len(src.ds) ELSE cfg.lim) + 1, Len(src.ds))

\* what is published is what the saved state says
IsPublished ==
  \/ "trust-state" \in Defects
  \/ /\ Pub.ok /\ Pub.s = sst.s /\ Pub.n = sst.n
     /\ cfg.rsync => Target(lnk, cfg.sdir) \in {"", RevN(sst.s, sst.n, cfg.host)}
SessionReset == sst.ok /\ (sst.s # src.s \/ (sst.n = src.n /\ ~IsPublished))
Highest == IF sst.ds = <<>> THEN 0 ELSE sst.ds[Len(sst.ds)].n
NewDs == IF ~sst.ok \/ SessionReset THEN KeptDs
         ELSE SelectSeq(KeptDs, LAMBDA d : sst.ds = <<>> \/ d.n > Highest)
Cutoff == IF KeptDs = <<>> THEN src.n ELSE KeptDs[1].n
HeldDs == IF ~sst.ok \/ SessionReset THEN <<>>
          ELSE IF "chain-append" \in Defects THEN sst.ds
          ELSE SelectSeq(sst.ds, LAMBDA d : d.n >= Cutoff)
AfterDs == HeldDs \o NewDs
NewNtf == [ok |-> TRUE, s |-> src.s, n |-> src.n, sp |-> src.sp, sc |-> src.sc, ds |-> AfterDs]

InStage(p, c) == <<"state", "stage", p>> \in DOMAIN fs /\ fs[<<"state", "stage", p>>] = c
Avail(p, c) == InStage(p, c) \/ Fetchable(src, cfg, p, c)
StageOne(x) == IF InStage(x[1], x[2]) THEN <<>> ELSE WriteFile("state", "stage", x[1], x[2])
Wanted == <<<<src.sp, src.sc>>>> \o [i \in DOMAIN NewDs |-> <<NewDs[i].p, NewDs[i].c>>]

MoveOne(x) ==
  When(<<cfg.rdir, "", ParentOf(x[1])>> \notin DOMAIN fs, <<Op({<<cfg.rdir, "", ParentOf(x[1]), "d">>})>>)
  \o <<Op({<<"state", "stage", x[1], "">>, <<cfg.rdir, "", x[1], x[2]>>})>>

\* the clock when a deprecation is recorded
Depr(t) ==
  LET oldfiles == IF sst.ok THEN {SnapP(sst.s, sst.n)} \cup
                      (IF SessionReset THEN {sst.ds[i].p : i \in DOMAIN sst.ds}
                       ELSE {sst.ds[i].p : i \in {j \in DOMAIN sst.ds : sst.ds[j].n < Cutoff}})
                  ELSE {}
      now == {src.sp} \cup {AfterDs[i].p : i \in DOMAIN AfterDs}
      all == {x \in sst.depr : x[2] > t - cfg.clean} \cup {<<p, t>> : p \in oldfiles}
  IN IF "keep-deprecated" \in Defects THEN all ELSE {x \in all : x[1] \notin now}
Expired(t) ==
  LET now == {src.sp} \cup {AfterDs[i].p : i \in DOMAIN AfterDs}
      old == {x[1] : x \in {y \in sst.depr : y[2] <= t - cfg.clean}}
  IN IF "keep-deprecated" \in Defects \/ "clean-first" \in Defects THEN old ELSE old \ now
\* a directory is removed with its last file
CleanOps(t) ==
  Each(SeqOf({p \in Expired(t) : <<cfg.rdir, "", p>> \in DOMAIN fs}),
       LAMBDA p : <<[k |-> "rm", p |-> p]>>)

RsyncOps ==
  LET rev == RevN(src.s, src.n, cfg.host)
      have(p, c) == "rsync-rewrite" \notin Defects /\ <<cfg.sdir, rev, p>> \in DOMAIN fs /\ fs[<<cfg.sdir, rev, p>>] = c
      curT == Target(lnk, cfg.sdir)
      me == <<src.s, src.n, cfg.host>>
      old0 == {IF RevN(x[1][1], x[1][2], x[1][3]) = curT THEN <<x[1], clock>> ELSE x : x \in rst.old}
      old1 == IF "rsync-old-current" \in Defects THEN rst.old ELSE {x \in old0 : x[1] # me}
      old2 == old1 \cup (IF rst.cur # <<>> /\ (rst.cur # me \/ "rsync-old-current" \in Defects) THEN {<<rst.cur, clock>>} ELSE {})
      gone == {x \in old2 : x[2] <= clock - cfg.clean}
      rmrev(x) == LET r == RevN(x[1][1], x[1][2], x[1][3])
                  IN Each(SeqOf({k[3] : k \in {q \in DOMAIN fs : InRev(q, cfg.sdir, r) /\ q[3] # ""}}),
                          LAMBDA p : <<Op({<<cfg.sdir, r, p, "">>})>>)
                     \o When(<<cfg.sdir, r, "">> \in DOMAIN fs, <<Op({<<cfg.sdir, r, "", "">>})>>)
  IN When(<<cfg.sdir, rev, "">> \notin DOMAIN fs, <<Op({<<cfg.sdir, rev, "", "d">>})>>)
     \o Each(ObjSeq(src.s, src.n, cfg.host), LAMBDA x : IF have(x[1], x[2]) THEN <<>> ELSE WriteFile(cfg.sdir, rev, x[1], x[2]))
     \o (IF "link-remove" \in Defects
         THEN When(curT # "", <<[Op({<<cfg.sdir, "current", "", "">>}) EXCEPT !.lch = {<<cfg.sdir, "">>}]>>)
              \o <<[Op({<<cfg.sdir, "current", "", "l">>}) EXCEPT !.lch = {<<cfg.sdir, rev>>}]>>
         ELSE When(<<cfg.sdir, "current.tmp", "">> \in DOMAIN fs, <<Op({<<cfg.sdir, "current.tmp", "", "">>})>>)
              \o <<Op({<<cfg.sdir, "current.tmp", "", "l">>}),
                   [Op({<<cfg.sdir, "current.tmp", "", "">>, <<cfg.sdir, "current", "", "l">>}) EXCEPT !.lch = {<<cfg.sdir, rev>>}]>>)
     \o Each(SeqOf(gone), rmrev)
     \o When("state-in-place" \in Defects, <<[k |-> "rst", v |-> [NoRst EXCEPT !.broken = TRUE]]>>)
     \o <<[k |-> "rst", v |-> [cur |-> me, old |-> old2 \ gone, broken |-> FALSE]]>>

NtfOps ==
  LET bad == [NoNtf EXCEPT !.n = 0]
      key == <<cfg.rdir, "", cfg.nname>>
      tmp == <<cfg.rdir, "", cfg.nname \o ".tmp">>
      c == "N" \o src.s \o N2S(src.n)
      put(ch, n) == [Op(ch) EXCEPT !.nch = {<<cfg.rdir, cfg.nname, n>>}]
  IN IF "notif-in-place" \in Defects
     THEN <<put({<<key[1], key[2], key[3], "empty">>}, bad), put({<<key[1], key[2], key[3], c>>}, NewNtf)>>
     ELSE WriteFile(tmp[1], tmp[2], tmp[3], c)
          \o <<put({<<tmp[1], tmp[2], tmp[3], "">>, <<key[1], key[2], key[3], c>>}, NewNtf)>>

\* (the delay before the notification file is replaced is a "sleep")
Program ==
  IF sst.broken \/ rst.broken THEN <<[k |-> "end", rc |-> 1]>>
  ELSE IF ~src.ok \/ ~GapFree(KeptDs, DOMAIN KeptDs) THEN <<[k |-> "end", rc |-> 1]>>
  ELSE IF Pub.ok /\ Pub.s = src.s /\ Pub.n > src.n /\ "trust-state" \notin Defects THEN <<[k |-> "end", rc |-> 1]>>
  ELSE IF sst.ok /\ sst.s = src.s /\ sst.n = src.n /\ IsPublished THEN <<[k |-> "end", rc |-> 0]>>
  ELSE IF sst.ok /\ sst.s = src.s /\ sst.n > src.n THEN <<[k |-> "end", rc |-> 1]>>
  ELSE IF \E i \in DOMAIN Wanted : ~Avail(Wanted[i][1], Wanted[i][2])
  THEN LET i == CHOOSE j \in DOMAIN Wanted : /\ ~Avail(Wanted[j][1], Wanted[j][2])
                                             /\ \A m \in 1..(j - 1) : Avail(Wanted[m][1], Wanted[m][2])
       IN Each(SubSeq(Wanted, 1, i - 1), StageOne) \o <<[k |-> "end", rc |-> 1]>>
  ELSE LET persist ==
             When("state-in-place" \in Defects, <<[k |-> "sst", v |-> [NoState EXCEPT !.broken = TRUE]]>>)
             \o <<[k |-> "sst", v |-> [ok |-> TRUE, broken |-> FALSE, s |-> src.s, n |-> src.n, ds |-> AfterDs, depr |-> Depr(clock)]]>>
       IN Each(Wanted, StageOne)
          \o When("clean-first" \in Defects, CleanOps(clock))
          \o Each(Wanted, MoveOne)
          \o When(cfg.rsync, RsyncOps)
          \o When(cfg.delay > 0, <<[k |-> "sleep", v |-> cfg.delay]>>)
          \o When("persist-early" \in Defects, persist)
          \o NtfOps
          \o When("clean-first" \notin Defects, CleanOps(clock))
          \o When("persist-early" \notin Defects, persist)
          \o <<[k |-> "end", rc |-> 0]>>

-----------------------------------------------------------------------------
(* Steps *)

DInit ==
  /\ InitObs
  /\ clock = 100
  /\ \E w \in 0..1 : src = Source("A", 1, w)
  /\ \E l \in Lims, c \in Cleans, d \in Delays :
       cfg = [lim |-> IF l = 99 THEN 0 - 1 ELSE l, clean |-> c, delay |-> d, rsync |-> TRUE, host |-> FALSE,
              rdir |-> "rrdp", sdir |-> "rsync", nname |-> "N", uhost |-> "h", base |-> "b/",
              via |-> "file", sbase |-> "file:", shost |-> "", insecure |-> FALSE, net |-> FALSE]
  /\ sst = NoState /\ rst = NoRst /\ todo = <<>>
  /\ top = [s \in Sess |-> IF s = "A" THEN 1 ELSE 0]
  /\ cnt = [runs |-> 0, faults |-> 0, ticks |-> 0]

Start ==
  /\ ~run.on /\ cnt.runs < MaxRuns
  /\ BeginRun("none")
  /\ todo' = Program
  /\ cnt' = [cnt EXCEPT !.runs = @ + 1]
  /\ UNCHANGED <<sst, rst, top>>

\* removal of an RRDP file, and of its directory when it is the last one
RmCh(p) ==
  LET d == ParentOf(p)
      others == {k \in DOMAIN fs : k[1] = cfg.rdir /\ k[3] \in {d \o "/s", d \o "/d"} \ {p}}
  IN <<{<<cfg.rdir, "", p, "">>}, others = {}>>

StepFs(op) ==
  CASE op.k = "fs" -> /\ FsStep(op.ch, op.nch, op.lch, FALSE, {})
                      /\ UNCHANGED <<sst, rst>>
                      /\ todo' = Tail(todo)
    [] op.k = "rm" -> /\ FsStep(RmCh(op.p)[1], {}, {}, FALSE, {})
                      /\ UNCHANGED <<sst, rst>>
                      /\ todo' = IF RmCh(op.p)[2]
                                 THEN <<Op({<<cfg.rdir, "", ParentOf(op.p), "">>})>> \o Tail(todo)
                                 ELSE Tail(todo)
    [] op.k = "sst" -> /\ sst' = op.v /\ viol' = {} /\ todo' = Tail(todo)
                       /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, run, hist, rst>>
    [] op.k = "rst" -> /\ rst' = op.v /\ viol' = {} /\ todo' = Tail(todo)
                       /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, run, hist, sst>>
    [] op.k = "sleep" -> /\ clock' = clock + op.v /\ viol' = {} /\ todo' = Tail(todo)
                         /\ UNCHANGED <<src, cfg, fs, ntf, lnk, run, hist, sst, rst>>

EmptyDirs ==
  {k \in DOMAIN fs : /\ k[1] = cfg.rdir /\ fs[k] = "d"
                     /\ ~\E q \in DOMAIN fs : q[1] = cfg.rdir /\ q[3] \in {k[3] \o "/s", k[3] \o "/d"}}

Dead == todo # <<>> /\ Head(todo).k = "dead"
RunStep ==
  /\ run.on /\ todo # <<>> /\ ~Dead
  /\ IF Head(todo).k = "end"
     THEN EndRun(Head(todo).rc, EmptyDirs) /\ todo' = <<>> /\ UNCHANGED <<sst, rst>>
     ELSE StepFs(Head(todo))
  /\ UNCHANGED <<top, cnt>>

\* a write is cut short by the kill that follows, or by the fault
Torn ==
  /\ run.on /\ todo # <<>> /\ Head(todo).k = "fs" /\ Head(todo).torn # {}
  /\ cnt.faults < MaxFaults
  /\ FsStep(Head(todo).torn, {}, {}, FALSE, {})
  /\ todo' = <<[k |-> "dead"]>>
  /\ UNCHANGED <<sst, rst, top, cnt>>

Kill ==
  /\ run.on /\ todo # <<>> /\ "kill" \in FaultKinds
  /\ cnt.faults < MaxFaults /\ (Dead \/ Head(todo).k # "end")
  /\ KillRun /\ todo' = <<>>
  /\ cnt' = [cnt EXCEPT !.faults = @ + 1]
  /\ UNCHANGED <<sst, rst, top>>

\* an operation fails: the run ends with an error
Fail ==
  /\ run.on /\ todo # <<>> /\ "fail" \in FaultKinds
  /\ cnt.faults < MaxFaults /\ (Dead \/ Head(todo).k # "end")
  /\ run.fault = "none"
  /\ run' = [run EXCEPT !.fault = "fail"]
  /\ todo' = <<[k |-> "end", rc |-> 1]>>
  /\ viol' = {}
  /\ cnt' = [cnt EXCEPT !.faults = @ + 1]
  /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, hist, sst, rst, top>>

\* The environment acts between runs
SetSrc(r) ==
  /\ src' = r /\ viol' = {}
  /\ UNCHANGED <<cfg, clock, fs, ntf, lnk, run, hist, sst, rst, todo, cnt>>

More == ~run.on /\ cnt.runs < MaxRuns /\ cnt.runs > 0

Advance == \E k \in {1, 2}, w \in 0..MaxWin :
  /\ More /\ src.ok /\ src.n + k <= MaxSer /\ w <= src.n + k
  /\ SetSrc(Source(src.s, src.n + k, w))
  /\ top' = [top EXCEPT ![src.s] = MaxOf({@, src.n + k})]
Reset == \E s \in Sess \ {src.s}, k \in {0, 1}, w \in 0..MaxWin :
  LET n == IF top[s] = 0 THEN 1 ELSE top[s] + k IN
  /\ More /\ "reset" \in Mode /\ n <= MaxSer /\ w <= n
  /\ SetSrc(Source(s, n, w)) /\ top' = [top EXCEPT ![s] = MaxOf({@, n})]
Rollback == \E n \in 1..(MaxSer - 1) :
  /\ More /\ "back" \in Mode /\ n < src.n
  /\ SetSrc(Source(src.s, n, IF n > 1 THEN 1 ELSE 0)) /\ UNCHANGED top
\* a file is missing, or there is a gap in the deltas, or no notification file
Break == \E x \in {"snap", "delta", "ntf", "gap"} :
  /\ More /\ "bad" \in Mode /\ src.ok
  /\ CASE x = "snap" -> SetSrc([src EXCEPT !.av = {y \in @ : y[2] # src.sc}])
       [] x = "delta" -> src.ds # <<>> /\ SetSrc([src EXCEPT !.av = {y \in @ : y[2] # src.ds[Len(src.ds)].c}])
       [] x = "ntf" -> SetSrc([src EXCEPT !.ok = FALSE])
       [] x = "gap" -> Len(src.ds) >= 3 /\ SetSrc([src EXCEPT !.ds = <<@[1]>> \o SubSeq(@, 3, Len(@))])
  /\ UNCHANGED top
Repair ==
  /\ More /\ "bad" \in Mode
  /\ LET r == Source(src.s, src.n, IF src.n > 1 THEN 2 ELSE 1) IN src # r /\ SetSrc(r)
  /\ UNCHANGED top
Tick ==
  /\ More /\ cnt.ticks < MaxTicks
  /\ \E t \in {1, cfg.clean} : t > 0 /\ clock' = clock + t
  /\ viol' = {} /\ cnt' = [cnt EXCEPT !.ticks = @ + 1]
  /\ UNCHANGED <<src, cfg, fs, ntf, lnk, run, hist, sst, rst, todo, top>>
\* saved state is lost or damaged
Lose == \E h \in {"lost", "hurt"}, w \in {{"rrdp"}, {"rsync"}, {"rrdp", "rsync"}} :
  /\ More /\ "lose" \in Mode /\ cnt.faults < MaxFaults
  /\ (h = "lost" /\ hist.hurt) => w = {"rrdp", "rsync"}
  /\ Wreck(h, {})
  /\ sst' = IF "rrdp" \notin w THEN sst ELSE IF h = "lost" THEN NoState ELSE [sst EXCEPT !.broken = TRUE]
  /\ rst' = IF "rsync" \notin w THEN rst ELSE IF h = "lost" THEN NoRst ELSE [rst EXCEPT !.broken = TRUE]
  /\ cnt' = [cnt EXCEPT !.faults = @ + 1]
  /\ UNCHANGED <<todo, top>>
SetCfg ==
  /\ More
  /\ \/ /\ "lim" \in Mode /\ \E l \in Lims : cfg' = [cfg EXCEPT !.lim = IF l = 99 THEN 0 - 1 ELSE l]
     \/ /\ "host" \in Mode /\ cfg' = [cfg EXCEPT !.host = ~@]
     \/ /\ "rsync" \in Mode /\ cfg' = [cfg EXCEPT !.rsync = ~@]
  /\ cfg' # cfg /\ viol' = {}
  /\ UNCHANGED <<src, clock, fs, ntf, lnk, run, hist, sst, rst, todo, top, cnt>>

DNext == Start \/ RunStep \/ Torn \/ Kill \/ Fail \/ Advance \/ Reset \/ Rollback \/ Break \/ Repair
         \/ Tick \/ SetCfg \/ Lose
DSpec == DInit /\ [][DNext]_dvars

\* runs end: with weak fairness a started run finishes unless it is killed
Ends == run.on ~> ~run.on
FairSpec == DSpec /\ WF_dvars(RunStep \/ Fail \/ Kill)
=============================================================================
