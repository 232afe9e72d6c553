------------------------------ MODULE KSState ------------------------------
(***************************************************************************)
(* The observable state of krill-sync and the properties of its behaviour. *)
(*                                                                         *)
(* This module is the single source of truth for the properties.  It is    *)
(* extended by                                                             *)
(*   KrillSync.tla - the implementation-shaped design (TLC explores every  *)
(*                   interleaving of runs, crashes, faults and source      *)
(*                   changes within bounds), and                           *)
(*   KSTrace.tla   - the trace specification (TLC evaluates the recorded   *)
(*                   executions of the real program).                      *)
(*                                                                         *)
(* Every step that changes files, of the design or recorded from the real  *)
(* program, goes through FsStep; every end of a run through EndRun.  They  *)
(* update the history variables and put the labels of all properties that  *)
(* the step breaks into viol.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT ObjTree(_, _)   \* (source, host option) -> [path -> content]

VARIABLES
  src,    \* the source: what it serves right now
  cfg,    \* the configuration of the next / current run
  clock,  \* wall clock in seconds
  fs,     \* <<area, sub, rel>> -> content;  "d" is a directory
  ntf,    \* <<rrdp dir, name>> -> parsed notification file
  lnk,    \* rsync dir -> target of `current`
  run,    \* bookkeeping for the run in progress
  hist,   \* history, see InitHist
  viol    \* labels of the properties broken by the last step

vars == <<src, cfg, clock, fs, ntf, lnk, run, hist, viol>>

-----------------------------------------------------------------------------
(* Generic helpers *)

Range(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(b, label) == IF b THEN {label} ELSE {}

-----------------------------------------------------------------------------
(* The source.  A record                                                   *)
(*   ok    the notification file is there and well-formed                  *)
(*   s, n  session and serial, sp, sc  path and content of the snapshot    *)
(*   ds    sequence of [n, p, c]: the listed deltas, path and content that *)
(*         the listed hash stands for.  A path "!..." is not under the     *)
(*         base URI.                                                       *)
(*   av    set of <<path, content>> that can be fetched                    *)
(*   foreign  listed paths that are not under the base URI                 *)
(*   odd   listed paths that are not plain relative paths                  *)
(*   revdirs names of the revision's rsync directory                       *)
(*   w     which world of objects this is                                  *)
(*   junk  contents that are not well-formed snapshot or delta files       *)
(*   net   how the source's server behaves: [tls, late, st], the kind of   *)
(*         its certificate until and after the notification file was       *)
(*         requested, and the set of <<path, status>> with another answer  *)
(*         than 200 (0: the connection breaks)                             *)
(*                                                                         *)
(* The configuration says how the source is reached: cfg.via is "file" (a  *)
(* local directory), "base" (an https base URI) or "direct" (each file at  *)
(* its own URI).                                                           *)

NoNtf == [ok |-> FALSE, s |-> "", n |-> 0, sp |-> "", sc |-> "", ds |-> <<>>]

\* the deltas within the limit (limit < 0: no limit), as a set of indices:
\* those for which fewer than `limit' others come later
Later(ds, i) == {j \in DOMAIN ds : ds[j].n > ds[i].n \/ (ds[j].n = ds[i].n /\ j > i)}
Retained(ds, limit) ==
  IF limit < 0 THEN DOMAIN ds ELSE {i \in DOMAIN ds : Cardinality(Later(ds, i)) < limit}

Serials(ds, I) == {ds[i].n : i \in I}
GapFree(ds, I) ==
  LET S == Serials(ds, I) IN
  /\ Cardinality(S) = Cardinality(I)
  /\ S = {} \/ Cardinality(S) = MaxOf(S) - MinOf(S) + 1

\* the location that a path is mapped to
Tail1(p) == SubSeq(p, 2, Len(p))
Loc(c, p) == IF c.via = "direct" THEN "https://" \o c.uhost \o "/" \o c.base \o p ELSE c.sbase \o p
\* all that a run may read from the source
Listed(sr) == {sr.sp} \cup {sr.ds[i].p : i \in DOMAIN sr.ds}
Allowed(sr, c) ==
  {Loc(c, c.nname)}
  \cup (IF sr.ok THEN {Loc(c, p) : p \in Listed(sr) \ sr.foreign} ELSE {})
  \cup (IF sr.ok /\ c.via = "direct" THEN {Tail1(p) : p \in sr.foreign} ELSE {})

\* without --insecure only a trusted certificate for the right host will do
TlsOk(k, c) == c.via = "file" \/ k = "good" \/ (c.insecure /\ k \notin {"down", "stall"})
Answer(sr, c, p) ==
  IF c.via # "file" /\ \E x \in sr.net.st : x[1] = p
  THEN (CHOOSE x \in sr.net.st : x[1] = p)[2] ELSE 200
NotifTls(sr, c) == TlsOk(sr.net.tls, c)
FilesTls(sr, c) == TlsOk(sr.net.late, c)

Fetchable(sr, c, p, x) ==
  /\ <<p, x>> \in sr.av /\ x \notin sr.junk /\ p \notin sr.foreign
  /\ FilesTls(sr, c) /\ Answer(sr, c, p) = 200

\* further properties that a violation is one of, if the source is remote
NetLabels(sr, c) ==
  If(c.net, "C17") \cup If(c.via # "file" /\ (c.insecure \/ sr.net.tls # "good" \/ sr.net.late # "good"), "C22")

\* content that an earlier run already fetched may be used instead
Held(f, c) == \E k \in DOMAIN f : f[k] = c

AllFetchable(sr, c) ==
  /\ Fetchable(sr, c, sr.sp, sr.sc) /\ sr.sp \notin sr.odd
  /\ \A i \in Retained(sr.ds, c.lim) : Fetchable(sr, c, sr.ds[i].p, sr.ds[i].c) /\ sr.ds[i].p \notin sr.odd

\* What a run must do, given what is published (pub, NoNtf if nothing is)
Needed(sr, pub, limit) ==
  {i \in Retained(sr.ds, limit) : ~pub.ok \/ pub.s # sr.s \/ sr.ds[i].n > pub.n}

\* calm: no run was killed or failed since the last successful one.  After a
\* killed run a run may have to fetch files again although nothing changed.
Plan(sr, pub, c, f, calm) ==
  IF ~NotifTls(sr, c) THEN "bad"
  ELSE IF Answer(sr, c, c.nname) = 304 THEN "nochange"
  ELSE IF ~sr.ok \/ Answer(sr, c, c.nname) # 200 THEN "bad"
  ELSE IF ~GapFree(sr.ds, Retained(sr.ds, c.lim))
       THEN IF pub.ok /\ pub.s = sr.s /\ pub.n = sr.n THEN "either" ELSE "bad"
  ELSE IF pub.ok /\ pub.s = sr.s /\ pub.n = sr.n /\ (calm \/ AllFetchable(sr, c)) THEN "same"
  ELSE IF pub.ok /\ pub.s = sr.s /\ pub.n = sr.n THEN "either"
  ELSE IF pub.ok /\ pub.s = sr.s /\ pub.n > sr.n THEN "back"
  ELSE LET Bad(p, x)  == ~Fetchable(sr, c, p, x)
           Must(p, x) == Bad(p, x) /\ p \notin sr.odd /\ (p \in sr.foreign \/ x \in sr.junk \/ ~Held(f, x))
       IN IF \/ Must(sr.sp, sr.sc)
             \/ \E i \in Needed(sr, pub, c.lim) : Must(sr.ds[i].p, sr.ds[i].c)
          THEN "bad"
          ELSE IF \/ Bad(sr.sp, sr.sc) \/ sr.sp \in sr.odd
                  \/ \E i \in Retained(sr.ds, c.lim) : Bad(sr.ds[i].p, sr.ds[i].c) \/ sr.ds[i].p \in sr.odd
          THEN "either"
          ELSE "update"

-----------------------------------------------------------------------------
(* Views of the state *)

Get(n, k) == IF k \in DOMAIN n THEN n[k] ELSE NoNtf
PubKey(c) == <<c.rdir, c.nname>>
Pub == Get(ntf, PubKey(cfg))

Has(f, rd, p, c) == <<rd, "", p>> \in DOMAIN f /\ f[<<rd, "", p>>] = c
Intact(f, rd, n) ==
  /\ n.ok
  /\ Has(f, rd, n.sp, n.sc)
  /\ \A i \in DOMAIN n.ds : Has(f, rd, n.ds[i].p, n.ds[i].c)
ListedPaths(n) == IF n.ok THEN {n.sp} \cup {n.ds[i].p : i \in DOMAIN n.ds} ELSE {}
ListedKeys(rd, n) == {<<rd, "", p>> : p \in ListedPaths(n)}
AllListed(nn) == UNION {ListedKeys(k[1], nn[k]) : k \in DOMAIN nn}

Target(l, sd) == IF sd \in DOMAIN l THEN l[sd] ELSE ""
InRev(k, sd, rev) == k[1] = sd /\ k[2] = rev
Tree(f, sd, rev) ==
  LET ks == {k \in DOMAIN f : InRev(k, sd, rev) /\ k[3] # "" /\ f[k] # "d"}
  IN  [p \in {k[3] : k \in ks} |-> f[<<sd, rev, p>>]]
DirThere(f, sd, rev) == <<sd, rev, "">> \in DOMAIN f
EqF(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
\* `current' resolves to a directory with exactly the objects of the source
Serves(f, l, sd, sr, h) ==
  /\ Target(l, sd) # "" /\ DirThere(f, sd, Target(l, sd))
  /\ EqF(Tree(f, sd, Target(l, sd)), ObjTree(sr, h))

-----------------------------------------------------------------------------
(* History *)

InitHist == [
  seen     |-> {},     \* notification files that have existed
  unl      |-> <<>>,   \* rrdp file -> time it was taken off the published list
  ours     |-> {},     \* files that runs created
  repl     |-> <<>>,   \* <<rsync dir, revision>> -> [t, tree]: was current
  ever     |-> {},     \* rsync dirs that had a `current'
  dirty    |-> FALSE,  \* some run was killed or failed after changing something
  last     |-> "ok",   \* how the last run ended: ok, kill, fault, bad; or what
                       \* became of the saved state since: lost, hurt, stale
  hurt     |-> FALSE,  \* some of what is saved is damaged
  wreck    |-> FALSE,  \* the saved state was lost, damaged or set back at some time
  rev      |-> NoNtf,  \* revision of the last successful update
  pcfg     |-> <<>>,   \* configuration of the last successful update
  intr     |-> FALSE,  \* a second instance was started during a run
  scfg     |-> <<>>,   \* configuration of the last successful run
  moved    |-> FALSE,  \* rrdp dir / notification URI changed at some point
  shut     |-> {},     \* files and directories that not all can read who should
  smoved   |-> FALSE,  \* rsync dir changed at some point
  odd      |-> FALSE ] \* the last run met a server that does not answer properly

Idle == [on |-> FALSE, plan |-> "none", pub |-> NoNtf, cur |-> <<>>, curthere |-> FALSE,
         t0 |-> 0, fault |-> "none", subs |-> {}, unl |-> <<>>, repl |-> <<>>,
         chg |-> FALSE, curt |-> ""]

InitObs ==
  /\ fs = <<>> /\ ntf = <<>> /\ lnk = <<>> /\ run = Idle /\ hist = InitHist /\ viol = {}

\* A run begins.  fault: "none", "kill" (will be killed), "fail" (some call
\* fails), "sticky"
BeginRun(fault) ==
  /\ ~run.on
  /\ run' = [on |-> TRUE, pub |-> Pub,
             plan |-> LET p == Plan(src, Pub, cfg, fs, hist.last \in {"ok", "bad"})
                      IN IF hist.hurt /\ p \in {"same", "update"} THEN "either" ELSE p,
             cur |-> Tree(fs, cfg.sdir, Target(lnk, cfg.sdir)),
             curthere |-> cfg.sdir \in hist.ever,
             curt |-> Target(lnk, cfg.sdir),
             t0 |-> clock, fault |-> fault,
             \* not: what an earlier run left unfinished
             subs |-> {d \in {k[2] : k \in {x \in DOMAIN fs : x[1] = cfg.sdir}} :
                         \/ <<cfg.sdir, d, "">> \notin hist.ours
                         \/ <<cfg.sdir, d>> \in DOMAIN hist.repl \/ Target(lnk, cfg.sdir) = d},
             unl |-> hist.unl, repl |-> hist.repl, chg |-> FALSE]
  /\ viol' = {}
  /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, hist>>

-----------------------------------------------------------------------------
(* File system steps.  ch: set of <<area, sub, rel, content>>, content "" for
   removal; nch: set of <<rrdp dir, name, record>> (record.ok = FALSE and
   record.n = -1 for removal); lch: set of <<rsync dir, target>>; out: the
   step touched something outside the observed tree; shut: those of the changed
   files and directories that are not accessible for all whom the process's
   umask would let read them *)

Key(x) == <<x[1], x[2], x[3]>>
ApplyFs(f, ch) ==
  LET gone == {Key(x) : x \in {y \in ch : y[4] = ""}}
      news == {y \in ch : y[4] # ""}
      nk   == {Key(x) : x \in news}
  IN [k \in (DOMAIN f \ gone) \cup nk |->
        IF k \in nk THEN (CHOOSE x \in news : Key(x) = k)[4] ELSE f[k]]
ApplyNtf(n, nch) ==
  LET gone == {<<x[1], x[2]>> : x \in {y \in nch : y[3].n < 0}}
      news == {y \in nch : y[3].n >= 0}
      nk   == {<<x[1], x[2]>> : x \in news}
  IN [k \in (DOMAIN n \ gone) \cup nk |->
        IF k \in nk THEN (CHOOSE x \in news : <<x[1], x[2]>> = k)[3] ELSE n[k]]
ApplyLnk(l, lch) ==
  LET k == {x[1] : x \in lch}
  IN [s \in DOMAIN l \cup k |-> IF s \in k THEN (CHOOSE x \in lch : x[1] = s)[2] ELSE l[s]]

\* C03: the published chain
SameDelta(d, e) == d.n = e.n /\ d.p = e.p /\ d.c = e.c
ChainOk(n, sr, limit, prev) ==
  LET S == {n.ds[i].n : i \in DOMAIN n.ds}
      R == Retained(sr.ds, limit)
  IN /\ GapFree(n.ds, DOMAIN n.ds)
     /\ limit >= 0 => Len(n.ds) <= limit
     /\ \A i \in DOMAIN n.ds : \E j \in R : SameDelta(n.ds[i], sr.ds[j])
     /\ \A j \in R : \/ prev.ok /\ prev.s = sr.s /\ sr.ds[j].n <= prev.n
                        /\ ~\E i \in DOMAIN prev.ds : SameDelta(prev.ds[i], sr.ds[j])
                     \/ sr.ds[j].n \in S
     /\ (sr.n \in Serials(sr.ds, R)) => (sr.n \in S)

\* C02 and C21: what is published is the source's revision
Mirrors(f, rd, n, sr) ==
  /\ n.ok /\ n.s = sr.s /\ n.n = sr.n /\ n.sp = sr.sp /\ n.sc = sr.sc
  /\ Intact(f, rd, n)
  /\ \A i \in DOMAIN n.ds : \E j \in DOMAIN sr.ds : SameDelta(n.ds[i], sr.ds[j])

\* the options that say what is written where are those of the last
\* successful run
SameOut ==
  hist.scfg # <<>> /\ [hist.scfg EXCEPT !.lim = cfg.lim, !.clean = cfg.clean, !.delay = cfg.delay] = cfg

\* C25: what must also hold if the saved state was lost, damaged or set back
Wrecked(labels) ==
  labels \cup If(hist.wreck /\ labels \cap {"C01", "C02", "C03", "C04", "C05", "C11", "C12", "C16", "C23"} # {}, "C25")

Above(d, p) == d = "" \/ (Len(p) > Len(d) /\ SubSeq(p, 1, Len(d) + 1) = d \o "/")
Joined(a, r) == IF r = "" THEN a ELSE a \o "/" \o r

FsStep(ch, nch, lch, out, shut) ==
  LET f2   == ApplyFs(fs, ch)
      n2   == ApplyNtf(ntf, nch)
      l2   == ApplyLnk(lnk, lch)
      key  == PubKey(cfg)
      rd   == cfg.rdir
      sd   == cfg.sdir
      p1   == Pub
      p2   == Get(n2, key)
      \* touched keys, by kind
      tk   == {Key(x) : x \in ch}
      files == {x \in ch : x[4] # "d"}
      changed == {k \in tk : k \in DOMAIN fs /\ fs[k] # "d" /\ (k \notin DOMAIN f2 \/ f2[k] # fs[k])}
      inr  == {k \in tk : k[1] \in {q[1] : q \in DOMAIN n2} \cup {rd}}
      ins  == {k \in tk : k[1] = sd}
      t1   == Target(lnk, sd)
      t2   == Target(l2, sd)
      old  == IF p1.ok THEN ListedKeys(rd, p1) ELSE {}
      new  == IF p2.ok THEN ListedKeys(rd, p2) ELSE {}
      unl2 == [k \in (DOMAIN hist.unl \cup old) \ new |-> IF k \in DOMAIN hist.unl THEN hist.unl[k] ELSE clock]
      repl2 == IF t1 # t2 /\ t1 # ""
               THEN Without(With(hist.repl, <<sd, t1>>, [t |-> clock, tree |-> Tree(fs, sd, t1)]), {<<sd, t2>>})
               ELSE Without(hist.repl, {<<sd, t2>>})
      creates == {k \in tk : k \notin DOMAIN fs}
      v01 == If(key \in hist.seen \cup DOMAIN n2 /\ ~(key \in DOMAIN n2 /\ Intact(f2, rd, p2)), "C01")
      v03 == If(p2.ok /\ p2 # p1 /\ ~ChainOk(p2, src, cfg.lim, p1), "C03")
      v04 == If(p1.ok /\ p2.ok /\ p1.s = p2.s /\ p2.n < p1.n, "C04")
      untouched == /\ p2 = p1
                   /\ changed \cap ListedKeys(rd, p1) = {}
                   /\ t1 = t2
                   /\ t1 # "" => ~\E k \in tk : InRev(k, sd, t1)
      v05 == IF run.plan = "bad" /\ ~untouched THEN {"C05"} \cup NetLabels(src, cfg) ELSE If(run.plan = "back" /\ ~untouched, "C04")
      v17 == If(run.plan = "nochange" /\ (\E k \in tk : k[1] \in {rd, sd}), "C17")
      v06 == If(\E k \in changed : /\ k \in DOMAIN hist.unl
                                   /\ clock < hist.unl[k] + cfg.clean - cfg.delay, "C06")
      v07 == If(\E k \in changed : /\ k \in inr
                                   /\ \/ k \notin hist.ours
                                      \/ (k \notin DOMAIN f2 /\ k \in AllListed(n2)), "C07")
      v08 == If(run.plan = "same" /\ SameOut /\ hist.last \in {"ok", "bad"} /\ run.fault = "none"
                /\ (\E k \in tk : k[1] \in {rd, sd}), "C08")
      v11 == If(\/ sd \in hist.ever /\ t2 = ""
                \/ /\ t2 # "" /\ t2 = t1 /\ \E k \in tk : InRev(k, sd, t1)
                \/ /\ t2 # "" /\ t2 # t1
                   /\ ~(run.curthere /\ t2 = run.curt /\ EqF(Tree(f2, sd, t2), run.cur))
                   /\ ~\E h \in BOOLEAN : Serves(f2, l2, sd, src, h)
                \/ t2 # "" /\ ~DirThere(f2, sd, t2), "C11")
      v12 == If(~cfg.rsync /\ ins # {}, "C12")
      v13 == If(\E r \in DOMAIN hist.repl :
                   /\ clock < hist.repl[r].t + cfg.clean
                   /\ \E k \in tk : InRev(k, r[1], r[2])
                   /\ r # <<sd, t2>>
                   /\ ~(DirThere(f2, r[1], r[2]) /\ EqF(Tree(f2, r[1], r[2]), hist.repl[r].tree)), "C13")
             \cup If(t2 # "" /\ ~DirThere(f2, sd, t2), "C13")
      \* directories in which the others are
      MayBeAbove(x) == x[4] = "d" /\ \E a \in {rd, sd, "state"} : Above(Joined(x[1], x[3]), a)
      v21 == If(hist.pcfg # <<>> /\ hist.pcfg # cfg
                /\ (out \/ \E x \in ch : x[4] # "" /\ x[1] \notin {"state", rd, sd} /\ ~MayBeAbove(x)), "C21")
      \* C24: all that is published can be read
      shut2 == (hist.shut \ tk) \cup shut
      v24 == If(\E k \in shut2 :
                   \/ p2.ok /\ k[1] = rd /\ (\E q \in ListedPaths(p2) \cup {cfg.nname} : k[3] = q \/ Above(k[3], q))
                   \/ (p2.ok \/ t2 # "") /\ k[2] = "" /\ (\E a \in {rd} \cup If(t2 # "", sd) : Above(Joined(k[1], k[3]), a \o "/"))
                   \/ t2 # "" /\ InRev(k, sd, t2), "C24")
      dirs == {q[1] : q \in hist.seen} \cup hist.ever      \* of earlier runs
      v16 == If(out \/ \E x \in ch : x[1] \notin {"state", rd, sd} /\ ~(x[4] = "" /\ x[1] \in dirs) /\ ~MayBeAbove(x), "C16")
             \cup If(\E x \in ch : /\ x[1] = sd /\ x[4] # "" /\ x[4] # "d" /\ x[4] # "l"
                                   /\ \/ x[3] = "" /\ x[2] \notin {"current", "current.tmp"}
                                      \/ x[2] \in run.subs /\ x[2] \notin src.revdirs, "C16")
  IN /\ fs' = f2 /\ ntf' = n2 /\ lnk' = l2
     /\ hist' = [hist EXCEPT !.seen = @ \cup DOMAIN n2, !.unl = unl2,
                             !.ours = @ \cup creates, !.repl = repl2,
                             !.ever = IF t2 # "" THEN @ \cup {sd} ELSE @,
                             !.shut = shut2]
     /\ run' = [run EXCEPT !.chg = TRUE]
     /\ viol' = Wrecked(v01 \cup v03 \cup v04 \cup v05 \cup v17 \cup v06 \cup v07 \cup v08 \cup v11
                        \cup v12 \cup v13 \cup v16 \cup v21 \cup v24)
     /\ UNCHANGED <<src, cfg, clock>>

-----------------------------------------------------------------------------
(* The end of a run.  rc: exit status (0 success), empties: the empty
   directories in the RRDP directory *)

Complete ==
  /\ IF run.plan = "update"
     THEN Mirrors(fs, cfg.rdir, Pub, src) /\ ChainOk(Pub, src, cfg.lim, run.pub)
     ELSE \* the source may list other deltas now than when this revision was published
          /\ Pub.ok /\ Pub.s = src.s /\ Pub.n = src.n /\ Pub.sp = src.sp /\ Pub.sc = src.sc
          /\ Intact(fs, cfg.rdir, Pub) /\ GapFree(Pub.ds, DOMAIN Pub.ds)
  /\ cfg.rsync => Serves(fs, lnk, cfg.sdir, src, cfg.host)

Context == CASE hist.last = "kill" -> "C09" [] hist.last = "fault" -> "C10"
             [] hist.last = "bad" -> "C05" [] hist.last \in {"lost", "hurt", "stale"} -> "C25" [] OTHER -> "C02"

SMoved == hist.smoved \/ (hist.pcfg # <<>> /\ hist.pcfg.sdir # cfg.sdir)
\* the configuration changed, or directories are derived from the state directory
CfgMoved == (hist.pcfg # <<>> /\ hist.pcfg # cfg) \/ cfg.rdir = "state/rrdp" \/ cfg.sdir = "state/rsync"

\* exit statuses of a run that had to be stopped, that a signal ended, or that
\* panicked
Abnormal == {1000, 1001, 101}
OddServer(sr, c) == c.via # "file" /\ ("stall" \in {sr.net.tls, sr.net.late} \/ \E x \in sr.net.st : x[2] = 0)

EndRun(rc, empties) ==
  LET upd == run.plan = "update" \/ (run.plan = "either" /\ rc = 0)
      good == run.plan \in {"same", "update"}
      nofault == run.fault \in {"none", "xdev"}
      v02 == IF nofault /\ good /\ rc # 0
             THEN {Context} \cup If(run.plan = "same", "C08") \cup If(CfgMoved, "C21")
                            \cup If(run.fault = "xdev", "C10") \cup If(hist.intr, "C15")
                            \cup If(hist.odd, "C23")
                            \cup NetLabels(src, cfg)
             ELSE {}
      \* every run ends by itself, and not by crashing
      v23 == If(rc \in Abnormal, "C23")
      v17 == If(rc # 0 /\ run.plan = "nochange" /\ nofault, "C17")
      v05 == (IF rc = 0 /\ run.plan = "bad" THEN {"C05"} \cup NetLabels(src, cfg) ELSE {}) \cup If(rc = 0 /\ run.plan = "back", "C04")
      vm  == IF rc = 0 /\ upd
             THEN (IF ~Mirrors(fs, cfg.rdir, Pub, src) THEN {"C02"} \cup NetLabels(src, cfg) ELSE {})
                  \cup If(cfg.rsync /\ ~Serves(fs, lnk, cfg.sdir, src, cfg.host), "C12")
                  \cup If(CfgMoved /\ ~(Mirrors(fs, cfg.rdir, Pub, src)
                                      /\ (cfg.rsync => Serves(fs, lnk, cfg.sdir, src, cfg.host))), "C21")
             ELSE {}
      \* recovery: whatever the plan, a successful run leaves everything complete
      vr  == IF rc = 0 /\ good /\ ~Complete
             THEN If(hist.last = "kill", "C09") \cup If(hist.last \in {"lost", "stale"}, "C25") \cup If(hist.last = "fault" \/ run.fault # "none", "C10")
             ELSE {}
      v7  == IF rc = 0 /\ upd /\ ~hist.dirty /\ ~hist.moved /\ nofault
             THEN If(\E k \in DOMAIN run.unl : /\ k[1] = cfg.rdir
                                               /\ run.unl[k] <= run.t0 - cfg.clean
                                               /\ k \in DOMAIN fs
                                               /\ k \notin ListedKeys(cfg.rdir, Pub), "C07")
                  \cup If(empties \cap {k \in hist.ours : k[1] = cfg.rdir} # {}, "C07")
             ELSE {}
      v13 == IF rc = 0 /\ upd /\ cfg.rsync /\ ~hist.dirty /\ ~SMoved /\ nofault
             THEN If(\E r \in DOMAIN run.repl : /\ r[1] = cfg.sdir
                                                /\ run.repl[r].t <= run.t0 - cfg.clean
                                                /\ r[2] # Target(lnk, cfg.sdir)
                                                /\ \E k \in DOMAIN fs : InRev(k, r[1], r[2]), "C13")
             ELSE {}
  IN /\ run.on
     /\ run' = Idle
     /\ viol' = Wrecked(v02 \cup v05 \cup v17 \cup vm \cup vr \cup v7 \cup v13 \cup v23)
     /\ hist' = [hist EXCEPT
          !.dirty = @ \/ (rc # 0 /\ run.chg) \/ run.fault \notin {"none", "xdev"},
          !.last = IF rc = 0 /\ run.plan = "nochange" THEN @
                   ELSE IF rc = 0 THEN "ok"
                   ELSE IF run.fault \notin {"none", "xdev"} THEN "fault"
                   ELSE IF run.plan \in {"bad", "back", "either"} /\ @ \in {"ok", "bad"} THEN "bad"
                   ELSE @,
          !.rev = IF rc = 0 /\ upd THEN [NoNtf EXCEPT !.ok = TRUE, !.s = src.s, !.n = src.n] ELSE @,
          !.scfg = IF rc = 0 /\ run.plan # "nochange" THEN cfg ELSE @,
          !.pcfg = IF rc = 0 /\ upd THEN cfg ELSE @,
          !.smoved = SMoved,
          !.odd = OddServer(src, cfg),
          !.moved = @ \/ (hist.pcfg # <<>> /\ <<hist.pcfg.rdir, hist.pcfg.nname, hist.pcfg.uhost, hist.pcfg.base>>
                                            # <<cfg.rdir, cfg.nname, cfg.uhost, cfg.base>>)]
     /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk>>

\* What a run read of the source: locations and hosts
Requests(locs, hosts) ==
  /\ run.on
  /\ viol' = If(\E x \in locs : x \notin Allowed(src, cfg), "C17")
             \cup If(hosts \ {cfg.shost} # {} /\ (cfg.via # "direct" \/ src.foreign = {}), "C17")
             \cup If(locs # {} /\ cfg.via # "file" /\ ~NotifTls(src, cfg), "C22")
             \cup If(locs \ {Loc(cfg, cfg.nname)} # {} /\ cfg.via # "file" /\ ~FilesTls(src, cfg), "C22")
  /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, run, hist>>

KillRun ==
  /\ run.on
  /\ run' = Idle
  /\ hist' = [hist EXCEPT !.dirty = TRUE, !.last = "kill"]
  /\ viol' = {}
  /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk>>

\* Somebody removes, damages or sets back files that krill-sync has saved
Wreck(how, ch) ==
  /\ ~run.on
  /\ fs' = ApplyFs(fs, ch)
  /\ hist' = [hist EXCEPT !.dirty = TRUE, !.last = how, !.wreck = TRUE,
                          !.hurt = how = "hurt" \/ (how = "stale" /\ hist.hurt)]
  /\ viol' = {}
  /\ UNCHANGED <<src, cfg, clock, ntf, lnk, run>>

Quiet == viol = {}
=============================================================================
