------------------------------ MODULE KSTrace ------------------------------
(***************************************************************************)
(* Trace validation.  The recorded executions of the real krill-sync form  *)
(* a tree (executions share prefixes); every node is one event.  TLC walks *)
(* the whole tree: each event must be a step of the specification, and     *)
(* every property is evaluated at every node.  Nodes at which a property   *)
(* is broken are printed.                                                  *)
(***************************************************************************)
EXTENDS KSState, Json, IOUtils

Nodes == ndJsonDeserialize(IOEnv.KS_TRACE)
World == JsonDeserialize(IOEnv.KS_WORLD)

HostKey(h) == IF h THEN "h" ELSE "p"
TraceObjTree(sr, h) ==
  LET k == sr.w \o ":" \o sr.s \o ":" \o ToString(sr.n) \o ":" \o HostKey(h)
  IN IF k \in DOMAIN World THEN World[k] ELSE <<>>

VARIABLE node
tvars == <<vars, node>>

SrcOf(v) == [v EXCEPT !.av = Range(@), !.junk = Range(@), !.foreign = Range(@), !.odd = Range(@), !.revdirs = Range(@), !.net = [@ EXCEPT !.st = Range(@)]]
CfgOf(v) == v

Changes(e) == Range(e.c)
Ntfs(e) == IF "n" \in DOMAIN e THEN Range(e.n) ELSE {}
Shut(e) == IF "m" \in DOMAIN e THEN Range(e.m) ELSE {}
Links(e) == IF "l" \in DOMAIN e THEN Range(e.l) ELSE {}

Step(e) ==
  CASE e.t = "src"   -> /\ ~run.on /\ src' = SrcOf(e.v) /\ viol' = {}
                        /\ UNCHANGED <<cfg, clock, fs, ntf, lnk, run, hist>>
    [] e.t = "cfg"   -> /\ ~run.on /\ cfg' = CfgOf(e.v) /\ viol' = {}
                        /\ UNCHANGED <<src, clock, fs, ntf, lnk, run, hist>>
    [] e.t = "tick"  -> /\ clock' = clock + e.v /\ viol' = {}
                        /\ UNCHANGED <<src, cfg, fs, ntf, lnk, run, hist>>
    [] e.t = "put"   -> \* somebody else puts files there
                        /\ ~run.on /\ viol' = {}
                        /\ fs' = ApplyFs(fs, Changes(e))
                        /\ UNCHANGED <<src, cfg, clock, ntf, lnk, run, hist>>
    [] e.t = "start" -> BeginRun(e.v)
    [] e.t = "fs"    -> FsStep(Changes(e), Ntfs(e), Links(e), "out" \in DOMAIN e, Shut(e))
    [] e.t = "exit"  -> EndRun(e.v, Range(e.empty))
    [] e.t = "req"   -> Requests(Range(e.v), Range(e.h))
    [] e.t = "kill"  -> KillRun
    [] e.t = "lost"  -> Wreck(e.v, Changes(e))
    [] e.t = "mt"    -> \* the times of the files in revision directories
                        /\ ~run.on
                        /\ viol' = If(\E x \in Range(e.v) :
                                        /\ x[2] \in DOMAIN World
                                        /\ x[1] = Target(lnk, x[4]) \/ <<x[4], x[1]>> \in DOMAIN hist.repl
                                        /\ World[x[2]] # x[3], "C14")
                        /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, run, hist>>
    [] e.t = "intr"  -> \* another instance was started while this one runs
                        /\ run.on
                        /\ viol' = If(e.v = 0 \/ Range(e.c) # {}, "C15")
                        /\ hist' = [hist EXCEPT !.intr = TRUE]
                        /\ UNCHANGED <<src, cfg, clock, fs, ntf, lnk, run>>

TraceInit ==
  /\ node \in Range(Nodes[1].k)      \* node 1 is the root above all suites
  /\ InitObs /\ clock = Nodes[node].e.now
  /\ src = SrcOf(Nodes[node].e.src) /\ cfg = CfgOf(Nodes[node].e.cfg)

TraceNext == \E i \in DOMAIN Nodes[node].k :
               /\ node' = Nodes[node].k[i]
               /\ Step(Nodes[Nodes[node].k[i]].e)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
View == node
Report == viol = {} \/ PrintT(<<"VIOL", node, viol>>)
=============================================================================
