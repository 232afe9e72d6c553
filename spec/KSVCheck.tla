------------------------------ MODULE KSVCheck ------------------------------
(* What the real program reported for the trees of KSVJobs.  A result is
   [job, rep, reject, rc, published]: rc 0, 1 (an error), or 2 (anything else,
   such as a crash or no end). *)
EXTENDS KSVGen

Results == ndJsonDeserialize(IOEnv.KSV_RESULTS)

(* first a part, then a result of this part (in parallel) *)
Parts == 32
VARIABLES part, i
Init == part \in 0..(Parts - 1) /\ i = 0
Next == i = 0 /\ part' = part /\ i' \in {n \in DOMAIN Results : n % Parts = part}
Spec == Init /\ [][Next]_<<part, i>>

Good(tree) == [tree EXCEPT !.tas = SelectSeq(@, LAMBDA c : TaOk(c, tree.now))]
Labels(x) ==
  LET t == Build(x.job)
      ok == TasOk(t)
      said == IF ok THEN ReportOk(t, Own, x.rep)
              ELSE x.rep.abort \/ ReportOk(Good(t), Own, x.rep)
      clean == ok /\ Clean(t, Own)
  IN (IF x.rc = 2 \/ ~said THEN {"C19"} ELSE {})
     \cup (IF \/ x.reject /\ ~clean /\ (x.rc = 0 \/ x.published)
              \/ ok /\ (clean \/ ~x.reject) /\ ~(x.rc = 0 /\ x.published)
           THEN {"C18"} ELSE {})
Show(x) ==
  LET t == Build(x.job)
      it == Validate(t, 1)
  IN [tasok |-> TasOk(t), seen |-> Seen(t, Own), issues |-> UrisOf(it, Own, "issue"), certs |-> Count(it, Own, "cert"),
      roas |-> Count(it, Own, "roa"), vrps |-> Count(it, Own, "vrp"), aspas |-> Count(it, Own, "aspa"),
      routers |-> Count(it, Own, "router")]
Checked == i = 0 \/ LET l == Labels(Results[i])
           IN l = {} \/ PrintT("VIOL " \o ToJson([i |-> i, labels |-> l, expected |-> Show(Results[i])]))
=============================================================================
