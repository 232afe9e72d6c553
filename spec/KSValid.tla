------------------------------- MODULE KSValid -------------------------------
(* What an RPKI validator has to say about a tree of CAs.

   A tree is a record
     now    the time of validation
     tas    the trust anchor certificates, one per TAL
     repos  notification URI -> [up, objs]; objs: URI -> object
   The fields of certificates and objects say in which way they deviate from
   what the standards ask for; KSVGen builds the trees.  Sets are written as
   sequences, because the trees travel as JSON. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(s) == {s[i] : i \in DOMAIN s}

(* Resources: "none" (extension absent), "inherit", or a set of blocks.  The
   issuer's resources iss are a set. *)
Effective(res, iss, trim) ==
  CASE res.t = "none" -> [ok |-> TRUE, s |-> {}]
    [] res.t = "inherit" -> [ok |-> TRUE, s |-> iss]
    [] OTHER -> IF Elems(res.s) \subseteq iss THEN [ok |-> TRUE, s |-> Elems(res.s)]
                ELSE IF trim THEN [ok |-> TRUE, s |-> Elems(res.s) \cap iss]
                ELSE [ok |-> FALSE, s |-> {}]

(* A CA as its children see it: key and effective resources *)
Ca(c, ca) == [key |-> c.key,
              v4  |-> Effective(c.v4, ca.v4, c.trim).s,
              v6  |-> Effective(c.v6, ca.v6, c.trim).s,
              asn |-> Effective(c.asn, ca.asn, c.trim).s]
TaCa(c) == [key |-> c.key, v4 |-> Elems(c.v4.s), v6 |-> Elems(c.v6.s), asn |-> Elems(c.asn.s)]

Formed(c) == c.dec /\ c.ski /\ c.alg
InTime(c, now) == c.nb <= now /\ now <= c.na
IssuedBy(c, ca, now) ==
  /\ InTime(c, now)
  /\ c.aki = ca.key /\ c.signer = ca.key /\ c.sig
  /\ c.aia /\ c.crldp # ""
  /\ Effective(c.asn, ca.asn, c.trim).ok
Covered(c, ca) == Effective(c.v4, ca.v4, c.trim).ok /\ Effective(c.v6, ca.v6, c.trim).ok

CaOk(c, ca, now) ==
  /\ Formed(c) /\ c.kt = "rsa"
  /\ c.bc = "ca" /\ c.ku = "ca" /\ c.eku = ""
  /\ c.repo # "" /\ c.mft # "" /\ ~c.sobj
  /\ IssuedBy(c, ca, now) /\ Covered(c, ca)
EeOk(c, ca, now) ==
  /\ Formed(c) /\ c.kt = "rsa"
  /\ c.bc = "none" /\ c.ku = "ee" /\ c.eku = ""
  /\ c.repo = "" /\ c.mft = "" /\ c.sobj
  /\ IssuedBy(c, ca, now) /\ Covered(c, ca)
RouterOk(c, ca, now) ==
  /\ Formed(c) /\ c.kt = "ec"
  /\ c.bc = "none" /\ c.ku = "ee" /\ c.eku = "router"
  /\ c.repo = "" /\ c.mft = "" /\ ~c.sobj /\ c.notify = ""
  /\ c.v4.t = "none" /\ c.v6.t = "none" /\ c.asn.t = "set"
  /\ IssuedBy(c, ca, now)
TaOk(c, now) ==
  /\ Formed(c) /\ c.kt = "rsa"
  /\ c.bc = "ca" /\ c.ku = "ca" /\ c.eku = ""
  /\ c.repo # "" /\ c.mft # "" /\ ~c.sobj
  /\ c.aki \in {"", c.key} /\ c.crldp = "" /\ ~c.aia
  /\ "inherit" \notin {c.v4.t, c.v6.t, c.asn.t}
  /\ InTime(c, now) /\ c.signer = c.key /\ c.sig
  /\ c.tal = c.key

(* CMS signed objects *)
SignedOk(o, ca, now) == o.dec /\ o.sid /\ o.dig /\ o.sig /\ EeOk(o.ee, ca, now)
RoaOk(o, ca, now, rev) ==
  /\ o.k = "roa" /\ SignedOk(o, ca, now) /\ o.ee.sn \notin rev
  /\ \A i \in DOMAIN o.pfx :
       o.pfx[i].b \in Effective(IF o.pfx[i].f = 4 THEN o.ee.v4 ELSE o.ee.v6,
                                IF o.pfx[i].f = 4 THEN ca.v4 ELSE ca.v6, o.ee.trim).s
AspaOk(o, ca, now, rev) ==
  /\ o.k = "asa" /\ SignedOk(o, ca, now) /\ o.ee.sn \notin rev
  /\ o.ee.asn.t = "set" /\ o.ee.v4.t = "none" /\ o.ee.v6.t = "none"
  /\ o.cust \in Effective(o.ee.asn, ca.asn, o.ee.trim).s

Item(r, k, u) == [r |-> r, k |-> k, u |-> u]

RECURSIVE Point(_, _, _, _), Entries(_, _, _, _, _, _), Times(_, _)
Times(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Times(x, n - 1)

(* The publication point of CA certificate c; ca: its key and resources;
   chain: the keys from the trust anchor down to this CA *)
Point(tree, c, ca, chain) ==
  LET now == tree.now
      Issue(u) == <<Item(c.notify, "issue", u)>>
  IN IF c.notify = "" \/ c.notify \notin DOMAIN tree.repos THEN Issue(c.repo)
     ELSE IF ~tree.repos[c.notify].up THEN Issue(c.repo)
     ELSE
     LET ob == tree.repos[c.notify].objs
         Has(u) == u \in DOMAIN ob /\ ob[u].there
     IN IF ~Has(c.mft) THEN Issue(c.mft)
        ELSE IF ob[c.mft].k # "mft" THEN Issue(c.mft)
        ELSE
        LET m == ob[c.mft]
            cu == m.ee.crldp
            list == Elems(m.list)
        IN IF ~SignedOk(m, ca, now) \/ m.next < now \/ m.this > now \/ m.bad # "" THEN Issue(c.mft)
           ELSE IF \A e \in list : e.u # cu THEN Issue(c.mft)
           ELSE IF ~Has(cu) THEN Issue(cu)
           ELSE IF ob[cu].k # "crl" THEN Issue(cu)
           ELSE
           LET r == ob[cu]
           IN IF \/ ~r.hash \/ ~r.dec \/ r.signer # ca.key \/ ~r.sig \/ ~r.alg
                 \/ r.next < now \/ r.this > now
                 \/ m.ee.sn \in Elems(r.rev)
              THEN Issue(cu)
              ELSE Entries(tree, c, ca, chain, Elems(r.rev), {e \in list : e.u # cu})

\* what becomes of the files on the manifest, one after the other
Entries(tree, c, ca, chain, rev, todo) ==
  IF todo = {} THEN <<>>
  ELSE
  LET e   == CHOOSE x \in todo : TRUE
      now == tree.now
      ob  == tree.repos[c.notify].objs
      Is(k) == <<Item(c.notify, k, e.u)>>
      this ==
        IF ~(e.u \in DOMAIN ob) THEN Is("issue")
        ELSE IF ~ob[e.u].there \/ ~ob[e.u].hash THEN Is("issue")
        ELSE
        LET o == ob[e.u]
        IN CASE e.ext = "roa" ->
                  IF RoaOk(o, ca, now, rev) THEN Is("roa") \o Times(Is("vrp")[1], Len(o.pfx)) ELSE Is("issue")
             [] e.ext = "asa" -> IF AspaOk(o, ca, now, rev) THEN Is("aspa") ELSE Is("issue")
             [] e.ext = "gbr" -> <<>>
             [] e.ext = "cer" ->
                  IF o.k # "cer" THEN Is("issue")
                  ELSE IF ~o.c.dec \/ o.c.sn \in rev THEN Is("issue")
                  ELSE IF o.c.bc # "ca"
                  THEN IF RouterOk(o.c, ca, now) THEN Is("router") ELSE Is("issue")
                  ELSE IF ~CaOk(o.c, ca, now) \/ o.c.key \in chain THEN Is("issue")
                  ELSE LET k == Ca(o.c, ca) IN Is("cert") \o Point(tree, o.c, k, chain \cup {o.c.key})
             [] OTHER -> Is("issue")
  IN this \o Entries(tree, c, ca, chain, rev, todo \ {e})

(* Everything: a sequence of items, in no particular order *)
RECURSIVE Validate(_, _)
Validate(tree, i) ==
  IF i > Len(tree.tas) THEN <<>>
  ELSE Point(tree, tree.tas[i], TaCa(tree.tas[i]), {tree.tas[i].key}) \o Validate(tree, i + 1)

TasOk(tree) == \A i \in DOMAIN tree.tas : TaOk(tree.tas[i], tree.now)

Of(items, r, k) == SelectSeq(items, LAMBDA x : x.r = r /\ x.k = k)
Count(items, r, k) == Len(Of(items, r, k))
UrisOf(items, r, k) == {x.u : x \in Elems(Of(items, r, k))}
Bag(items, r, k) == [u \in UrisOf(items, r, k) |-> Cardinality({i \in DOMAIN items : items[i] = Item(r, k, u)})]

(* Was the repository seen at all? *)
Seen(tree, r) ==
  \/ \E i \in DOMAIN tree.tas : tree.tas[i].notify = r
  \/ \E x \in Elems(Validate(tree, 1)) :
       /\ x.k = "cert"
       /\ LET o == tree.repos[x.r].objs[x.u] IN o.c.notify = r

(* Does a report for repository r say what it should?  rep: [seen, issues
   (a sequence of URIs), certs, roas, vrps, aspas, routers] *)
SeqBag(s) == [u \in Elems(s) |-> Cardinality({i \in DOMAIN s : s[i] = u})]
ReportOk(tree, r, rep) ==
  LET items == Validate(tree, 1)
  IN /\ rep.seen = Seen(tree, r)
     /\ rep.seen =>
        /\ SeqBag(rep.issues) = Bag(items, r, "issue")
        /\ rep.certs = Count(items, r, "cert") /\ rep.roas = Count(items, r, "roa")
        /\ rep.vrps = Count(items, r, "vrp") /\ rep.aspas = Count(items, r, "aspa")
        /\ rep.routers = Count(items, r, "router")

\* no issue for the repository: the gate of pre-validation is open
Clean(tree, r) == Seen(tree, r) /\ UrisOf(Validate(tree, 1), r, "issue") = {}
=============================================================================
