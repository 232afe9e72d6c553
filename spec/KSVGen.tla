------------------------------- MODULE KSVGen -------------------------------
(* Trees of CAs for KSValid: a handful of sound trees, and every way in which a
   certificate, a CRL, a manifest or a signed object can deviate.  A job is
   [v, fs]: the number of a sound tree and a sequence of faults to apply. *)
EXTENDS KSValid, Json, IOUtils, Randomization, SequencesExt

Own == "https://src.example/rrdp/notification.xml"
Far == "https://other.example/rrdp/notification.xml"
Sia(k) == "rsync://rsync.example/repo/" \o k \o "/"
MftOf(k) == Sia(k) \o k \o ".mft"
CrlOf(k) == Sia(k) \o k \o ".crl"

Set(s) == [t |-> "set", s |-> s]
Inh == [t |-> "inherit", s |-> <<>>]
No == [t |-> "none", s |-> <<>>]
Now == 0
Before == 0 - 500000
After == 500000

(* ---- sound certificates ------------------------------------------------ *)
CertBase(key, signer, sn) ==
  [dec |-> TRUE, how |-> "", key |-> key, kt |-> "rsa", ski |-> TRUE, aki |-> signer, signer |-> signer, sig |-> TRUE,
   sn |-> sn, nb |-> Before, na |-> After, bc |-> "none", ku |-> "ee", eku |-> "", crldp |-> CrlOf(signer), aia |-> TRUE,
   repo |-> "", mft |-> "", notify |-> "", sobj |-> FALSE, trim |-> FALSE, v4 |-> No, v6 |-> No, asn |-> No, alg |-> TRUE,
   tal |-> ""]
CaCert(key, signer, sn, notify, v4, v6, asn) ==
  [CertBase(key, signer, sn) EXCEPT !.bc = "ca", !.ku = "ca", !.repo = Sia(key), !.mft = MftOf(key), !.notify = notify,
                                    !.v4 = v4, !.v6 = v6, !.asn = asn]
TaCert(key, notify, v4, v6, asn) ==
  [CaCert(key, key, 1, notify, Set(v4), Set(v6), Set(asn)) EXCEPT !.aia = FALSE, !.crldp = "", !.tal = key]
EeCert(signer, sn, v4, v6, asn) ==
  [CertBase("EE", signer, sn) EXCEPT !.sobj = TRUE, !.v4 = v4, !.v6 = v6, !.asn = asn]
RouterCert(signer, sn, asn) ==
  [CertBase("R", signer, sn) EXCEPT !.kt = "ec", !.eku = "router", !.asn = asn]

(* ---- sound objects ------------------------------------------------------- *)
Obj(k) == [k |-> k, there |-> TRUE, hash |-> TRUE]
Sig(k, ee) == [k |-> k, there |-> TRUE, hash |-> TRUE, dec |-> TRUE, how |-> "", sid |-> TRUE, dig |-> TRUE, sig |-> TRUE,
               ee |-> ee]
CerObj(c) == [k |-> "cer", there |-> TRUE, hash |-> TRUE, c |-> c]
CrlObj(ca) == [k |-> "crl", there |-> TRUE, hash |-> TRUE, dec |-> TRUE, how |-> "", signer |-> ca, sig |-> TRUE, alg |-> TRUE,
               this |-> 0 - 3600, next |-> 86400, rev |-> <<9001, 9002>>]
MftObj(ca, sn, list) ==
  [k |-> "mft", there |-> TRUE, hash |-> TRUE, dec |-> TRUE, how |-> "", sid |-> TRUE, dig |-> TRUE, sig |-> TRUE,
   ee |-> EeCert(ca, sn, Inh, Inh, Inh), this |-> 0 - 3600, next |-> 86400, bad |-> "", dir |-> Sia(ca), list |-> list]
RoaObj(ca, sn, v4, v6, pfx) ==
  [k |-> "roa", there |-> TRUE, hash |-> TRUE, dec |-> TRUE, how |-> "", sid |-> TRUE, dig |-> TRUE, sig |-> TRUE,
   ee |-> EeCert(ca, sn, v4, v6, No), pfx |-> pfx]
AspaObj(ca, sn, asn, cust, prov) ==
  [k |-> "asa", there |-> TRUE, hash |-> TRUE, dec |-> TRUE, how |-> "", sid |-> TRUE, dig |-> TRUE, sig |-> TRUE,
   ee |-> EeCert(ca, sn, No, No, asn), cust |-> cust, prov |-> prov]
Pfx(f, b) == [f |-> f, b |-> b, m |-> ""]
PfxM(f, b, m) == [f |-> f, b |-> b, m |-> m]
E(k, n, x) == [u |-> Sia(k) \o n, ext |-> x]

(* ---- sound trees ------------------------------------------------------------
   where: key of a CA -> notification URI of the repository it publishes in *)
Files(k, where) ==
  CASE k = "T" -> << <<"A.cer", CerObj(CaCert("A", "T", 11, where.A, Set(<<1, 2, 3>>), Set(<<1, 2>>), Set(<<1, 2, 3>>)))>>,
                     <<"B.cer", CerObj(CaCert("B", "T", 12, where.B, Set(<<4, 5>>), Set(<<3>>), Set(<<4>>)))>>,
                     <<"t.roa", RoaObj("T", 102, Set(<<5>>), No, <<Pfx(4, 5)>>)>> >>
    [] k = "A" -> << <<"C.cer", CerObj(CaCert("C", "A", 21, where.C, Set(<<1, 2>>), Inh, Inh))>>,
                     <<"a.roa", RoaObj("A", 112, Set(<<1, 3>>), Set(<<2>>), <<PfxM(4, 1, "max"), Pfx(4, 3), PfxM(6, 2, "same")>>)>>,
                     <<"a.asa", AspaObj("A", 113, Set(<<3>>), 3, <<7, 8>>)>>,
                     <<"r.cer", CerObj(RouterCert("A", 114, Set(<<2>>)))>>,
                     <<"a.gbr", Obj("gbr")>> >>
    [] k = "B" -> << <<"b.roa", RoaObj("B", 122, Set(<<4>>), No, <<Pfx(4, 4)>>)>>,
                     <<"b2.roa", RoaObj("B", 123, No, Set(<<3>>), <<PfxM(6, 3, "max")>>)>>,
                     <<"D.cer", CerObj(CaCert("D", "B", 31, where.D, Set(<<5>>), No, No))>> >>
    [] k = "C" -> << <<"c.roa", RoaObj("C", 132, Inh, No, <<Pfx(4, 2)>>)>>,
                     <<"c.asa", AspaObj("C", 133, Set(<<1>>), 1, <<9>>)>> >>
    [] k = "D" -> << <<"d.roa", RoaObj("D", 142, Set(<<5>>), No, <<Pfx(4, 5)>>)>> >>
    [] k = "U" -> << <<"u.roa", RoaObj("U", 202, Set(<<2>>), No, <<Pfx(4, 2)>>)>>,
                     <<"A2.cer", CerObj([CaCert("A", "U", 211, where.A, Set(<<1, 2, 3>>), Set(<<2>>), Set(<<1, 2, 3>>))
                                           EXCEPT !.notify = where.A])>> >>
MftSn(k) == CASE k = "T" -> 101 [] k = "A" -> 111 [] k = "B" -> 121 [] k = "C" -> 131 [] k = "D" -> 141 [] OTHER -> 201
ExtOf(o) == o.k
PointObjs(k, where) ==
  LET fs == Files(k, where)
      list == <<E(k, k \o ".crl", "crl")>> \o [i \in DOMAIN fs |-> E(k, fs[i][1], ExtOf(fs[i][2]))]
  IN << <<MftOf(k), MftObj(k, MftSn(k), list)>>, <<CrlOf(k), CrlObj(k)>> >>
     \o [i \in DOMAIN fs |-> <<Sia(k) \o fs[i][1], fs[i][2]>>]

FunOf(pairs) == [u \in {pairs[i][1] : i \in DOMAIN pairs} |-> (CHOOSE p \in Elems(pairs) : p[1] = u)[2]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Tree(cas, where, tas, up) ==
  LET In(r) == Concat([i \in DOMAIN cas |-> IF where[cas[i]] = r THEN PointObjs(cas[i], where) ELSE <<>>])
      rs == {where[cas[i]] : i \in DOMAIN cas} \cup {Own}
      spare == << <<Sia("spare") \o "spare.bin", Obj("bin")>> >>
  IN [now |-> Now, tas |-> tas,
      repos |-> [r \in rs |-> [up |-> r \in up, objs |-> FunOf(In(r) \o spare)]]]

W(t, a, b, c, d, u) == [T |-> t, A |-> a, B |-> b, C |-> c, D |-> d, U |-> u]
TaT(where) == TaCert("T", where.T, <<1, 2, 3, 4, 5>>, <<1, 2, 3>>, <<1, 2, 3, 4>>)
TaU(where) == TaCert("U", where.U, <<1, 2, 3>>, <<1, 2>>, <<1, 2, 3>>)
Main == <<"T", "A", "B", "C", "D">>
Places ==
  << W(Own, Own, Own, Own, Own, Own),
     W(Own, Own, Far, Own, Far, Own),
     W(Own, Far, Own, Far, Own, Own),
     W(Far, Own, Far, Own, Own, Own),
     W(Own, Own, Own, Own, Own, Own),
     W(Own, Own, Far, Own, Own, Far) >>
Sound(v) ==
  LET w == Places[v]
  IN CASE v <= 4 -> Tree(Main, w, <<TaT(w)>>, {Own, Far})
       [] v = 5 -> Tree(Main \o <<"U">>, w, <<TaT(w), TaU(w)>>, {Own, Far})
       [] v = 6 -> Tree(Main \o <<"U">>, w, <<TaT(w), TaU(w)>>, {Own})
Variants == DOMAIN Places

(* ---- faults ----------------------------------------------------------------- *)
\* a certificate
OtherKey(k) == IF k = "X" THEN "D" ELSE "X"
Wider(r) == [t |-> "set", s |-> r.s \o <<6>>]
MutC(c, f) ==
  CASE f = "expired"  -> [c EXCEPT !.na = Now - 1]
    [] f = "na0"      -> [c EXCEPT !.na = Now]
    [] f = "notyet"   -> [c EXCEPT !.nb = Now + 1]
    [] f = "nb0"      -> [c EXCEPT !.nb = Now]
    [] f = "aki"      -> [c EXCEPT !.aki = OtherKey(c.aki)]
    [] f = "noaki"    -> [c EXCEPT !.aki = ""]
    [] f = "signer"   -> [c EXCEPT !.signer = OtherKey(c.signer)]
    [] f = "foreign"  -> [c EXCEPT !.signer = OtherKey(c.signer), !.aki = OtherKey(c.signer)]
    [] f = "sig"      -> [c EXCEPT !.sig = FALSE]
    [] f = "ski"      -> [c EXCEPT !.ski = FALSE]
    [] f = "noaia"    -> [c EXCEPT !.aia = FALSE]
    [] f = "aia"      -> [c EXCEPT !.aia = TRUE]
    [] f = "nocrldp"  -> [c EXCEPT !.crldp = ""]
    [] f = "crldp"    -> [c EXCEPT !.crldp = Sia("X") \o "X.crl"]
    [] f = "over4"    -> [c EXCEPT !.v4 = Wider(c.v4)]
    [] f = "over6"    -> [c EXCEPT !.v6 = Wider(c.v6)]
    [] f = "overas"   -> [c EXCEPT !.asn = Wider(c.asn)]
    [] f = "trim"     -> [c EXCEPT !.trim = TRUE]
    [] f = "overtrim" -> [c EXCEPT !.v4 = IF c.v4.t = "set" THEN Wider(c.v4) ELSE c.v4,
                                   !.v6 = IF c.v6.t = "set" THEN Wider(c.v6) ELSE c.v6,
                                   !.asn = IF c.asn.t = "set" THEN Wider(c.asn) ELSE c.asn, !.trim = TRUE]
    [] f = "inherit"  -> [c EXCEPT !.v4 = IF c.v4.t = "set" THEN Inh ELSE c.v4, !.v6 = IF c.v6.t = "set" THEN Inh ELSE c.v6,
                                   !.asn = IF c.asn.t = "set" THEN Inh ELSE c.asn]
    [] f = "less4"    -> [c EXCEPT !.v4 = [t |-> "set", s |-> <<c.v4.s[1]>>]]
    [] f = "ku"       -> [c EXCEPT !.ku = IF c.ku = "ca" THEN "ee" ELSE "ca"]
    [] f = "bc-not"   -> [c EXCEPT !.bc = "not"]
    [] f = "bc-none"  -> [c EXCEPT !.bc = "none"]
    [] f = "bc-ca"    -> [c EXCEPT !.bc = "ca"]
    [] f = "eku"      -> [c EXCEPT !.eku = "other"]
    [] f = "router"   -> [c EXCEPT !.eku = "router"]
    [] f = "noeku"    -> [c EXCEPT !.eku = ""]
    [] f = "norepo"   -> [c EXCEPT !.repo = ""]
    [] f = "nomft"    -> [c EXCEPT !.mft = ""]
    [] f = "withrepo" -> [c EXCEPT !.repo = Sia("X")]
    [] f = "withmft"  -> [c EXCEPT !.mft = MftOf("X")]
    [] f = "nonotify" -> [c EXCEPT !.notify = ""]
    [] f = "badnotify" -> [c EXCEPT !.notify = "https://nowhere.example/notification.xml"]
    [] f = "othermft" -> [c EXCEPT !.mft = MftOf("X")]
    [] f = "sobj"     -> [c EXCEPT !.sobj = TRUE]
    [] f = "nosobj"   -> [c EXCEPT !.sobj = FALSE]
    [] f = "rsakey"   -> [c EXCEPT !.kt = "rsa", !.key = "X"]
    [] f = "eckey"    -> [c EXCEPT !.kt = "ec", !.key = "R"]
    [] f = "withip"   -> [c EXCEPT !.v4 = Inh]
    [] f = "talkey"   -> [c EXCEPT !.tal = "X"]
    [] f = "notself"  -> [c EXCEPT !.signer = "X"]
    [] f \in {"garbage", "trunc", "empty", "nores", "critext", "dupext", "v1", "nopolicy", "sha1", "sha1out"}
                      -> [c EXCEPT !.dec = FALSE, !.how = f]
    [] f = "noncritext" -> [c EXCEPT !.how = f]

AnyCert == {"expired", "na0", "notyet", "nb0", "aki", "signer", "foreign", "sig", "ski", "critext", "dupext", "v1", 
            "nopolicy", "sha1", "sha1out", "noncritext", "nores"}
IssuedCert == AnyCert \cup {"noaki", "noaia", "nocrldp"}
CaFaults(c) ==
  IssuedCert \cup {"trim", "inherit", "ku", "bc-not", "bc-none", "eku", "router", "norepo", "nomft", "nonotify", "badnotify",
                   "othermft", "sobj", "eckey", "garbage", "trunc", "empty"}
  \cup (IF c.v4.t = "set" THEN {"over4", "less4"} ELSE {}) \cup (IF c.v6.t = "set" THEN {"over6"} ELSE {})
  \cup (IF c.asn.t = "set" THEN {"overas"} ELSE {}) \cup {"overtrim"}
TaFaults == AnyCert \cup {"noaki", "aia", "ku", "bc-not", "bc-none", "eku", "norepo", "nomft", "nonotify", "sobj", "talkey",
                          "notself", "garbage", "trunc", "empty"}
RouterFaults == IssuedCert \cup {"rsakey", "noeku", "eku", "overas", "inherit", "withip", "withrepo", "withmft", "sobj", "ku",
                                 "bc-not", "bc-ca", "garbage", "trunc", "trim", "overtrim"}
EeFaults(o) ==
  IssuedCert \cup {"bc-not", "bc-ca", "ku", "eku", "withrepo", "withmft", "nosobj", "eckey"}
  \cup (IF o.k = "mft" THEN {"crldp"} ELSE {"inherit", "overtrim", "trim"})
  \cup (IF o.ee.v4.t = "set" THEN {"over4"} ELSE {}) \cup (IF o.ee.v6.t = "set" THEN {"over6"} ELSE {})
  \cup (IF o.ee.asn.t = "set" THEN {"overas"} ELSE {}) \cup (IF o.k = "asa" THEN {"withip"} ELSE {})
  \cup (IF o.k = "roa" /\ Len(o.ee.v4.s) > 1 THEN {"less4"} ELSE {})

\* any object
Presence == {"missing", "hash", "unlisted"}
CmsHows == {"garbage", "trunc", "empty", "ct", "ctattr", "noct", "nodig", "dupattr", "unkattr", "ver"}
CmsFine == {"nosigntime", "binary"}
MutO(o, f) ==
  CASE f = "missing" -> [o EXCEPT !.there = FALSE]
    [] f = "hash"    -> [o EXCEPT !.hash = FALSE]
    [] f = "sid"     -> [o EXCEPT !.sid = FALSE]
    [] f = "dig"     -> [o EXCEPT !.dig = FALSE]
    [] f = "cmssig"  -> [o EXCEPT !.sig = FALSE]
    [] f \in CmsHows \cup {"maxlow", "maxhigh", "plen", "dupfam", "afi", "order", "dup", "noprov", "v0", "malg", "mver",
                           "noaki", "nonum", "unkext", "sha1"}
                     -> [o EXCEPT !.dec = FALSE, !.how = f]
    [] f \in CmsFine -> [o EXCEPT !.how = f]
    [] f = "stale"   -> [o EXCEPT !.next = Now - 1]
    [] f = "next0"   -> [o EXCEPT !.next = Now]
    [] f = "future"  -> [o EXCEPT !.this = Now + 1]
    [] f = "this0"   -> [o EXCEPT !.this = Now]
    [] f = "dotdot"  -> [o EXCEPT !.bad = ".."]
    [] f = "space"   -> [o EXCEPT !.bad = "a b.roa"]
    [] f = "signer"  -> [o EXCEPT !.signer = OtherKey(o.signer)]
    [] f = "crlsig"  -> [o EXCEPT !.sig = FALSE]
    [] f = "revall"  -> [o EXCEPT !.rev = @ \o <<11, 21, 31, 102, 112, 113, 114, 122, 132, 142>>]
    [] f = "norev"   -> [o EXCEPT !.rev = <<>>]
    [] f = "uncovered" -> [o EXCEPT !.pfx = @ \o <<Pfx(4, 6)>>]
    [] f = "uncovered6" -> [o EXCEPT !.pfx = @ \o <<Pfx(6, 6)>>]
    [] f = "twice"   -> [o EXCEPT !.pfx = @ \o @]
    [] f = "cust"    -> [o EXCEPT !.cust = 6]
    [] f = "provcust" -> [o EXCEPT !.prov = @ \o <<o.cust>>, !.dec = FALSE]
    [] f = "many"    -> [o EXCEPT !.prov = [i \in 1..60 |-> 10 + i]]

ObjFaults(o) ==
  CASE o.k = "cer" -> Presence
    [] o.k = "crl" -> Presence \cup {"garbage", "trunc", "empty", "stale", "next0", "future", "this0", "signer", "crlsig",
                                     "noaki", "nonum", "unkext", "sha1", "revall", "norev", "asroa"}
    [] o.k = "mft" -> {"missing", "sid", "dig", "cmssig", "stale", "next0", "future", "this0", "dotdot", "space", "mver", "malg",
                       "lists-self", "lists-ghost", "lists-odd", "lists-noext", "lists-nothing", "lists-foreign", "ascrl"}
                      \cup CmsHows \cup CmsFine
    [] o.k = "roa" -> Presence \cup CmsHows \cup CmsFine \cup {"sid", "dig", "cmssig", "maxlow", "maxhigh", "plen",
                       "dupfam", "afi", "uncovered", "uncovered6", "twice", "asasa", "ascer"}
    [] o.k = "asa" -> Presence \cup CmsHows \cup CmsFine \cup {"sid", "dig", "cmssig", "dup", "noprov", "v0", "cust",
                       "provcust", "many", "asroa", "asgbr"} \cup (IF Len(o.prov) > 1 THEN {"order"} ELSE {})
    [] o.k = "gbr" -> Presence
    [] OTHER -> {}

\* a fault: what (object or certificate of an object), where (repository, URI), which
Fault(w, r, u, f) == [w |-> w, r |-> r, u |-> u, f |-> f]
Revocable(o) == o.k \in {"cer", "roa", "asa", "mft"}
FaultsOf(tree) ==
  UNION {{Fault("ta", "", ToString(i), f) : f \in TaFaults} : i \in DOMAIN tree.tas}
  \cup UNION {UNION {LET o == tree.repos[r].objs[u] IN
                 {Fault("obj", r, u, f) : f \in ObjFaults(o)}
                 \cup (IF o.k = "cer" THEN {Fault("cer", r, u, f) : f \in IF o.c.eku = "router" THEN RouterFaults ELSE CaFaults(o.c)}
                       ELSE {})
                 \cup (IF o.k \in {"roa", "asa", "mft"} THEN {Fault("ee", r, u, f) : f \in EeFaults(o)} ELSE {})
                 \cup (IF Revocable(o) THEN {Fault("revoke", r, u, "")} ELSE {})
                 \cup (IF o.k = "mft" THEN {Fault("loop", r, u, k) : k \in {"T", "A", "B", "C", "D", "X"}} ELSE {})
              : u \in DOMAIN tree.repos[r].objs} : r \in DOMAIN tree.repos}

OwnerOf(o) == IF o.k = "cer" THEN o.c.signer ELSE o.ee.signer
Put(tree, r, u, o) == [tree EXCEPT !.repos[r].objs = [x \in DOMAIN @ \cup {u} |-> IF x = u THEN o ELSE @[x]]]
Lists(tree, r, u, es) == [tree EXCEPT !.repos[r].objs[u].list = @ \o es]
KeyOfDir(d) == CHOOSE k \in {"T", "A", "B", "C", "D", "U"} : Sia(k) = d
Apply(tree, ft) ==
  IF ft.w = "ta" THEN [tree EXCEPT !.tas = [i \in DOMAIN @ |-> IF ToString(i) = ft.u THEN MutC(@[i], ft.f) ELSE @[i]]]
  ELSE IF ft.u \notin DOMAIN tree.repos[ft.r].objs THEN tree
  ELSE
  LET o == tree.repos[ft.r].objs[ft.u]
      Obs == tree.repos[ft.r].objs
  IN CASE ft.w = "cer" -> IF o.k = "cer" THEN Put(tree, ft.r, ft.u, [o EXCEPT !.c = MutC(@, ft.f)]) ELSE tree
       [] ft.w = "ee" -> IF o.k \in {"roa", "asa", "mft"} THEN
                            LET e == MutC(o.ee, ft.f) IN Put(tree, ft.r, ft.u, [o EXCEPT !.ee = e, !.dec = @ /\ e.dec])
                         ELSE tree
       [] ft.w = "revoke" ->
            LET cu == CrlOf(OwnerOf(o))
                sn == IF o.k = "cer" THEN o.c.sn ELSE o.ee.sn
            IN IF cu \in DOMAIN Obs /\ Obs[cu].k = "crl" THEN [tree EXCEPT !.repos[ft.r].objs[cu].rev = @ \o <<sn>>] ELSE tree
       [] ft.w = "loop" ->       \* a certificate for a key, perhaps one above
            IF o.k # "mft" THEN tree
            ELSE LET me == KeyOfDir(o.dir)
                     u  == o.dir \o "loop" \o ft.f \o ".cer"
                     c  == [CaCert(ft.f, me, 700, ft.r, Inh, Inh, Inh) EXCEPT !.notify = IF ft.f = "X" THEN ft.r ELSE
                              CHOOSE q \in DOMAIN tree.repos : ft.r = q \/ MftOf(ft.f) \in DOMAIN tree.repos[q].objs]
                 IN Lists(Put(tree, ft.r, u, CerObj(c)), ft.r, ft.u, <<[u |-> u, ext |-> "cer"]>>)
       [] ft.f = "unlisted" ->
            LET ms == {u \in DOMAIN Obs : Obs[u].k = "mft"}
            IN [tree EXCEPT !.repos[ft.r].objs = [u \in DOMAIN @ |->
                 IF u \in ms THEN [@[u] EXCEPT !.list = SelectSeq(@, LAMBDA e : e.u # ft.u)] ELSE @[u]]]
       [] ft.f = "lists-self" -> Lists(tree, ft.r, ft.u, <<[u |-> ft.u, ext |-> "mft"]>>)
       [] ft.f = "lists-ghost" -> Lists(tree, ft.r, ft.u, <<[u |-> o.dir \o "ghost.roa", ext |-> "roa"]>>)
       [] ft.f = "lists-odd" -> Lists(Put(tree, ft.r, o.dir \o "x.odd", Obj("odd")), ft.r, ft.u, <<[u |-> o.dir \o "x.odd", ext |-> "odd"]>>)
       [] ft.f = "lists-noext" -> Lists(Put(tree, ft.r, o.dir \o "noext", Obj("odd")), ft.r, ft.u, <<[u |-> o.dir \o "noext", ext |-> ""]>>)
       [] ft.f = "lists-nothing" -> [tree EXCEPT !.repos[ft.r].objs[ft.u].list = <<>>]
       [] ft.f = "lists-foreign" ->   \* a sound ROA of another CA
            Lists(Put(tree, ft.r, o.dir \o "foreign.roa", RoaObj("X", 801, Inh, No, <<Pfx(4, 1)>>)), ft.r, ft.u,
                  <<[u |-> o.dir \o "foreign.roa", ext |-> "roa"]>>)
       [] ft.f \in {"asroa", "asasa", "ascer", "asgbr", "ascrl"} ->    \* an object of another kind under this name
            Put(tree, ft.r, ft.u,
                [CASE ft.f = "asroa" -> RoaObj("A", 811, Inh, No, <<Pfx(4, 1)>>)
                   [] ft.f = "asasa" -> AspaObj("A", 812, Set(<<3>>), 3, <<7>>)
                   [] ft.f = "ascer" -> CerObj(RouterCert("A", 813, Set(<<2>>)))
                   [] ft.f = "ascrl" -> CrlObj("A")
                   [] OTHER -> Obj("gbr") EXCEPT !.there = TRUE])
       [] OTHER -> Put(tree, ft.r, ft.u, MutO(o, ft.f))

RECURSIVE ApplyAll(_, _)
ApplyAll(tree, fs) == IF fs = <<>> THEN tree ELSE ApplyAll(Apply(tree, Head(fs)), Tail(fs))
Build(job) == ApplyAll(Sound(job.v), job.fs)
=============================================================================
