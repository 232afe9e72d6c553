"""Validation over time (C18, C20): TLC walks through histories (KSVHGen.tla),
the real program is taken through them, and TLC (KSVHCheck.tla) judges what it
reported, kept and published."""
import base64
import hashlib
import json
import os
import re
import shutil
import time

from . import driver, rpki, tlc, valid
from . import world as W
from .driver import NOBODY, ToolError, Tools
from .net import etag_of
from .valid import OWN, parse_report, rrdp_files, run_tlc

FAR = "https://other.example/rrdp/notification.xml"
FARMAX = 8


def histories(top, family, num, length, seed):
    """Random walks of the generator"""
    wd = "%s/vhgen-%s" % (top, family)
    os.makedirs(wd, exist_ok=True)
    cfg = "VHGen.cfg"
    with open(wd + "/" + cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Family = "%s"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (length, family))
    rc, out = tlc.tlc("KSVHGen.tla", cfg, wd, workers=1, timeout=900,
                      args=["-simulate", "num=%d" % num, "-depth", str(length + 4), "-seed", str(seed)])
    hs = [json.loads(json.loads(m.group(0))[5:]) for m in re.finditer(r'^"HIST .*"$', out, re.M)]
    if len(hs) != num:
        raise ToolError("%d of %d histories\n%s" % (len(hs), num, out[-2000:]))
    return hs


def key(o):
    return (o["kind"], o["n"], o["t0"] if o["kind"] in ("brief", "early") else 0)


def objects(top, hs):
    """What Own and Far publish, written by TLC"""
    wd = top + "/vhobjs"
    os.makedirs(wd, exist_ok=True)
    with open(wd + "/h.ndjson", "w") as f:
        for h in hs:
            f.write(json.dumps(h) + "\n")
    rc, out = tlc.tlc("KSVHObjs.tla", "KSVHObjs.cfg", wd, env=dict(KSVH_IN=wd + "/h.ndjson", KSVH_OUT=wd + "/o"), timeout=900)
    if "No error has been found" not in out:
        raise ToolError("KSVHObjs failed\n" + out[-2000:])
    own, far = {}, {}
    for line in open(wd + "/o.own"):
        r = json.loads(line)
        own[key(r["key"])] = r["objs"]
    for line in open(wd + "/o.far"):
        r = json.loads(line)
        far[(r["key"]["s"], r["key"]["n"])] = r["objs"]
    tas = json.loads(open(wd + "/o.ta").readline())["tas"]
    return own, far, tas


def pick(n, *a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:8], 16) % n


def script_end(rc):
    """1000 + k: ended by signal k; 3000 + k: exit status k after a lot of output"""
    if rc >= 3000:
        return "head -c 300000 /dev/zero\nhead -c 300000 /dev/zero | tr '\\0' '\\377' >&2\nexit %d" % (rc - 3000)
    return "kill -%d $$" % (rc - 1000) if rc >= 1000 else "exit %d" % rc


class HistRunner(valid.Runner):
    def __init__(self, top, tools, data):
        valid.Runner.__init__(self, top, tools)
        self.own, fars, self.tas = data
        self.mk = rpki.Maker()
        self.far = {k: self.mk.repo(v) for k, v in fars.items()}
        self.etags = False
        self.down.add("third.example")
        self.cfg = driver.mkcfg(uhost="src.example", rsync=True, via="file")

    def serve(self, host, path, hd):
        b = self.files.get("https://%s%s" % (host, path))
        if b is None:
            return None
        return dict(status=200, body=b, etag=etag_of(b) if self.etags else None)

    # -- the sources -----------------------------------------------------------
    def serve_far(self, h, k, far):
        for u in [u for u in self.files if u.startswith("https://other.example/")]:
            del self.files[u]
        self.down.discard("other.example")
        if not far["up"]:
            if pick(2, h, k, "down"):
                self.down.add("other.example")
            return
        s, n, w, bad = far["s"], far["n"], far["w"], far["bad"]
        base = FAR.rpartition("/")[0] + "/"
        deltas = [(i, self.far[(s, i - 1)], self.far[(s, i)]) for i in range(n - w + 1, n + 1)]
        if pick(2, h, k, "order"):
            deltas.reverse()                 # the order in the notification file does not matter
        if bad == "gap":
            deltas = [d for d in deltas if d[0] != n]
        # a delta that must not be used has something that is not in the snapshot
        if bad == "deltabase":
            deltas = [(i, self.other_base(old, new, pick(3, h, k, "base")), self.more(new)) if i == n else (i, old, new) for i, old, new in deltas]
        if bad == "deltasess":
            deltas = [(i, old, self.more(new)) if i == n else (i, old, new) for i, old, new in deltas]
        fl = rrdp_files(FAR, W.UUIDS[s], n, self.far[(s, n)], deltas)
        name = {"snap": "%s/%d/snapshot.xml" % (W.UUIDS[s], n), "delta": "%s/%d/delta.xml" % (W.UUIDS[s], n)}
        nn = FAR.rpartition("/")[2]
        if bad == "deltasess" and name["delta"] in fl:
            how = pick(2, h, k, "sess")
            d = fl[name["delta"]]
            e = d.replace(W.UUIDS[s].encode(), W.UUIDS["B" if s == "A" else "A"].encode()) if how else \
                d.replace(b'serial="%d"' % n, b'serial="%d"' % (n + 1))
            fl[nn] = fl[nn].replace(W.sha(d).encode(), W.sha(e).encode())
            fl[name["delta"]] = e
        for what in {"snap": ["snap"], "delta": ["delta"], "both": ["snap", "delta"]}.get(bad, []):
            if name[what] in fl:
                d = fl[name[what]]
                how = pick(4, h, k, what)
                if how == 0:
                    del fl[name[what]]
                elif how == 1:
                    fl[name[what]] = d + b"\n"       # not what the notification file says
                else:
                    # XML that ends early, or is no XML at all
                    e = d[:len(d) * 2 // 3] if how == 2 else b"no xml"
                    fl[nn] = fl[nn].replace(W.sha(d).encode(), W.sha(e).encode())
                    fl[name[what]] = e
        if bad == "notif":
            fl[nn] = [b"", b"<html>sorry</html>", fl[nn][:len(fl[nn]) // 2]][pick(3, h, k, "notif")]
        self.files.update({base + rel: b for rel, b in fl.items()})

    @staticmethod
    def more(objs):
        return dict(objs, **{max(objs) + ".more": b"not in the snapshot"})

    @staticmethod
    def other_base(old, new, how):
        old = dict(old)
        if how == 0:         # an update of something else than what was there
            u = [u for u in sorted(old) if u in new and old[u] != new[u]][0]
            old[u] = b"something else"
        elif how == 1:       # a withdrawal of something else
            u = [u for u in sorted(old) if u not in new][-1]
            old[u] = b"something else"
        else:                # a withdrawal of what was not there
            old[next(iter(old)) + ".not.there"] = b"never published"
        return old

    def serve_own(self, own):
        objs = self.mk.repo(self.own[key(own)])
        fl = rrdp_files(OWN, W.UUIDS["A"], own["n"], objs)
        shutil.rmtree(self.sb.src)
        for rel, b in fl.items():
            p = os.path.join(self.sb.src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        return [hashlib.sha256(b).hexdigest() for rel, b in fl.items() if rel.endswith("snapshot.xml")][0]

    def tals(self, n):
        args = []
        for i in {0: [], 1: [0], 2: [0, 1], 3: [1], 4: [0, 1]}[n]:
            c = self.tas[i]
            uri = "https://ta.example/ta/%d.cer" % i
            self.files[uri] = rpki.cert(c)
            if n == 4 and i == 1:
                del self.files[uri]
            p = "%s/ta%d.tal" % (self.sb.top, i)
            with open(p, "w") as f:
                f.write(self.mk.tal(c, c["tal"], uri))
            os.chmod(p, 0o644)
            args += ["--tal", p]
        return args

    def scripts(self, codes):
        """Scripts that note what they find below the state and the published directories"""
        args = []
        for i, rc in enumerate(codes):
            p = "%s/script%d.sh" % (self.sb.top, i)
            o = "%s/blobs/seen%d" % (self.sb.top, i)
            with open(p, "w") as f:
                f.write("#!/bin/sh\nfind '%s/state' -type f -exec sha256sum {} + > '%s.state'\n" % (self.sb.work, o) +
                        "find '%s/rrdp' '%s/rsync' -type f -exec sha256sum {} + > '%s.pub' 2>/dev/null\n" % (self.sb.work, self.sb.work, o) +
                        "echo something; echo something else >&2\n%s\n" % script_end(rc))
            os.chmod(p, 0o755)
            for x in (".state", ".pub"):
                if os.path.exists(o + x):
                    os.unlink(o + x)
            args += ["--pre-validate", p]
        return args

    # -- what is there ---------------------------------------------------------
    def disk(self):
        out = {}
        for top in ("rrdp", "rsync", "state"):
            for d, ds, fs in os.walk("%s/%s" % (self.sb.work, top)):
                if top == "state" and d != "%s/state" % self.sb.work:
                    continue
                for n in fs + [x for x in ds if os.path.islink(d + "/" + x)]:
                    p = d + "/" + n
                    if top == "state" and not n.endswith(".json"):
                        continue
                    if os.path.islink(p):
                        out[p] = "-> " + os.readlink(p)
                    else:
                        out[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return out

    def published(self):
        try:
            m = re.search(rb'serial="(\d+)"', open(self.sb.work + "/rrdp/notification.xml", "rb").read())
            return int(m.group(1)) if m else 0
        except OSError:
            return 0

    def cached(self):
        """(could it be read, is there a copy of Far, the revisions it equals)"""
        try:
            st = json.load(open(self.sb.work + "/state/rrdp-state.json"))
        except (OSError, ValueError):
            return False, False, []
        try:
            v = st["validator"]
            if v is None:
                return True, False, []
            data = v["repositories"]["data"]
            if not isinstance(data, dict):
                return False, False, []
            r = data.get(FAR)
            if r is None:
                return True, False, []
            sess, serial = r["session_id"], r["serial"]
            objs = {u: base64.b64decode(b["bytes"] if isinstance(b, dict) else b) for u, b in r["objects"].items()}
        except (KeyError, TypeError, ValueError):
            return False, False, []
        eq = [dict(s=s, n=n) for (s, n), o in sorted(self.far.items()) if o == objs and W.UUIDS[s] == sess and n == serial]
        return True, True, eq

    # -- one history -------------------------------------------------------------
    def history(self, h, hist):
        self.sb.reset()
        self.files = {}
        self.etags = bool(pick(2, h, "etag"))
        out = []
        logs = []
        for k, x in enumerate(hist):
            if driver.too_many_hangs():
                break
            self.serve_far(h, k, x["far"])
            want = self.serve_own(x["own"])
            args = ["-v"] + self.tals(x["tals"]) + self.scripts(x["scripts"])
            if x["offline"]:
                args.append("--offline-validation")
            if x["reject"]:
                args.append("--tal-reject-invalid")
            before = self.disk()
            self.server.log.clear()
            rc, o = self.run(dict(self.cfg, extra=tuple(args)), rpki.EPOCH + x["now"])
            asked = any(e[1] == "other.example" and (e[0] == "req" or e[2] == "down") for e in list(self.server.log))
            ran, early = [], []
            for i in range(len(x["scripts"])):
                p = "%s/blobs/seen%d" % (self.sb.top, i)
                st, pu = (open(p + s).read() if os.path.exists(p + s) else None for s in (".state", ".pub"))
                if st is not None and want in st:
                    ran.append(i + 1)
                if pu is not None and want in pu:
                    early.append(i + 1)
            found, has, eq = self.cached()
            obs = dict(rc=rc if rc in (0, 1) else 2, asked=asked, rep=parse_report(o), ran=ran, early=early, published=self.published(),
                       touched=self.disk() != before, found=found, has=has, cached=eq)
            out.append(dict(x, obs=obs))
            logs.append("exit status %s, requests %s\n%s" % (rc, list(self.server.log), o[-3000:]))
        return out, logs


def work(a):
    top, tools, data, items = a
    os.makedirs(top)
    r = HistRunner(top, tools, data)
    out = []
    try:
        for h, hist in items:
            out.append((h, r.history(h, hist)))
    finally:
        r.server.close()
        shutil.rmtree(top, ignore_errors=True)
    return out


def execute(hs, ids, data, tools, top, procs=8):
    chunks = [list(zip(ids, hs))[i::procs * 2] for i in range(procs * 2)]
    args = [("%s/h%d" % (top, i), tools, data, c) for i, c in enumerate(chunks) if c]
    res = dict(x for r in driver.spread(work, args, procs) for x in r)
    return [res[i] for i in ids]


def judge(runs, top):
    wd = top + "/vhcheck"
    os.makedirs(wd, exist_ok=True)
    f = wd + "/runs.ndjson"
    with open(f, "w") as o:
        for r in runs:
            o.write(json.dumps(r) + "\n")
    out = run_tlc("KSVHCheck.tla", "KSVHCheck.cfg", wd, dict(KSVH_IN=f), timeout=1800)
    g, d = tlc.stats(out)
    want = sum(len(r) + 1 for r in runs)
    if d != want:
        raise ToolError("only %d of %d steps judged" % (d, want))
    viol = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"VIOL (.*)"$', out, re.M)]
    if out.count("VIOL ") != len(viol):
        raise ToolError("cannot read the verdicts")
    return viol, (g, d)


PLAN = dict(C18=dict(quick=[("gate", 150, 8), ("cache", 20, 8)], thorough=[("gate", 2500, 12), ("cache", 300, 12)]),
            C20=dict(quick=[("cache", 200, 8), ("gate", 20, 6)], thorough=[("cache", 3000, 14), ("gate", 300, 8)]))


def check(a, top, t0):
    from . import runner
    prop = a.property
    tools = Tools.prepare(top + "/tools", driver.build_binary())
    t1 = time.time()
    if a.replay:
        rep = json.load(open(a.replay))
        hs, ids = [rep["history"]], [rep["id"]]
    else:
        hs, ids = [], []
        plan = PLAN[prop][a.tier]
        if os.environ.get("KS_VH"):
            fam, num, ln = os.environ["KS_VH"].split(",")
            plan = [(fam, int(num), int(ln))]
        for i, (fam, num, ln) in enumerate(plan):
            hs += histories(top, fam, num, ln, a.seed * 10 + i + 1)
        ids = ["%d.%d" % (a.seed, i) for i in range(len(hs))]
    t2 = time.time()
    data = objects(top, hs)
    t3 = time.time()
    done = execute(hs, ids, data, tools, top)
    t4 = time.time()
    viol, (g, d) = judge([r for r, _ in done], top)
    t5 = time.time()
    fresh = []
    for v in sorted(viol, key=lambda v: (v["k"], v["h"])):
        runs, logs = done[v["h"] - 1]
        if prop in v["labels"] or a.replay:
            fresh.append(dict(property=prop, labels=v["labels"], id=ids[v["h"] - 1], history=hs[v["h"] - 1][:v["k"]], run=runs[v["k"] - 1],
                              caches=v["C"], published=v["pub"], output=logs[v["k"] - 1]))
        elif os.environ.get("KS_SHOW_OTHER"):
            print("OTHER", json.dumps(v), json.dumps(runs[v["k"] - 1]), logs[v["k"] - 1])
    if a.replay:
        for v in fresh:
            print("REPLAY %s\n%s" % (json.dumps({k: x for k, x in v.items() if k != "output"}, indent=1), v["output"]))
        return 1 if fresh else 0
    runs = [x for r, _ in done for x in r]
    cov = dict(states=d, transitions=g, traces_validated_against_impl=len(done), executions_of_the_real_program=len(runs),
               samples=[[dict(far=x["far"], own=x["own"], obs=x["obs"]) for x in done[i][0][:3]] for i in range(0, len(done), max(1, len(done) // 3))][:3],
               asked=sum(x["obs"]["asked"] for x in runs), cache_found=sum(x["obs"]["found"] for x in runs),
               cached=sum(x["obs"]["has"] for x in runs), exits={str(c): sum(x["obs"]["rc"] == c for x in runs) for c in (0, 1, 2)},
               rejecting=sum(x["reject"] for x in runs), with_scripts=sum(bool(x["scripts"]) for x in runs),
               seconds=dict(generating=round(t3 - t1, 1), execution=round(t4 - t3, 1), judging=round(t5 - t4, 1)), exhaustive=False)
    runner.write_evidence(prop, a.tier, a.seed, "model_checking", cov, t0, len(fresh), ASSUME)
    if fresh:
        p = runner.replay_file(prop, dict(fresh[0], others=len(fresh) - 1))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        for v in fresh[:int(os.environ.get("KS_SHOW", "3"))]:
            print("  %s history %s run %d: %s\n    caches %s published %s" % (v["labels"], v["id"], len(v["history"]), json.dumps(v["run"]),
                                                                              json.dumps(v["caches"]), v["published"]))
        print("  %d of %d runs" % (len(fresh), len(runs)))
        return 1
    print("%s held: %d histories, %d runs; %.0f s (generating %.0f s, execution %.0f s, judging %.0f s)"
          % (prop, len(done), len(runs), time.time() - t0, t3 - t1, t4 - t3, t5 - t4))
    return 0


ASSUME = ["RSA and SHA-256 as implemented by ring are sound; the objects are signed with fixed test keys",
          "the repository of somebody else has up to %d revisions in each of two sessions" % FARMAX]
