"""Validation (C18, C19): trees of CAs from KSVJobs.tla are signed, served and
validated by the real program; KSVCheck.tla judges what it reports."""
import json
import os
import re
import shutil
import time

from . import der, driver, rpki, tlc
from . import world as W
from .driver import NOBODY, Sandbox, ToolError, Tools, mkcfg
from .net import Server

OWN = "https://src.example/rrdp/notification.xml"
TIMEOUT = 30


def run_tlc(module, cfg, wd, env, timeout=900, workers=8, heap="6g"):
    rc, out = tlc.tlc(module, cfg, wd, env=env, workers=workers, timeout=timeout, heap=heap)
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("%s failed:\n%s" % (module, out[-3000:]))
    return out


def rrdp_files(notify, sess, serial, objs, deltas=()):
    """URL path -> bytes for a repository with these objects (uri -> bytes).
    deltas: [(serial, old objects, new objects)]"""
    base, _, nname = notify.rpartition("/")
    base += "/"
    import base64
    head = 'xmlns="%s" version="1" session_id="%s"' % (W.NS, sess)

    def pub(u, d, h=None):
        return '<publish uri="%s"%s>%s</publish>' % (u, ' hash="%s"' % h if h else "", base64.b64encode(d).decode())
    x = '<snapshot %s serial="%d">' % (head, serial) + "".join(pub(u, d) for u, d in sorted(objs.items())) + "</snapshot>"
    f = {}
    sn = "%s/%d/snapshot.xml" % (sess, serial)
    f[sn] = x.encode()
    n = '<notification %s serial="%d"><snapshot uri="%s" hash="%s"/>' % (head, serial, base + sn, W.sha(f[sn]))
    for k, old, new in deltas:
        x = '<delta %s serial="%d">' % (head, k)
        for u in sorted(set(old) | set(new)):
            if u not in new:
                x += '<withdraw uri="%s" hash="%s"/>' % (u, W.sha(old[u]))
            elif u not in old:
                x += pub(u, new[u])
            elif old[u] != new[u]:
                x += pub(u, new[u], W.sha(old[u]))
        x += "</delta>"
        dn = "%s/%d/delta.xml" % (sess, k)
        f[dn] = x.encode()
        n += '<delta serial="%d" uri="%s" hash="%s"/>' % (k, base + dn, W.sha(f[dn]))
    f[nname] = (n + "</notification>").encode()
    return f


def parse_report(out, notify=OWN):
    """What the log says about the repository."""
    rep = dict(abort=False, seen=False, issues=[], certs=0, roas=0, vrps=0, aspas=0, routers=0)
    m = re.search(re.escape(notify) + r": (\d+) issues, (\d+) certs, (\d+) roas, (\d+) vrps, (\d+) aspas, (\d+) router certs", out)
    if m:
        rep["seen"] = True
        n, rep["certs"], rep["roas"], rep["vrps"], rep["aspas"], rep["routers"] = map(int, m.groups())
        # the issues follow the summary; a message may contain anything
        rest = out[m.end():].split("\n")[1:]
        for line in rest:
            k = re.search(r"   (rsync://\S+) : ", line)
            if k and len(rep["issues"]) < n:
                rep["issues"].append(k.group(1))
        if len(rep["issues"]) != n:
            rep["issues"].append("only %d of %d issues" % (len(rep["issues"]), n))
    elif "not seen in validation" not in out:
        rep["abort"] = True
    return rep


class Runner:
    def __init__(self, top, tools):
        self.sb = Sandbox(top, tools)
        self.mk = rpki.Maker()
        self.server = self.sb.server = Server()
        self.files = {}
        self.down = set()
        self.server.serve = self.serve
        self.server.kind = lambda h: "down" if h in self.down else "good"
        self.cfg = mkcfg(uhost="src.example", rsync=True)

    def serve(self, host, path, hd):
        b = self.files.get("https://%s%s" % (host, path))
        return None if b is None else dict(status=200, body=b)

    def publish(self, tree):
        """Lay out the tree; returns the arguments that name the TALs."""
        self.files = {}
        self.down = set()
        for r, rp in tree["repos"].items():
            objs = self.mk.repo(rp["objs"])
            fl = rrdp_files(r, W.UUIDS["A"], 1, objs)
            if r == OWN:
                for rel, b in fl.items():
                    p = os.path.join(self.sb.src, rel)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as h:
                        h.write(b)
            elif rp["up"]:
                self.files.update({r.rpartition("/")[0] + "/" + rel: b for rel, b in fl.items()})
            else:
                self.down.add(r.split("/")[2])
        args = []
        for i, c in enumerate(tree["tas"]):
            uri = "https://ta.example/ta/%d.cer" % i
            self.files[uri] = rpki.cert(c)
            p = "%s/ta%d.tal" % (self.sb.top, i)
            with open(p, "w") as h:
                h.write(self.mk.tal(c, c["tal"], uri))
            os.chmod(p, 0o644)
            args += ["--tal", p]
        return args

    def one(self, job, tree, reject):
        self.sb.reset()
        args = self.publish(tree)
        cfg = dict(self.cfg, extra=tuple(args + ["-v"] + (["--tal-reject-invalid"] if reject else [])))
        rc, out = self.run(cfg, rpki.EPOCH + tree["now"])
        pub = os.path.exists(self.sb.work + "/rrdp/notification.xml")
        rsy = os.path.lexists(self.sb.work + "/rsync/current")
        res = dict(job=job, rep=parse_report(out), reject=reject, rc=rc if rc in (0, 1) else 2, published=pub,
                   partly=pub != rsy or (not pub and any(f for _, _, f in os.walk(self.sb.work + "/rrdp"))))
        return res, "exit status %s\n%s" % (rc, out)

    def run(self, cfg, now):
        old, driver.RUN_TIMEOUT = driver.RUN_TIMEOUT, TIMEOUT
        try:
            rc, recs, out = self.sb.run(cfg, now)
        finally:
            driver.RUN_TIMEOUT = old
        return rc, out


def work(a):
    top, tools, items = a
    os.makedirs(top)
    r = Runner(top, tools)
    out = []
    try:
        for job, tree, reject in items:
            if driver.too_many_hangs():
                break
            out.append(r.one(job, tree, reject))
    finally:
        r.server.close()
        shutil.rmtree(top, ignore_errors=True)
    return out


def jobs_from_tlc(top, seed, n, full, jobs=None, invariants=True):
    wd = top + "/vjobs"
    os.makedirs(wd, exist_ok=True)
    jf = ""
    if jobs is not None:
        jf = wd + "/given.ndjson"
        with open(jf, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
    of = wd + "/trees.ndjson"
    env = dict(KSV_SEED=str(seed), KSV_N=str(n), KSV_FULL=str(full), KSV_JOBS=jf, KSV_OUT=of, KSV_GIVEN=of)
    run_tlc("KSVJobs.tla", "KSVEmit.cfg", wd, env)
    items = [json.loads(x) for x in open(of)]
    st = (0, 0)
    if invariants:
        # the specification of validation against what is known about the faults
        st = tlc.stats(run_tlc("KSVJobs.tla", "KSVJobs.cfg", wd, dict(env, KSV_OUT="", KSV_JOBS="")))
    return items, st


def execute(items, tools, top, procs=8):
    chunks = [items[i::procs * 4] for i in range(procs * 4)]
    args = [("%s/v%d" % (top, i), tools, c) for i, c in enumerate(chunks) if c]
    return [x for r in driver.spread(work, args, procs) for x in r]


def judge(results, top):
    wd = top + "/vcheck"
    os.makedirs(wd, exist_ok=True)
    rf = wd + "/results.ndjson"
    with open(rf, "w") as f:
        for r in results:
            f.write(json.dumps(r) + "\n")
    out = run_tlc("KSVCheck.tla", "KSVCheck.cfg", wd, dict(KSV_RESULTS=rf))
    g, d = tlc.stats(out)
    if d != len(results) + 32:
        raise ToolError("only %d of %d results judged" % (d, len(results)))
    viol = {}
    for m in re.finditer(r'^"VIOL (.*)"$', out, re.M):
        v = json.loads(m.group(1).replace('\\"', '"'))
        viol[v["i"] - 1] = v
    if out.count('VIOL ') != len(viol):
        raise ToolError("cannot read the verdicts")
    return viol, (g, d)


def check(a, top, t0):
    from . import runner
    prop = a.property
    tools = Tools.prepare(top + "/tools", driver.build_binary())
    jobs = None
    rejects = None
    if a.replay:
        rep = json.load(open(a.replay))
        jobs, rejects = [rep["job"]], [rep["reject"]]
    n, full = (700, 2) if a.tier == "quick" else (20000, 6)
    if os.environ.get("KS_VN"):
        n, full = map(int, os.environ["KS_VN"].split(","))
    t1 = time.time()
    items, (g0, d0) = jobs_from_tlc(top, a.seed, n, full, jobs, not a.no_model and not a.replay)
    t2 = time.time()
    todo = [(it["job"], it["tree"], rejects[i] if rejects else (i * 7 + a.seed) % 3 == 0) for i, it in enumerate(items)]
    done = execute(todo, tools, top)
    t3 = time.time()
    viol, (g1, d1) = judge([r for r, _ in done], top)
    t4 = time.time()
    fresh = []
    for i, v in sorted(viol.items()):
        r, out = done[i]
        if prop in v["labels"] or a.replay:
            fresh.append(dict(property=prop, labels=v["labels"], job=r["job"], reject=r["reject"], expected=v["expected"], got=r, output=out[-4000:]))
        elif os.environ.get("KS_SHOW_OTHER"):
            print("OTHER", v["labels"], json.dumps(r), json.dumps(v["expected"]))
    if a.replay:
        for v in fresh:
            print("REPLAY %s" % json.dumps(v, indent=1))
        return 1 if fresh else 0
    faults = {}
    for r, _ in done:
        for f in r["job"]["fs"]:
            k = "%s:%s" % (f["w"], f["f"])
            faults[k] = faults.get(k, 0) + 1
    cov = dict(states=d0 + d1, transitions=g0 + g1, traces_validated_against_impl=len(done),
               samples=[dict(job=r["job"], reject=r["reject"], report=r["rep"], rc=r["rc"]) for r, _ in done[::max(1, len(done) // 5)][:6]],
               executions_of_the_real_program=len(done), kinds_of_faults=len(faults), faults=faults,
               with_reject=sum(1 for r, _ in done if r["reject"]),
               seconds=dict(generating=round(t2 - t1, 1), execution=round(t3 - t2, 1), judging=round(t4 - t3, 1)), exhaustive=False)
    runner.write_evidence(prop, a.tier, a.seed, "model_checking", cov, t0, len(fresh), ASSUME)
    if fresh:
        fresh.sort(key=lambda v: (len(v["job"]["fs"]), json.dumps(v["job"])))
        p = runner.replay_file(prop, dict(fresh[0], others=len(fresh) - 1))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        for v in fresh[:int(os.environ.get("KS_SHOW", "5"))]:
            print("  tree %d faults %s reject %s\n    expected %s\n    got %s rc=%d published=%s" % (
                v["job"]["v"], [(f["w"], f["u"].split("/")[-1], f["f"]) for f in v["job"]["fs"]], v["reject"],
                json.dumps(v["expected"]), json.dumps(v["got"]["rep"]), v["got"]["rc"], v["got"]["published"]))
        print("  %d of %d trees" % (len(fresh), len(done)))
        return 1
    print("%s held: %d trees (%d kinds of faults); %.0f s (generating %.0f s, execution %.0f s, judging %.0f s)"
          % (prop, len(done), len(faults), time.time() - t0, t2 - t1, t3 - t2, t4 - t3))
    return 0


ASSUME = ["RSA and SHA-256 as implemented by ring are sound; the trees use eight fixed test keys",
          "the deviations in KSVGen.tla stand for all deviations of their kind"]
