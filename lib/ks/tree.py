"""Executes scenario trees against the real program and collects the trie of
events that TLC then checks."""
import json
import os
import shutil
import tempfile
import traceback

from . import driver, world as W
from .driver import Sandbox, ToolError, mkcfg, T0
from .net import Server, etag_of
from .project import Projector, is_lock, role_path


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Enough(Exception):
    """Too many runs hang; what was recorded will do."""


class Trie:
    def __init__(self):
        self.nodes = [dict(e=None, k=[], p=-1, step=None)]
        self.idx = {}

    def add(self, parent, ev, step=None):
        key = (parent, dumps(ev))
        n = self.idx.get(key)
        if n is None:
            n = len(self.nodes)
            self.idx[key] = n
            self.nodes.append(dict(e=ev, k=[], p=parent, step=step))
            self.nodes[parent]["k"].append(n)
        return n

    def merge(self, other, at=0):
        """Graft another trie's children below node `at`."""
        m = {0: at}
        for i, nd in enumerate(other.nodes):
            if i:
                m[i] = self.add(m[nd["p"]], nd["e"], nd["step"])
                if "out" in nd:
                    self.nodes[m[i]]["out"] = nd["out"]

    def path(self, n):
        out = []
        while n > 0:
            out.append(n)
            n = self.nodes[n]["p"]
        return out[::-1]


class Suite:
    """Common parameters of a set of scenarios."""

    def __init__(self, name, cfg=None, world=None, areas=None, src0=None, mt=False, limit=None):
        self.name = name
        self.cfg = mkcfg(**(cfg or {}))
        self.world = world or {}
        self.areas = areas or dict(rrdp=["rrdp"], rsync=["rsync"], names=["notification.xml"])
        self.src0 = src0 or dict(sess="A", ser=1, win=[])
        self.mt = mt            # record file times
        self.limit = limit      # seconds that a run may take

    def sid(self):
        """Tells suites of the same name apart."""
        return W.sha(dumps([self.cfg, self.world, self.areas, self.src0]).encode())[:8]


class Worlds:
    def __init__(self, kw):
        self.kw = kw
        self.reg = {}
        self.cache = {}
        self.revs = set()

    def get(self, src):
        k = (src.get("host", "src.example"), src.get("base", "rrdp/"), src.get("nname", "notification.xml"))
        if k not in self.cache:
            w = W.World(host=k[0], base=k[1], nname=k[2], **self.kw)
            w.reg = self.reg
            self.cache[k] = w
        if (src["sess"], src["ser"]) not in self.revs:
            self.revs.add((src["sess"], src["ser"]))
            self.cache[k].tree(src["sess"], src["ser"], False)      # registers the objects
        return self.cache[k]

    def objtrees(self):
        w = W.World(**self.kw)
        w.reg = self.reg
        out = {}
        for s, n in self.revs:
            for h in (False, True):
                out["%s:%s:%d:%s" % (w.wid, s, n, "h" if h else "p")] = w.tree(s, n, h)
        out.update(w.times())
        return out


class Executor:
    def __init__(self, suite, tools, top):
        self.suite = suite
        self.sb = Sandbox(top, tools, suite.limit)
        self.top = top
        self.trie = Trie()
        self.worlds = Worlds(suite.world)
        self.pr = Projector(self.worlds.reg, self.sb, suite.world.get("off", 0))
        self.runs = 0
        self.killed = 0
        self.faulted = 0
        self.paused = 0
        self.saves = 0
        if suite.cfg["net"]:
            self.sb.server = Server()
            self.sb.server.serve = self.serve
            self.sb.server.kind = self.tls_kind
            self.asked = False
            self.scache = {}

    def serve(self, host, path, hd):
        """Every file is served at every place that ends with its name."""
        src = self.cur
        w = self.worlds.get(src)
        k = dumps(src)
        if k not in self.scache:
            self.scache = {k: w.files(src)}
        files = self.scache[k]
        rel = max((r for r in files if path.endswith("/" + r)), key=len, default=None)
        if rel is None:
            return None
        if rel == w.nname:
            self.asked = True
        net = src.get("net") or {}
        st = 200
        for role, code in (net.get("st") or {}).items():
            if role_path(w, src, role) == rel:
                st = code
        odd = st[4:] if isinstance(st, str) and st.startswith("odd:") else None
        return dict(status=200 if isinstance(st, str) else st, cut=st == "cut", odd=odd, body=files[rel],
                    etag=None if net.get("noetag") else etag_of(files[rel]))

    def tls_kind(self, host):
        net = self.cur.get("net") or {}
        k = net.get("tls", "good")
        return net.get("late", k) if self.asked else k

    def write_source(self, src):
        w = self.worlds.get(src)
        if self.suite.cfg["net"]:
            self.cur = src
            W.write_source(w, src, self.sb.src, ("", "a/b/"))
        else:
            W.write_source(w, src, self.sb.src)

    def scenario_tree(self, scenarios):
        root = {}
        for sc in scenarios:
            d = root
            for st in sc:
                d = d.setdefault(dumps(st), {})
        return root

    def execute(self, scenarios):
        self.sb.reset()
        self.write_source(self.suite.src0)
        state = dict(cfg=dict(self.suite.cfg), now=T0, src=self.suite.src0, node=0)
        self.rec(self.scenario_tree(scenarios), state)

    def rec(self, tree, state):
        items = list(tree.items())
        # expand enumerations
        if not items:
            return
        needsave = len(items) > 1 or any('"enum"' in k for k, _ in items)
        saved = None
        if needsave:
            saved = os.path.join(self.top, "save%d" % self.saves)
            self.saves += 1
            self.sb.save(saved)
        first = True
        for k, sub in items:
            step = json.loads(k)
            if not first:
                self.restore(saved, state)
            first = False
            if "run" in step and "enum" in (step["run"] or {}):
                self.enumerate(step["run"], sub, state, saved)
            else:
                st = dict(state)
                self.do(step, st)
                self.rec(sub, st)
        if saved:
            shutil.rmtree(saved, ignore_errors=True)

    def restore(self, saved, state):
        self.sb.restore(saved)
        self.write_source(state["src"])

    def enumerate(self, spec, sub, state, saved):
        """Run once without fault to find the points, then once per point."""
        st = dict(state)
        base = {k: v for k, v in spec.items() if k in ("xdev",)}
        recs, status = self.do_run(base, st)
        what = spec["enum"]
        pts = []
        ops = [r for r in recs if r["k"] == "O"]
        if what == "kill":
            prev_effect = True
            for r in ops:
                if prev_effect:
                    pts.append(dict(kill_at=r["nm"]))
                prev_effect = bool(r["d"])
            if prev_effect and ops:
                pts.append(dict(kill_at=ops[-1]["nm"] + 1))
            if spec.get("torn", True):
                pts += [dict(kill_at=r["nm"], torn=1) for r in ops
                        if r["op"] in ("write", "copy_file_range") and r["ret"] > 1]
        elif what == "fail":
            allops = [(r["na"], "m" if r["k"] == "O" else "r", r["op"]) for r in recs if r["k"] in "OR" and "na" in r]
            for na, cls, op in allops:
                for e in spec.get("errnos", [5]):
                    if cls == "r" and not spec.get("reads", True):
                        continue
                    pts.append(dict(fail_at=na, errno=e))
                if op == "write" and spec.get("partial", True):
                    pts.append(dict(fail_at=na, partial=1))   # short write
            if spec.get("sticky"):
                pts += [dict(fail_at=na, errno=28, sticky=1) for na, cls, _ in allops if cls == "m"]
        elif what == "pause":
            # from the first operation that is not on the lock file or a directory
            going = False
            top = os.path.join(self.sb.work, "state")
            for r in recs:
                if r["k"] not in "OR" or "na" not in r:
                    continue
                if not is_lock(r["p"], top) and \
                        (r["op"] in ("open", "read") or (r["k"] == "O" and r["op"] != "mkdir")):
                    going = True
                if going and not is_lock(r["p"], top):
                    pts += [dict(dict(late=spec["late"]) if "late" in spec else {}, pause_at=r["na"], then=t, intr=i) for t in spec.get("then", ["cont"])
                            for i in spec.get("intr", [[{}, {}]])]
        step = spec.get("stride", 1)
        if step > 1:
            off = spec.get("offset", 0) % step
            pts = pts[off::step]
        if spec.get("shards"):
            i, n = spec["shards"]
            pts = pts[i::n]
        if not spec.get("shards") or spec["shards"][0] == 0:
            self.rec(sub, st)
        for p in pts:
            p.update(base)
            self.restore(saved, state)
            st = dict(state)
            self.do_run(p, st)
            self.rec(sub, st)

    def add(self, state, ev, step=None):
        state["node"] = self.trie.add(state["node"], ev, step)

    def do(self, step, state):
        if "src" in step:
            src = step["src"]
            state["src"] = src
            self.write_source(src)
            self.add(state, self.pr.src_event(self.worlds.get(src), src), step)
        elif "cfg" in step:
            state["cfg"] = dict(state["cfg"], **step["cfg"])
            self.add(state, self.pr.cfg_event(state["cfg"]), step)
        elif "tick" in step:
            state["now"] += step["tick"]
            self.add(state, dict(t="tick", v=step["tick"]), step)
        elif "put" in step:
            cs = []
            for rel, text in step["put"]:
                p = os.path.join(self.sb.work, rel)
                parts = rel.split("/")
                for i in range(1, len(parts)):
                    d = os.path.join(self.sb.work, *parts[:i])
                    if not os.path.isdir(d):
                        os.makedirs(d)
                        os.chown(d, 65534, 65534)
                        a, s, r = self.pr.split(d, self.suite.areas)
                        cs.append([a, s, r, "d"])
                with open(p, "w") as f:
                    f.write(text)
                os.chown(p, 65534, 65534)
                self.worlds.reg.setdefault(W.sha(text.encode()), "f:" + W.sha(text.encode())[:8])
                a, s, r = self.pr.split(p, self.suite.areas)
                cs.append([a, s, r, self.worlds.reg[W.sha(text.encode())]])
            self.add(state, dict(t="put", c=cs), step)
        elif "state" in step:
            self.wreck(step, state)
        elif "run" in step:
            self.do_run(step["run"] or {}, state)
        else:
            raise ToolError("unknown step %r" % step)

    def wreck(self, step, state):
        """What has been saved is lost ("del", "wipe"), damaged ("empty", "cut",
        "junk", "json"), noted ("save") or set back to that ("back")."""
        how, which = step["state"], step.get("which")
        top = os.path.join(self.sb.work, "state")

        def scan():
            out = {}
            for d, ds, fsn in os.walk(top):
                for x in ds:
                    out[os.path.join(d, x)] = dict(t="d")
                for x in fsn:
                    p = os.path.join(d, x)
                    with open(p, "rb") as f:
                        out[p] = dict(t="f", sum=W.sha(f.read()))
            return out
        files = [x for x in sorted(os.listdir(top) if os.path.isdir(top) else []) if os.path.isfile(os.path.join(top, x)) and not is_lock(os.path.join(top, x), top)]
        if which is not None:
            files = files[which:which + 1]
        if how == "save":
            state["kept"] = {x: open(os.path.join(top, x), "rb").read() for x in files}
            return
        before = scan()
        if how == "wipe":
            for x in os.listdir(top) if os.path.isdir(top) else []:
                p = os.path.join(top, x)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        else:
            for x in files:
                p = os.path.join(top, x)
                data = open(p, "rb").read()
                if how == "del":
                    os.unlink(p)
                elif how == "back":
                    if x in state["kept"]:
                        with open(p, "wb") as f:
                            f.write(state["kept"][x])
                else:
                    with open(p, "wb") as f:
                        f.write(dict(empty=b"", cut=data[:len(data) // 2], end=data[:-1], junk=b"\xff\0junk", json=b"{}")[how])
        after = scan()
        cs = []
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                a, s, r = self.pr.split(p, self.suite.areas)
                e = after.get(p)
                cs.append([a, s, r, "" if e is None else "d" if e["t"] == "d" else self.pr.reg(e["sum"])])
        kind = "lost" if how in ("del", "wipe") else "stale" if how == "back" else "hurt"
        self.add(state, dict(t="lost", v=kind, c=cs), step)

    def do_run(self, fault, state):
        if driver.too_many_hangs():
            raise Enough
        cfg = state["cfg"]
        others = ()
        netlog = None
        if self.sb.server:
            netlog = self.sb.server.log = []
            self.asked = False
        if "pause_at" in fault:
            st, recs, out, others = self.sb.run_paused(cfg, state["now"], fault)
        else:
            st, recs, out = self.sb.run(cfg, state["now"], fault)
        self.runs += 1
        if st == "killed":
            self.killed += 1
        kind = "none"
        if "kill_at" in fault:
            kind = "kill"
        elif "fail_at" in fault:
            kind = "fail"
            self.faulted += 1
        elif "xdev" in fault:
            kind = "xdev"
        elif "pause_at" in fault:
            kind = "kill" if fault.get("then") == "kill" else "none"
            self.paused += len(others)
        if kind == "kill" and st != "killed":
            kind = "none"
        evs, now = self.pr.events(recs, cfg, self.suite.areas, st, state["now"], others, netlog)
        step = dict(run=fault)
        self.add(state, dict(t="start", v=kind), step)
        for e in evs:
            self.add(state, e)
        if self.suite.mt:
            self.add(state, self.pr.times_event(self.suite.areas))
        state["now"] = now
        if st in ("timeout",) or (isinstance(st, int) and st not in (0, 1)):
            self.trie.nodes[state["node"]]["out"] = "status %s: %s" % (st, out[-600:])
        elif st == 1:
            self.trie.nodes[state["node"]]["out"] = out[-600:]
        return recs, st


def _work(args):
    suite, scenarios, tools, top = args
    try:
        ex = Executor(suite, tools, top)
        try:
            ex.execute(scenarios)
        except Enough:
            pass
        if ex.sb.server:
            ex.sb.server.close()
        nodes = ex.trie.nodes
        shutil.rmtree(top, ignore_errors=True)
        return dict(ok=True, nodes=nodes, trees=ex.worlds.objtrees(), runs=ex.runs,
                    killed=ex.killed, faulted=ex.faulted, paused=ex.paused)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def execute_suites(jobs, tools, top, procs=8):
    """jobs: [(suite, [scenarios])] -> (trie, world trees, stats)"""
    args = []
    for i, (suite, scs) in enumerate(jobs):
        args.append((suite, scs, tools, "%s/j%d" % (top, i)))
    trie = Trie()
    trees = {}
    stats = dict(runs=0, killed=0, faulted=0, paused=0, scenarios=sum(len(s) for _, s in jobs))
    if any(su.limit for su, _ in jobs):
        procs = max(procs, 28)      # they mostly wait
    for (suite, scs), r in zip(jobs, driver.spread(_work, args, procs)):
        if not r["ok"]:
            raise ToolError(r["err"])
        t = Trie()
        t.nodes = r["nodes"]
        # every suite gets a root event of its own
        pr = Projector({}, None)
        w = Worlds(suite.world)
        rootev = dict(t="root", suite=suite.name, sid=suite.sid(), now=T0,
                      src=pr.src_event(w.get(suite.src0), suite.src0)["v"],
                      cfg=pr.cfg_event(suite.cfg)["v"])
        n = trie.add(0, rootev)
        trie.merge(t, n)
        trees.update(r["trees"])
        for k in ("runs", "killed", "faulted", "paused"):
            stats[k] += r[k]
    return trie, trees, stats
