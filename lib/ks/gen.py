"""Scenarios from the TLA+ generator KSGen."""
import json
import os
import random
import re

from .driver import ToolError
from . import tlc

DEFAULT = dict(Sess=["A", "B"], MaxSer=3, MaxWin=2, Lims=[99], Ages=[0, 1, 2], MaxDep=3, MaxLen=12,
               Opts=[0], Mode=["reset", "tick"])


def tla(v):
    if isinstance(v, list):
        return "{" + ",".join(tla(x) for x in v) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


class Gen:
    """Histories of one generator configuration."""

    def __init__(self, top):
        self.top = top
        self.states = 0
        self.transitions = 0
        self.cache = {}

    def histories(self, **kw):
        key = json.dumps(kw, sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        p = dict(DEFAULT)
        p.update(kw)
        wd = "%s/gen%d" % (self.top, len(self.cache))
        os.makedirs(wd, exist_ok=True)
        with open(wd + "/gen.cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS %s\nVIEW View\nCONSTRAINT Bound\n"
                    "ACTION_CONSTRAINT Emit\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
                    % " ".join("%s = %s" % (k, tla(v)) for k, v in p.items()))
        # one worker: the histories that represent the transitions are then always the same
        rc, out = tlc.tlc("KSGen.tla", "gen.cfg", wd, workers=1)
        if "Model checking completed. No error has been found" not in out:
            raise ToolError("the scenario generator failed:\n" + out[-2000:])
        g, d = tlc.stats(out)
        self.states += d
        self.transitions += g
        hs = []
        for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
            hs.append(json.loads(m.group(1).replace('\\"', '"')))
        if not hs:
            raise ToolError("the scenario generator printed nothing")
        self.cache[key] = hs
        return hs


def to_steps(hist, clean=100, opts=None, foreign=None):
    """A history of KSGen as steps of the executor."""
    steps = []
    extra = {}
    last = None
    for h in hist:
        a = h["a"]
        if a == "cfg":
            lim = None if h["lim"] == 99 else h["lim"]
            if lim is not None or steps:
                steps.append(dict(cfg=dict(lim=lim)))
        elif a == "src":
            last = dict(sess=h["s"], ser=h["n"], win=list(range(h["n"] - h["w"] + 1, h["n"] + 1)))
            steps.append(dict(src=dict(last, **extra)))
        elif a == "bad":
            s = dict(sess=h["s"], ser=h["n"], win=list(range(h["n"] - h["w"] + 1, h["n"] + 1)))
            bad = dict(kind=h["kind"], at=h["at"])
            if h["kind"].endswith("foreign"):
                bad["uri"] = "https://elsewhere.example/rrdp/x/%s.xml" % h["kind"]
            steps.append(dict(src=dict(s, bad=bad, **extra)))
        elif a == "tick":
            steps.append(dict(tick=max(1, clean // 2)))
        elif a == "opt":
            o = opts[h["o"]]
            steps.append(dict(cfg=o.get("cfg", {})))
            extra = o.get("src", {})
            if last is not None:
                steps.append(dict(src=dict(last, **extra)))
        elif a == "run":
            steps.append(dict(run={}))
    return steps


def shape(hist):
    """What kind of transition the last run of a history is."""
    pub = None
    age = {}
    dep = {}
    seen = []
    lim = 99
    f = None
    src = None
    prev = None
    for h in hist:
        if h["a"] == "cfg":
            lim = h["lim"]
        elif h["a"] in ("src", "bad"):
            src = h
        elif h["a"] == "tick":
            dep = {k: min(2, v + 1) for k, v in dep.items()}
        elif h["a"] == "run":
            k = (src["s"], src["n"])
            nd = min(src["w"], lim)
            f = (h["o"], src.get("kind", ""), "first" if pub is None else "reset" if pub[0] != k[0] else "step%d" % (k[1] - pub[1]),
                 dep.get(k, -1), min(2, sum(1 for v in dep.values() if v == 2)), nd)
            if h["o"] == "update":
                dep = {a: b for a, b in dep.items() if b < 2 and a != k}
                if pub:
                    dep[pub] = 0
                pub = k
    return f


def pick(hists, n, rng, key=shape):
    """n histories, as many different shapes as possible."""
    by = {}
    for h in hists:
        by.setdefault(key(h), []).append(h)
    keys = sorted(by, key=str)
    for k in keys:
        rng.shuffle(by[k])
    out = []
    i = 0
    while len(out) < n and any(len(by[k]) > i for k in keys):
        for k in keys:
            if len(by[k]) > i and len(out) < n:
                out.append(by[k][i])
        i += 1
    return out
