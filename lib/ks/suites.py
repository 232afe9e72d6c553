"""Which scenarios decide which property.

Scenarios are lists of steps (see tree.py).  Most come from TLC's state graph
of KSGen; around chosen histories, every kill point and every single fault of
a run is enumerated."""
import json

from . import gen as G
from . import raw
from .net import EITHER, ODD
from .tree import Suite

R = dict(run={})


def S(s, n, w=0, **k):
    """source at session s, serial n, with the last w deltas listed"""
    win = list(range(n - w + 1, n + 1)) if isinstance(w, int) else list(w)
    return dict(src=dict(sess=s, ser=n, win=win, **k))


def T(n):
    return dict(tick=n)


def C(**k):
    return dict(cfg=k)


def kill(**k):
    return dict(run=dict(k, enum="kill"))


def fail(**k):
    return dict(run=dict(k, enum="fail"))


def put(*files):
    return dict(put=[[r, t] for r, t in files])


class Plan:
    """Collects jobs."""

    def __init__(self, tier, rng, gen):
        self.tier = tier
        self.rng = rng
        self.gen = gen
        self.jobs = []

    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        return q if self.quick() else t

    def some(self, lst, k):
        """One in k, at random (every k-th would always meet the same cases)."""
        lst = list(lst)
        return [lst[i] for i in sorted(self.rng.sample(range(len(lst)), -(-len(lst) // k)))] if k > 1 else lst

    def add(self, suite, scenarios, per=0):
        """Scenarios that share prefixes should stay in one job."""
        scs = sorted(scenarios, key=json.dumps)
        if not scs:
            return
        per = per or max(1, min(60, (len(scs) + 7) // 8))
        for i in range(0, len(scs), per):
            self.jobs.append((suite, scs[i:i + per]))

    def each(self, suite, scenarios):
        """One job for every scenario, enumerations split over several."""
        for sc in scenarios:
            if any("enum" in (st.get("run") or {}) for st in sc):
                k = self.n(2, 4)
                for i in range(k):
                    sc2 = [dict(run=dict(st["run"], shards=[i, k]))
                           if "enum" in (st.get("run") or {}) and "shards" not in st["run"] and j == first_enum(sc)
                           else st for j, st in enumerate(sc)]
                    self.jobs.append((suite, [sc2]))
            else:
                self.jobs.append((suite, [sc]))

    def histories(self, quick, thorough, clean=100, opts=None, filt=None, suite=None, tail=None, **kw):
        """Scenarios from KSGen."""
        hs = self.gen.histories(**kw)
        if filt:
            hs = [h for h in hs if filt(h)]
        n = self.n(quick, thorough)
        if n and len(hs) > n:
            hs = G.pick(list(hs), n, self.rng)
        scs = [G.to_steps(h, clean, opts) + list(tail or []) for h in hs]
        self.add(suite or Suite("gen", cfg=dict(clean=clean)), scs)


def first_enum(sc):
    for j, st in enumerate(sc):
        if "enum" in (st.get("run") or {}):
            return j


# -- prefixes: a state of the world just before an interesting run ------------

def prefixes():
    """name -> steps; the next run is the interesting one."""
    b = [S("A", 1, 0), R, S("A", 2, 1), R]
    return dict(
        fresh=[S("A", 2, 1)],
        update=b + [S("A", 3, 2)],
        jump=b + [S("A", 4, 1)],
        clean=b + [T(50), S("A", 3, 2), R, T(100), S("A", 4, 2)],
        reset=b + [S("B", 1, 1)],
        resetclean=b + [S("B", 1, 0), R, T(200), S("B", 2, 1)],
        back_to=b + [S("B", 1, 0), R, S("A", 2, 2)],
        back_to_old=b + [S("B", 1, 0), R, T(200), S("A", 2, 2)],
        back_on=b + [S("B", 1, 0), R, T(60), S("A", 3, 2)],
        empty=[S("C", 1, 0), R, S("C", 2, 1)],
        same=b,
    )


# what happens after the killed or failed run
def suffixes():
    return dict(
        again=[R, R],
        tick=[T(150), R, R],
        advance=lambda s, n: [S(s, n + 1, 2), R, R],
        reset=lambda s, n: [S("D", 1, 0), R, R],
        old=lambda s, n: [S("B" if s == "A" else "A", 3, 2), R, R],
        repeat=lambda s, n: [S("D", 1, 0), R, S(s, n, 1), R, T(200), S(s, n + 1, 1), R],
    )


def last_src(steps):
    for st in reversed(steps):
        if "src" in st:
            return st["src"]["sess"], st["src"]["ser"]


def returned(steps):
    """The source is again as it was before its last change; then it goes on."""
    srcs = [st["src"] for st in steps if "src" in st]
    s, n, w = srcs[-2]["sess"], srcs[-2]["ser"], srcs[-2]["win"]
    return [S(s, n, w), R, R, S(s, n + 1, [n + 1]), R]


def around(pre, mid, sufs):
    s, n = last_src(pre)
    out = []
    for k in sufs:
        x = suffixes()[k]
        out.append(pre + [mid] + (x(s, n) if callable(x) else x))
    return out


def kills(p, pres, sufs, cfg=None, name="kill", **spec):
    pf = prefixes()
    for k in pres:
        su = Suite("%s-%s" % (name, k), cfg=cfg)
        p.each_group(su, around(pf[k], kill(**spec), sufs))


def fails(p, pres, sufs, cfg=None, name="fail", **spec):
    pf = prefixes()
    for k in pres:
        su = Suite("%s-%s" % (name, k), cfg=cfg)
        p.each_group(su, around(pf[k], fail(**spec), sufs))


def each_group(self, suite, scs, k=None):
    """Scenarios that share the enumerated run stay together; the enumeration
    is split over several jobs."""
    k = k or self.n(3, 8)
    for i in range(k):
        out = []
        for sc in scs:
            f = first_enum(sc)
            out.append([dict(run=dict(st["run"], shards=[i, k])) if j == f else st for j, st in enumerate(sc)])
        self.jobs.append((suite, out))


Plan.each_group = each_group

FULL = dict(MaxSer=3, MaxWin=2)


def flips(clean_opts=("100",)):
    """Sessions alternating, handcrafted long histories."""
    out = []
    for d in (0, 30, 99, 100, 101, 250):
        for e in (0, 60, 100, 130):
            out.append([S("A", 1, 0), R, S("A", 2, 1), R, S("B", 1, 0), R, T(d), S("A", 2, 2), R, T(e),
                        S("A", 3, 2), R, T(d), S("B", 1, 0), R, T(e), S("B", 2, 1), R, T(200), S("A", 3, 0), R])
    return out


# serials where the number of digits or the size of the number changes
OFFS = [7, 97, 2 ** 31 - 4, 2 ** 32 - 4, 2 ** 53 - 4, 2 ** 63 - 4, 2 ** 64 - 40]


def offs(p, k, cfg=None, name="serials", **world):
    """Suites with some large serials."""
    os = OFFS if not p.quick() else [7] + p.rng.sample(OFFS[1:], k)
    return [Suite("%s-%d" % (name, o), cfg=cfg, world=dict(world, off=o)) for o in os]


STYLE = dict(style=1)
LAYOUTS = ["flat", "kinds", "nested", "odd", "deep", "long", "temp"]


def layouts(p, q, t, filt=None, kill=(), **kw):
    """Other places for snapshots and deltas."""
    for i, l in enumerate(LAYOUTS):
        p.histories(q, t, suite=Suite("layout-" + l, world=dict(layout=l)), **(kw or FULL))
        for k in kill if not p.quick() or l in ("nested", "odd") else ():
            p.each_group(Suite("layout-kill-%s-%s" % (l, k), world=dict(layout=l)), around(prefixes()[k], globals()["kill"](torn=False, stride=p.n(3, 1)), ["again"]))


def c01(p):
    p.histories(500, 0, **FULL)
    p.histories(150, 0, clean=0, **FULL)
    p.histories(150, 0, suite=Suite("delay", cfg=dict(clean=100, delay=60)), **FULL)
    p.histories(150, 0, Lims=[99, 0, 1, 2], Mode=["reset", "lim"], MaxSer=3, MaxWin=3)
    p.add(Suite("flips"), flips())
    p.add(Suite("flips0", cfg=dict(clean=0)), flips())
    p.each_group(Suite("flips-kill"), [[S("A", 1, 0), R, S("A", 2, 1), R, S("B", 1, 0), R, T(150), S("A", 2, 2),
                                        kill(), R, T(150), S("A", 3, 2), R]])
    p.each_group(Suite("xdev"), [prefixes()["clean"] + [kill(xdev=["rrdp"]), R]])
    kills(p, p.n(["clean", "back_to"], list(prefixes())), p.n(["again"], ["again", "repeat", "tick", "reset"]))
    kills(p, ["update"], ["again", "reset"])
    fails(p, p.n(["clean"], list(prefixes())), ["again"], errnos=[5], reads=False)
    layouts(p, 25, 300)
    p.add(Suite("layout-nested", world=dict(layout="nested")), flips())
    for l in ("odd", "temp"):
        p.each_group(Suite("layout-xdev", world=dict(layout=l)), [prefixes()[k] + [kill(xdev=["rrdp"]), R] for k in p.n(["clean"], ["update", "clean", "reset"])])


def c02(p):
    p.histories(700, 0, **FULL)
    p.histories(150, 0, MaxSer=4, MaxWin=3, Mode=["reset", "rewin"], Sess=["A", "C"])
    p.histories(100, 0, Lims=[99, 0, 1, 2], Mode=["reset", "lim"], MaxSer=3, MaxWin=3)
    p.histories(60, 300, suite=Suite("norsync", cfg=dict(rsync=False)), **FULL)
    sh = [[S("A", 2, 0), R, S("A", 6, 4, bad=dict(kind="unsorted")), R, S("A", 7, 5), R],
          [S("A", 3, 3, bad=dict(kind="unsorted")), R, S("A", 5, 3, bad=dict(kind="unsorted")), R,
           S("A", 6, 2, bad=dict(kind="unsorted")), R],
          [S("C", 1, 0), R, S("C", 2, 1), R, S("C", 3, 2), R, S("A", 1, 0), R, S("C", 4, 3), R]]
    p.add(Suite("odd"), sh)
    for nn in ("notification.xml", "n.xml", "some.name", "x"):
        for base in ("rrdp/", "", "a/b/c/"):
            k = dict(nname=nn, base=base)
            p.add(Suite("names", cfg=k, src0=dict(sess="A", ser=1, win=[], **k),
                        areas=dict(rrdp=["rrdp"], rsync=["rsync"], names=[nn])),
                  [[R, S("A", 2, 1, **k), R, S("B", 4, 2, **k), R]])


    for su in offs(p, 2):
        p.histories(60, 600, suite=su, **FULL)
    p.histories(100, 0, suite=Suite("style", world=STYLE), MaxSer=3, MaxWin=2, Sess=["A", "C"], Mode=["reset", "tick"])
    p.add(Suite("style-odd", world=STYLE), sh)
    lots(p)
    layouts(p, 40, 400)


def lots(p):
    """Many and large objects, long lists."""
    b = [[R, S("A", 2, 1), R, S("A", 3, 2), R, S("B", 1), R, S("A", 4), R]]
    p.add(Suite("bulk", world=dict(bulk=[p.n(120, 2000), p.n(5 * 2 ** 20, 2 ** 24)])), b)
    p.add(Suite("bulk-style", world=dict(bulk=[60, 2 ** 18], style=1), cfg=dict(host=True)), b)


def c03(p):
    p.histories(600, 0, MaxSer=4, MaxWin=3, Mode=["reset", "rewin"])
    p.histories(500, 0, Lims=[99, 0, 1, 2], Mode=["reset", "lim"], MaxSer=4, MaxWin=3)
    p.histories(200, 0, MaxSer=5, MaxWin=4, Sess=["A"], Mode=["rewin"])
    lim = []
    for a in (None, 0, 1, 2, 3, 5):
        for b in (None, 0, 1, 3):
            lim.append([C(lim=a), S("A", 3, 3), R, S("A", 4, 4), R, C(lim=b), S("A", 6, 5), R, S("A", 7, 2), R,
                        C(lim=a), S("A", 9, 6), R, S("A", 10, 7), R])
    p.add(Suite("limits"), lim)
    un = [[C(lim=l), S("A", 3, 3, bad=dict(kind="unsorted")), R, S("A", 6, 5, bad=dict(kind="unsorted")), R,
           S("A", 7, 4, bad=dict(kind="unsorted")), R] for l in (None, 0, 1, 2, 3, 4)]
    # a gap that the limit hides, and one that it does not
    ga = [[C(lim=l), S("A", 1, 0), R, S("A", 6, [1, 2, 4, 5, 6]), R, S("A", 7, [2, 4, 5, 6, 7]), R, S("A", 8, 3), R]
          for l in (None, 1, 2, 3, 4)]
    # the list ends before the serial
    en = [[S("A", 1, 0), R, S("A", 4, [2, 3]), R, S("A", 5, [2, 3]), R, S("A", 5, 4), R, S("A", 6, [3, 4, 5]), R, S("A", 7, 4), R],
          [C(lim=2), S("A", 3, [1, 2]), R, S("A", 5, [2, 3, 4]), R, S("A", 6, 3), R]]
    p.add(Suite("lists"), un + ga + en)
    for su in offs(p, 2):
        p.add(su, p.some(lim, p.n(3, 1)) + un + ga + en)
    # long lists
    lo = []
    for l in (None, 10, 60, 1000000):
        lo += [[C(lim=l), S("A", 40, 40), R, S("A", 41, 41), R, S("A", 130, 120), R, S("A", 131, 30), R, S("A", 160, 120), R],
               [C(lim=l), S("A", 99, 0), R, S("A", 101, 101), R, S("A", 110, 20, bad=dict(kind="unsorted")), R, S("B", 20, 20), R, S("A", 111, 100), R]]
    p.add(Suite("long", world=dict(rich=False)), lo, per=1)


def c04(p):
    p.histories(800, 0, Mode=["reset", "back", "tick"], MaxSer=3, MaxWin=1)
    b = [S("A", 1, 0), R, S("A", 3, 2), R]
    low = [b + [S("A", n, w), R, S("A", 3, 2), R, S("A", 4, 1), R] for n in (1, 2) for w in range(0, n + 1)]
    low += [b + [S("B", 1, 0), R, S("A", n, 0), R, S("A", m, 0), R] for n in (1, 2, 3) for m in (1, 2, 3)]
    low += [b + [C(**c), S("A", 2, 1), R, S("A", 3, 2), R] for c in
            (dict(rsync=False), dict(host=True), dict(lim=1), dict(lim=0), dict(clean=0), dict(delay=10))]
    p.add(Suite("low"), low)
    p.add(Suite("low-norsync", cfg=dict(rsync=False)), low)
    for su in offs(p, 3):
        p.add(su, p.some(low, p.n(2, 1)))
        p.histories(40, 400, suite=su, Mode=["reset", "back"], MaxSer=3, MaxWin=1)
    p.add(Suite("style", world=STYLE), low)
    # to and fro between one and two more digits
    far = [[S("A", a, 0), R, S("A", b, 1), R, S("A", c, 0), R, S("A", b, 0), R, S("A", b + 1, 0), R]
           for a, b, c in ((2, 10, 9), (9, 10, 9), (9, 100, 99), (20, 100, 21), (99, 1000, 100), (3, 200, 30), (65535, 65536, 65535), (255, 256, 255))]
    p.add(Suite("far"), far)
    # after interrupted runs
    for pre, nx in (("update", [S("A", 2, 1)]), ("jump", [S("A", 3, 1)]), ("back_on", [S("A", 2, 1)]),
                    ("back_on", [S("B", 1, 1)])):
        p.each_group(Suite("kill-low"), [prefixes()[pre] + [kill(), nx[0], R, R]], k=2)
        p.each_group(Suite("fail-low"), [prefixes()[pre] + [fail(reads=False, partial=False), nx[0], R, R]], k=2)


BAD = ["gap", "dup", "snap-missing", "snap-hash", "snap-wrong", "snap-garbage", "snap-trunc", "snap-badobj",
       "snap-delta", "delta-missing", "delta-hash", "delta-garbage", "delta-trunc", "delta-badobj", "delta-snap",
       "notif-garbage", "notif-trunc", "notif-empty", "notif-baduuid", "notif-nosnap", "notif-badhash",
       "notif-missing"]
FOREIGN = ["https://elsewhere.example/rrdp/x/%s.xml", "http://src.example/rrdp/x/%s.xml",
           "https://src.example/rrdp2/%s.xml", "https://src.example/%s.xml", "https://src.example/rrdp",
           "https://src.example:444/rrdp/%s.xml", "https://src.example/rrdp-other/x/%s.xml",
           "https://src.example.elsewhere.example/rrdp/x/%s.xml", "https://elsewhere.example/https/src.example/rrdp/%s.xml",
           "https://src.example/x/rrdp/%s.xml", "https://src.example/RRDP/%s.xml", "https://rsrc.example/rrdp/%s.xml",
           "https://src.example/rrd/p/%s.xml"]


def bads(s, n, w):
    """all defects of one revision"""
    out = []
    win = list(range(n - w + 1, n + 1))
    for k in BAD:
        if k.startswith("delta") or k == "dup":
            out += [dict(kind=k, at=a) for a in win]
        elif k == "gap":
            out += [dict(kind=k, at=a) for a in win[1:-1]]
        else:
            out.append(dict(kind=k))
    for u in FOREIGN:
        uu = u % "f" if "%s" in u else u
        out.append(dict(kind="snap-foreign", uri=uu))
        out += [dict(kind="delta-foreign", at=a, uri=uu) for a in win]
    return out


def c05(p):
    p.histories(500, 6000, Mode=["bad", "back", "reset"], MaxSer=3, MaxWin=2)
    pf = prefixes()
    p.add(Suite("foreign"), [pf[k] + [S(*last_src(pf[k]), 1, bad=b), R, S(*last_src(pf[k]), 1), R] for k in ("fresh", "update")
                             for b in bads(*last_src(pf[k]), 1) if b["kind"].endswith("foreign")])
    scs = []
    for k in ("fresh", "update", "jump", "clean", "reset", "back_to", "empty", "same"):
        s, n = last_src(pf[k])
        w = 3 if n >= 3 else 1
        for b in bads(s, n, w):
            scs.append(pf[k] + [S(s, n, w, bad=b), R, S(s, n, w), R])
            if not p.quick():
                scs.append(pf[k] + [S(s, n, w, bad=b), R, R, T(200), R, S(s, n + 1, 2), R])
    if p.quick():
        scs = p.rng.sample(scs, min(len(scs), 330))
    p.add(Suite("bad"), scs)
    lim = []
    for l in (1, 2):
        for b in bads("A", 4, 3):
            lim.append([C(lim=l), S("A", 1, 0), R, S("A", 2, 1), R, S("A", 4, 3, bad=b), R, S("A", 4, 3), R])
    if p.quick():
        lim = p.rng.sample(lim, 60)
    p.add(Suite("bad-lim"), lim)
    nr = [pf["update"] + [S("A", 3, 2, bad=b), R, S("A", 3, 2), R] for b in bads("A", 3, 2)]
    p.add(Suite("bad-norsync", cfg=dict(rsync=False)), nr)
    p.add(Suite("bad-host", cfg=dict(host=True)), p.rng.sample(nr, 12) if p.quick() else nr)
    p.add(Suite("bad-style", world=STYLE), p.rng.sample(nr, 20) if p.quick() else nr)
    for su in offs(p, 1, name="bad-serials"):
        p.add(su, p.rng.sample(nr, 20) if p.quick() else nr)
    # two defects in a row, one of them after a kill
    tw = [pf["update"] + [S("A", 3, 2, bad=b), R, S("A", 4, 3, bad=c), R, S("A", 4, 3), R]
          for b in bads("A", 3, 2) for c in bads("A", 4, 3)]
    p.add(Suite("bad-twice"), p.rng.sample(tw, p.n(60, 600)))


def moved_on(s, n, p):
    d = dict(reset=[S("D", 1, 0), R, T(60), S("D", 2, 1), R],
             advance=[S(s, n + 1, 1), R, T(60), S(s, n + 2, 1), R, T(60), R])
    if not p.quick():
        d.update(late=[T(60), S("D", 1, 0), R, T(60), S("D", 2, 1), R, T(60), S("D", 3, 1), R],
                 old=[S("B" if s == "A" else "A", 4, 1), R, T(60), S(s, n + 1, 1), R, T(60), S("D", 1, 0), R])
    return d


def clock_back():
    out = []
    for d in (1, 50, 99, 100, 101, 500):
        for e in (50, 100, 600):
            out.append([T(1000), S("A", 1, 0), R, T(60), S("A", 2, 1), R, T(-d), S("A", 3, 1), R, T(e), S("B", 1, 0), R, T(-d), S("B", 2, 1), R,
                        T(e), S("A", 3, 2), R, T(e), S("A", 4, 1), R])
    return out


def c06(p):
    p.histories(500, 0, **FULL)
    p.histories(150, 0, suite=Suite("delay", cfg=dict(clean=100, delay=40)), **FULL)
    p.histories(150, 0, Lims=[99, 0, 1], Mode=["reset", "lim", "tick"], MaxSer=3, MaxWin=2)
    p.add(Suite("flips"), flips())
    times = []
    for d in (0, 1, 49, 50, 98, 99, 100, 101):
        for e in (0, 1, 2, 50, 99, 100):
            times.append([S("A", 1, 1), R, S("A", 2, 2), R, T(d), S("A", 3, 1), R, T(e), S("A", 4, 1), R,
                          T(d), S("B", 1, 0), R, T(e), S("B", 2, 1), R, T(e), S("B", 3, 1), R])
    p.add(Suite("times"), times)
    p.add(Suite("times-delay", cfg=dict(delay=30)), p.some(times, p.n(4, 1)))
    p.add(Suite("times-serials", world=dict(off=7)), p.some(times, p.n(4, 1)))
    p.add(Suite("times-long", cfg=dict(clean=200000000)), p.some(times, p.n(9, 1)))
    # the clock is set back
    p.add(Suite("clock"), clock_back())
    for k in p.n(["clean", "resetclean"], list(prefixes())):
        pre = prefixes()[k]
        s, n = last_src(pre)
        su = [R, T(60), S(s, n + 1, 1), R, T(60), S(s, n + 2, 1), R]
        p.each_group(Suite("kill-%s" % k), [pre + [kill()] + su])
        p.each_group(Suite("fail-%s" % k), [pre + [fail(reads=False, partial=False)] + su])
    # the source moves on after the killed run
    for k in p.n(["back_to_old", "resetclean"], list(prefixes())):
        pre = prefixes()[k]
        s, n = last_src(pre)
        for name, su in moved_on(s, n, p).items():
            p.each_group(Suite("killmove-%s-%s" % (k, name)), [pre + [kill(torn=False)] + su])
            if not p.quick():
                p.each_group(Suite("failmove-%s-%s" % (k, name)), [pre + [fail(reads=False, partial=False)] + su])
    p.each_group(Suite("kill-delay", cfg=dict(delay=30)),
                 [prefixes()["update"] + [kill(), T(60), R, T(60), S("A", 4, 1), R, S("A", 5, 1), R]], k=2)
    layouts(p, 30, 300, MaxSer=3, MaxWin=2, Mode=["reset", "tick"])


FOREIGN_FILES = [("rrdp/foreign.xml", "x"), ("rrdp/a/b/c.txt", "y"),
                 ("rrdp/a0000000-0000-4000-8000-00000000000a/1/r1/other.xml", "z"),
                 ("rrdp/a0000000-0000-4000-8000-00000000000a/9/r9/snapshot.xml", "w"),
                 ("rrdp/a0000000-0000-4000-8000-00000000000a/readme", "v")]


def c07(p):
    p.histories(600, 0, **FULL)
    p.histories(150, 0, clean=0, **FULL)
    p.histories(150, 0, suite=Suite("delay", cfg=dict(clean=100, delay=40)), **FULL)
    p.histories(150, 0, Lims=[99, 0, 1], Mode=["reset", "lim", "tick"], MaxSer=3, MaxWin=2)
    p.add(Suite("flips"), flips())
    fo = [[put(*FOREIGN_FILES)] + sc for sc in p.some(flips(), p.n(3, 1))]
    fo += [[S("A", 1, 0), R, put(*FOREIGN_FILES)] + sc for sc in p.some(flips(), p.n(3, 1))]
    p.add(Suite("foreign-files"), fo)
    if not p.quick():
        p.histories(0, 800, suite=Suite("foreign-gen"), tail=[put(*FOREIGN_FILES), S("D", 1, 0), R, T(200), S("D", 2, 1), R], **FULL)
    p.add(Suite("clock"), clock_back())
    # removal while a file waits
    p.add(Suite("long"), [[S("A", 1, 1)] + sum([[R, T(t), S("A", i, w)] for i in range(2, 14)], []) + [R]
                          for t in (10, 34, 50, 99, 100) for w in (0, 1, 2)])
    layouts(p, 40, 400, MaxSer=3, MaxWin=2, Mode=["reset", "tick"])
    for l in ("flat", "nested", "kinds"):
        p.add(Suite("layout-" + l, world=dict(layout=l)), p.some(flips(), p.n(3, 1)))


def c08(p):
    p.histories(500, 0, tail=[R, T(70), R], **FULL)
    p.histories(100, 0, tail=[T(500), R, C(clean=0), R, C(lim=1), R], clean=50, **FULL)
    p.histories(60, 500, suite=Suite("delay", cfg=dict(delay=40)), tail=[R, T(200), R], **FULL)
    p.histories(60, 500, suite=Suite("norsync", cfg=dict(rsync=False)), tail=[R, T(200), R], **FULL)
    p.histories(60, 500, suite=Suite("host", cfg=dict(host=True)), tail=[R, T(200), R], **FULL)
    p.histories(100, 0, Lims=[99, 0, 1], Mode=["reset", "lim"], MaxSer=3, MaxWin=3, tail=[R, R])
    for su in offs(p, 2):
        p.histories(30, 500, suite=su, tail=[R, T(70), R], **FULL)
    p.histories(60, 500, suite=Suite("style", world=STYLE), tail=[R, T(70), R], **FULL)
    # the list of deltas changes, the revision does not
    p.histories(150, 0, Mode=["rewin", "reset"], MaxSer=3, MaxWin=3, tail=[R])
    # defects that do not matter when there is nothing to do
    sc = []
    for b in bads("A", 2, 2):
        if not b["kind"].startswith("notif"):
            sc.append([S("A", 1, 0), R, S("A", 2, 2), R, S("A", 2, 2, bad=b), R, T(200), R])
    p.add(Suite("unneeded"), sc)


def c09(p):
    sufs = p.n(["again", "advance", "reset"], list(suffixes()))
    kills(p, p.n(["fresh", "update", "clean", "reset", "back_to_old"], list(prefixes())), sufs)
    kills(p, ["update"], ["again", "tick"], cfg=dict(clean=0), name="kill0", torn=False)
    kills(p, p.n(["update"], ["update", "clean", "reset"]), ["again"], cfg=dict(delay=30), name="killd")
    kills(p, p.n(["reset"], ["update", "clean", "reset"]), ["again"], cfg=dict(rsync=False), name="killn")
    kills(p, p.n(["update"], ["update", "clean", "reset"]), ["again"], cfg=dict(host=True), name="killh")
    kills(p, p.n(["jump"], ["update", "clean", "jump"]), ["again", "advance"], cfg=dict(lim=1), name="killl")
    # the source returns to what it was before the killed run
    pf = prefixes()
    for k in ("reset", "back_to_old"):
        ret = returned(pf[k])
        p.each_group(Suite("return-%s" % k), [pf[k] + [kill()] + ret])
        for v in p.n([VIAS[4], VIAS[9]], VIAS[4:]):
            su = net_suite("kill-%s-%s" % (k, via_name(v)), v)
            p.each_group(su, [at_shape(x, su) for x in [pf[k] + [kill(torn=False)] + ret] + around(pf[k], kill(torn=False), p.n(["again"], ["again", "advance", "old"]))], k=2)
    for v in p.n([VIAS[9]], VIAS[4:]):
        su = net_suite("kill-update-" + via_name(v), v)
        p.each_group(su, [at_shape(x, su) for x in around(pf["update"], kill(torn=False), p.n(["again", "advance"], list(suffixes())))], k=2)
    for su in offs(p, 1, name="kill-serials"):
        p.each_group(su, around(pf["back_to_old"], kill(torn=False), ["again", "advance"]), k=2)
    p.each_group(Suite("kill-style", world=STYLE), around(pf["reset"], kill(torn=False), ["again"]), k=2)
    # two runs killed, one after the other
    for k in p.n(["update"], ["fresh", "update", "clean", "reset", "back_to_old"]):
        st = p.n(9, 2)
        p.each_group(Suite("twice-%s" % k),
                     [pf[k] + [kill(stride=p.n(7, 1), offset=p.rng.randrange(7), torn=False),
                               kill(stride=st, offset=p.rng.randrange(st)), R, R]], k=8)
    # killed, the source breaks, and recovers
    for k in ("update", "reset"):
        s, n = last_src(pf[k])
        p.each_group(Suite("killbad-%s" % k),
                     [pf[k] + [kill(torn=False), S(s, n + 1, 2, bad=dict(kind=b, at=n + 1)), R, S(s, n + 1, 2), R, R]
                      for b in p.n(["snap-missing"], ["snap-missing", "delta-hash", "snap-hash", "notif-garbage"])], k=p.n(2, 8))


def c10(p):
    pf = prefixes()
    sufs = p.n(["again"], ["again", "advance", "reset"])
    fails(p, p.n(["fresh", "update", "clean", "back_to_old"], list(prefixes())), sufs, errnos=[5])
    fails(p, p.n(["clean"], list(prefixes())), ["again"], errnos=[28], name="nospc", reads=False)
    fails(p, p.n([], ["fresh", "update", "clean"]), ["again"], errnos=[13, 30], name="acc", partial=False)
    fails(p, p.n(["update"], ["fresh", "update", "clean", "reset"]), ["again"], errnos=[], name="sticky", sticky=1, partial=False)
    fails(p, p.n(["reset"], ["reset", "update", "clean"]), ["again"], cfg=dict(delay=30), name="faild", errnos=[5], reads=False)
    fails(p, p.n(["update"], ["update", "clean"]), ["advance"], cfg=dict(rsync=False), name="failn", errnos=[5])
    # the source returns to what it was before the failed run
    for k in p.n(["reset"], ["reset", "back_to_old"]):
        p.each_group(Suite("return-%s" % k), [pf[k] + [fail(errnos=[5])] + returned(pf[k])])
        for v in p.n([VIAS[9]], VIAS[4:]):
            su = net_suite("fail-%s-%s" % (k, via_name(v)), v)
            p.each_group(su, [at_shape(pf[k] + [fail(errnos=[5])] + returned(pf[k]), su), at_shape(pf[k] + [fail(errnos=[5]), R, R], su)], k=2)
    # files that take many calls to read and write
    p.each_group(Suite("bulk", world=dict(bulk=[3, 2 ** 16])), [pf["update"] + [fail(errnos=[5], stride=p.n(3, 1), offset=p.rng.randrange(3)), R, R]])
    # everything on different file systems
    x = dict(run=dict(xdev=["rrdp"]))
    xs = []
    for k in pf:
        s, n = last_src(pf[k])
        pre = [x if st == R else st for st in pf[k]]
        xs.append(pre + [x, x, T(200), S(s, n + 1, 1), x, R, S("D", 1, 0), x])
    p.add(Suite("xdev"), xs)
    fails(p, p.n(["update"], ["update", "clean", "reset"]), ["again"], name="xfail", errnos=[28], xdev=["rrdp"], reads=True)
    p.each_group(Suite("xkill"), [pf["update"] + [kill(xdev=["rrdp"]), x, R]], k=2)
    # a failed run followed by another failing one
    p.each_group(Suite("failtwice"),
                 [pf["update"] + [fail(errnos=[5], reads=False, partial=False, stride=p.n(5, 1), offset=p.rng.randrange(5)),
                                  fail(errnos=[28], reads=False, stride=p.n(11, 3), offset=p.rng.randrange(3)), R, R]], k=8)


def c11(p):
    p.histories(500, 0, **FULL)
    p.histories(150, 0, clean=0, **FULL)
    p.add(Suite("flips"), flips())
    p.add(Suite("flips0", cfg=dict(clean=0)), flips())
    # the same revision is installed again (files missing, session returns)
    kills(p, p.n(["update", "back_to_old", "resetclean"], list(prefixes())), p.n(["again", "repeat"], list(suffixes())))
    fails(p, p.n(["clean"], list(prefixes())), ["again"], errnos=[5], reads=False, partial=False)
    hst = []
    for seq in ([0, 1, 0], [1, 0, 1], [0, 1, 1, 0]):
        sc = []
        for i, h in enumerate(seq):
            sc += [C(host=bool(h)), S("A" if i % 2 == 0 else "B", 1 + i, 1), R, T(60)]
        hst.append(sc)
        hst.append([C(host=bool(seq[0])), S("A", 1), R, C(host=bool(seq[1])), S("B", 1), R, S("A", 1), R, T(200), S("B", 1), R,
                    C(host=bool(seq[2])), S("A", 1), R, S("B", 2), R])
    p.add(Suite("hosts"), hst)
    p.each_group(Suite("hosts-kill"), [[S("A", 1), R, S("B", 1), R, C(host=True), S("A", 1), kill(torn=False), R, C(host=False), S("B", 1), R, R]], k=2)


def multi(**cfg):
    return dict(cfg=cfg, world=dict(multihost=True))


def c12(p):
    hs = dict(MaxSer=3, MaxWin=1, Mode=["reset"], Sess=["A", "B"])
    p.histories(400, 0, **FULL)
    p.histories(150, 0, suite=Suite("host", **multi(host=True)), **FULL)
    for h in (False, True):
        p.add(Suite("names", cfg=dict(host=h), world=dict(multihost="names")), [[R, S("A", 2, 1), R, S("A", 3, 1), R, S("B", 1), R]])
    lots(p)
    for su in offs(p, 1):
        p.histories(30, 300, suite=su, **FULL)
    p.histories(100, 0, suite=Suite("emptysnap"), MaxSer=4, MaxWin=1, Mode=["reset"], Sess=["A", "C"])
    p.histories(60, 0, suite=Suite("norsync", cfg=dict(rsync=False)), **hs)
    p.histories(60, 0, suite=Suite("norsync-clean0", cfg=dict(rsync=False, clean=0)), **hs)
    sw = []
    for seq in ([(1, 0), (1, 1), (0, 0), (1, 0)], [(0, 1), (1, 1), (1, 0), (0, 0), (1, 1)], [(1, 1), (0, 1), (1, 1)],
                [(1, 0), (0, 0), (0, 0), (1, 0)]):
        sc, n = [], 1
        for r, h in seq:
            sc += [C(rsync=bool(r), host=bool(h)), S("A", n, 1), R, T(60)]
            n += 1
        sw.append(sc)
        sw.append(sc + [S("B", 1, 0), R, S("A", n, 1), R, T(200), S("A", n + 1, 0), R])
    p.add(Suite("switch", world=dict(multihost=True)), sw)
    # left-over directories of interrupted runs
    kills(p, p.n(["update", "reset"], list(prefixes())), p.n(["again", "repeat"], list(suffixes())))
    p.each_group(Suite("kill-host", **multi(host=True)), around(prefixes()["reset"], kill(), ["again"]), k=2)
    fails(p, ["update"], ["again"], errnos=[28], reads=False)
    # the directory that will be used has files with other content
    u = "a0000000-0000-4000-8000-00000000000a"
    p.add(Suite("leftover"), [[S("A", 1, 0), R, put(("rsync/session_%s_serial_2/%s" % (u, f), "left"),
                               ("rsync/session_%s_serial_2_host/%s" % (u, f), "left")), S("A", 2, 1), R, R]
                              for f in ("ca/a.bin", "ca/even/e.bin", "ca/0/same.bin", "top.bin")])


def c13(p):
    p.histories(500, 0, **FULL)
    p.histories(150, 0, clean=0, **FULL)
    p.histories(80, 0, suite=Suite("delay", cfg=dict(clean=100, delay=40)), **FULL)
    p.add(Suite("flips"), flips())
    times = []
    for d in (0, 1, 50, 99, 100, 101):
        for e in (0, 1, 50, 99, 100):
            times.append([S("A", 1), R, T(d), S("A", 2), R, T(e), S("B", 1), R, T(d), S("A", 2), R, T(e), S("A", 3), R,
                          T(d), S("A", 4), R, T(200), S("A", 5), R])
    p.add(Suite("times"), times)
    p.add(Suite("times-host", cfg=dict(host=True)), p.some(times, 3))
    for su in offs(p, 1):
        p.add(su, p.some(times, p.n(3, 1)))
    p.add(Suite("times-long", cfg=dict(clean=200000000)), p.some(times, p.n(9, 1)))
    p.add(Suite("clock"), clock_back())
    for k in p.n(["clean", "back_to"], list(prefixes())):
        pre = prefixes()[k]
        s, n = last_src(pre)
        su = [R, T(60), S(s, n + 1), R, T(60), S(s, n + 2), R]
        p.each_group(Suite("kill-%s" % k), [pre + [kill(torn=False)] + su])
        p.each_group(Suite("fail-%s" % k), [pre + [fail(reads=False, partial=False)] + su])
    for k in p.n(["back_to_old"], list(prefixes())):
        pre = prefixes()[k]
        s, n = last_src(pre)
        for name, su in moved_on(s, n, p).items():
            p.each_group(Suite("killmove-%s-%s" % (k, name)), [pre + [kill(torn=False)] + su])
    hst = [[C(host=False), S("A", 1), R, S("B", 1), R, C(host=True), S("A", 1), R, T(t), C(host=False), S("B", 2), R, T(t), S("A", 1), R,
            T(t), S("A", 2), R] for t in (0, 60, 100, 150)]
    p.add(Suite("hosts"), hst)


SEG = ["..", ".", "", "x", "%2e%2e", "a b", "...", "..x", ".%2E", "..%2f.."]


def c16(p):
    # locations of snapshot and deltas
    paths = ["../evil.xml", "../../evil.xml", "x/../../evil.xml", "x/../../../evil.xml", "..", ".", "", "/abs.xml", "//abs.xml",
             "x//y.xml", "x/./y.xml", "./y.xml", "../rrdp2/y.xml", "../state/rrdp-state.json", "../rsync/current", "x/..", "x/.",
             "%2e%2e/y.xml", "..%2fy.xml", "x/", "notification.xml", "../src/y.xml", "....//y.xml", "a/b/c/d/e/f/g.xml",
             "../../../../../../../../tmp/evil.xml", "x/../y.xml", "..%2f..%2fevil.xml", "x/%2E%2e/%2e%2E/.%2e/evil.xml", "%2fevil.xml",
             "..%5cevil.xml", "%252e%252e/evil.xml"]
    scs = []
    for q in paths:
        scs.append([S("A", 2, 1, bad=dict(kind="paths", snap=q)), R, S("A", 3, 1), R, R])
        scs.append([S("A", 1, 0), R, S("A", 3, 2, bad=dict(kind="paths", deltas={"3": q})), R, S("A", 4, 2), R])
        scs.append([S("A", 1, 0), R, S("A", 3, 2, bad=dict(kind="paths", deltas={"2": q}, snap="s-" + "n.xml")), R, T(200), S("A", 4, 1), R, T(200), S("A", 5, 0), R])
    p.add(Suite("paths"), scs)
    # object URIs: every combination of segments
    objs = []
    auth = ["..", ".", "h", "rsync.example:873"]
    for a in auth:
        for m in SEG:
            for o in ("x", "../x", "../../x", "a/../../x", ".", "a/..", "a//b", "x/", "..", "a/../b"):
                objs.append("rsync://%s/%s/%s" % (a, m, o))
    objs += ["rsync://h/m/%s" % ("../" * k + "evil") for k in range(1, 7)]
    must = ["rsync://h/m/%s" % o for o in ("%2e%2e/evil", "%2E%2e/.%2e/evil", "a/%2e./../evil", "..%2fevil", "a%2f..%2f..%2fevil", "%2fevil",
                                           "%2e%2e/%2e%2e/evil", "a/%2E%2E/%2E%2E/%2E%2E/evil", "%252e%252e/evil", "..%5cevil", "a%00b")]
    must += ["rsync://%2e%2e/m/evil", "rsync://h/%2e%2e/evil", "rsync://%2e%2e/%2e%2e/evil", "rsync://h/..%2f../evil", "rsync://..%2f../m/evil",
             "rsync://../m/x", "rsync://h/../x", "rsync://../../x", "rsync://h/m/../../x", "rsync://./m/x"]
    objs += ["rsync://../../x", "rsync://..//x", "rsync:///m/x", "rsync:////x", "rsync://h//etc/x", "RSYNC://../m/x", "rsync://.../m/x"]
    if p.quick():
        objs = p.rng.sample(objs, 110)
    for o in must + objs:
        for host in (False, True):
            p.jobs.append((Suite("obj", cfg=dict(host=host), world=dict(hostile=[o])), [[R, S("A", 2, 1), R]]))
    p.histories(60, 800, **FULL)
    p.add(Suite("foreign"), [[S("A", 1, 0), R, S("A", 2, 1, bad=dict(kind="snap-foreign", uri=u % "f" if "%s" in u else u)), R] for u in FOREIGN])
    p.add(Suite("flips0", cfg=dict(clean=0)), p.some(flips(), p.n(6, 1)))
    # the directories change
    ds = [dict(rdir="rrdp2"), dict(sdir="rsync2"), dict(rdir="", sdir=""), dict(rdir="rrdp2", sdir="rsync2", host=True), dict(nname="other.xml"), dict(rsync=False)]
    mv = []
    for d in ds:
        for c in (0, 100):
            x = dict(OPT_BASE, clean=c)
            for s, n in (("A", 3), ("B", 1)):
                nm = dict(nname=d.get("nname", "notification.xml"))
                mv.append([dict(cfg=x), S("A", 1, 0), R, S("A", 2, 1), R, dict(cfg=dict(x, **d)), S(s, n, 1, **nm), R, T(200), S(s, n + 1, 1, **nm), R, T(200),
                           dict(cfg=x), S(s, n + 2, 1), R, T(200), S(s, n + 3, 1), R])
    p.add(Suite("moved", areas=OPT_AREAS, src0=dict(sess="A", ser=1, win=[], **OPT_SRC)), mv)
    kills(p, p.n([], ["clean", "reset"]), ["again"])


OPTS = [dict(),
        dict(cfg=dict(rdir="rrdp2")),
        dict(cfg=dict(nname="other.xml"), src=dict(nname="other.xml")),
        dict(cfg=dict(uhost="new.example"), src=dict(host="new.example")),
        dict(cfg=dict(base="b2/"), src=dict(base="b2/")),
        dict(cfg=dict(lim=1)),
        dict(cfg=dict(clean=0)),
        dict(cfg=dict(host=True)),
        dict(cfg=dict(rsync=False)),
        dict(cfg=dict(rdir="", sdir="")),
        dict(cfg=dict(sdir="rsync2")),
        dict(cfg=dict(sdir="")),
        dict(cfg=dict(rdir="")),
        dict(cfg=dict(rdir="r p\u00fc'\"&", sdir="s d\u20ac$x")),
        dict(cfg=dict(rdir="rrdp2", nname="other.xml", uhost="new.example", base="b2/", lim=2, host=True),
             src=dict(nname="other.xml", host="new.example", base="b2/"))]
OPT_BASE = dict(rdir="rrdp", nname="notification.xml", uhost="src.example", base="rrdp/", lim=None, clean=100,
                host=False, rsync=True, sdir="rsync")
OPT_SRC = dict(nname="notification.xml", host="src.example", base="rrdp/")
OPT_AREAS = dict(rrdp=["rrdp", "rrdp2", "state/rrdp", "r p\u00fc'\"&"], rsync=["rsync", "rsync2", "state/rsync", "s d\u20ac$x"],
                 names=["notification.xml", "other.xml"])


def full_opt(o):
    return dict(cfg=dict(OPT_BASE, **o.get("cfg", {})), src=dict(OPT_SRC, **o.get("src", {})))


def c21(p):
    opts = [full_opt(o) for o in OPTS]
    su = Suite("opt", areas=OPT_AREAS, src0=dict(sess="A", ser=1, win=[], **OPT_SRC))
    pairs = []
    for i in range(len(opts)):
        for j in range(len(opts)):
            if i == j:
                continue
            a, b = opts[i], opts[j]
            for how in range(p.n(3, 5)):
                n1 = S("A", 2, 1, **a["src"])
                n2 = [S("A", 3, 2, **b["src"]), S("A", 2, 1, **b["src"]), S("B", 1, 0, **b["src"]),
                      S("A", 5, 1, **b["src"]), S("A", 4, 4, **b["src"])][how]
                back = dict(n2["src"], ser=n2["src"]["ser"] + 1, win=[n2["src"]["ser"] + 1], **a["src"])
                pairs.append([dict(cfg=a["cfg"]), S("A", 1, 0, **a["src"]), R, n1, R, dict(cfg=b["cfg"]), n2, R, R, T(200),
                              dict(cfg=a["cfg"]), dict(src=back), R])
    must = [x for x in pairs if full_opt(OPTS[0])["cfg"] in (x[0]["cfg"], x[5]["cfg"])]
    if p.quick():
        pairs = [x for i, x in enumerate(must) if i % 3 == p.rng.randrange(3)] + must[::3] + p.rng.sample(pairs, 240)
    p.add(su, pairs)
    hs = p.gen.histories(Mode=["opt", "reset"], Opts=list(range(len(opts))), MaxSer=2, MaxWin=1, MaxDep=2)
    hs = G.pick(list(hs), p.n(120, 1500), p.rng, key=lambda h: tuple(x.get("o") for x in h))
    scs = []
    for h in hs:
        sc = []
        cur = opts[0]["src"]
        for st in G.to_steps(h, 100, opts):
            if "src" in st:
                st = dict(src=dict(dict(st["src"]), **{k: st["src"].get(k, v) for k, v in OPT_SRC.items()}))
            sc.append(st)
        scs.append(sc)
    p.add(su, scs)
    # any combination of settings
    r = p.rng
    mixed = []
    for _ in range(p.n(150, 2000)):
        sc, n, sess = [], 1, "A"
        for k in range(r.choice([2, 3, 4])):
            src = dict(nname=r.choice(["notification.xml", "notification.xml", "other.xml"]), base=r.choice(["rrdp/", "rrdp/", "b2/"]),
                       host=r.choice(["src.example", "src.example", "new.example"]))
            cfg = dict(OPT_BASE, nname=src["nname"], base=src["base"], uhost=src["host"], rdir=r.choice(["", "", "rrdp", "rrdp2"]),
                       sdir=r.choice(["", "", "rsync", "rsync2"]), lim=r.choice([None, None, 0, 1, 2]), clean=r.choice([100, 100, 0]),
                       delay=r.choice([0, 0, 20]), host=r.random() < .4, rsync=r.random() < .6)
            sc += [dict(cfg=cfg), S(sess, n, min(n, r.choice([0, 1, 2])), **src), R]
            if r.random() < .3:
                sc.append(R)
            if r.random() < .2:
                sess = r.choice("ABC")
            n += r.choice([0, 1, 1, 2])
        mixed.append(sc)
    p.add(Suite("mixed", areas=OPT_AREAS, src0=su.src0), mixed)
    # the change meets an interrupted run
    for j in p.n([1, 2], range(1, len(opts))):
        a, b = opts[0], opts[j]
        sc = [dict(cfg=a["cfg"]), S("A", 1, 0, **a["src"]), R, S("A", 2, 1, **a["src"]), R, dict(cfg=b["cfg"]), S("A", 3, 1, **b["src"]),
              kill(torn=False), R, R]
        p.each_group(Suite("opt-kill", areas=OPT_AREAS, src0=su.src0), [sc], k=2)


def pause(**k):
    return dict(run=dict(k, enum="pause"))


def c14(p):
    su = lambda name, **k: Suite(name, cfg=k, world=dict(multihost="rpki"), mt=True)
    b = [[R, S("A", 2, 1), R, S("A", 3, 1), R, S("B", 1), R, S("A", 3), R, T(200), S("A", 4), R],
         [R, S("A", 3), R, S("B", 2), R, S("B", 3), R, S("A", 4), R]]
    for k in (dict(), dict(host=True), dict(clean=0), dict(tz="XYZ-13"), dict(tz="XYZ+11:30", host=True)):
        p.add(su("times", **k), b, per=1)
    p.histories(40, 400, suite=su("gen"), MaxSer=3, MaxWin=1)
    pf = prefixes()
    for k in p.n(["fresh", "update", "back_to"], ["fresh", "update", "back_to", "clean", "reset", "back_to_old"]):
        p.each_group(su("kill-" + k), around(pf[k], kill(torn=False, stride=p.n(9, 1), offset=p.rng.randrange(9)), p.n(["again"], ["again", "repeat"])), k=4)
    # the revision is installed again with other layout
    p.add(su("layout"), [[R, C(host=True), S("A", 2), R, C(host=False), S("A", 3), R, C(host=True), S("B", 1), R, S("A", 3), R]])


def c15(p):
    pf = prefixes()
    su = Suite
    for k in p.n(["fresh", "update", "clean", "same"], list(pf)):
        s, n = last_src(pf[k])
        then = ["cont", "kill"]
        p.each_group(su("pause-%s" % k), [pf[k] + [pause(then=then, stride=p.n(2, 1), offset=p.rng.randrange(2)), R, R],
                                          pf[k] + [pause(then=then, stride=p.n(2, 1), offset=p.rng.randrange(2)), S(s, n + 1, 1), R]], k=8)
    # other options, and with another state of the source
    opts = [dict(rdir="rrdp2"), dict(rsync=False), dict(sdir="rsync2"), dict(host=True), dict(nname="other.xml"), dict(clean=0), dict(lim=0)]
    for d in p.n([30], [30, 3000]):
        p.each_group(su("pause-opts", cfg=dict(delay=d), areas=OPT_AREAS),
                     [pf["clean"] + [pause(stride=p.n(5, 1), offset=p.rng.randrange(5), intr=[[o] for o in opts]), R, R]], k=8)
    p.each_group(su("pause-norsync", cfg=dict(rsync=False)), [pf["update"] + [pause(then=["cont"], stride=p.n(2, 1)), R]], k=3)
    # another instance has opened the lock file when earlier runs end, but asks for the lock only later
    for how in (["run"], ["run", "run"], ["kill"], ["run", "kill"], []):
        p.each_group(su("late-%d%s" % (len(how), "k" if "kill" in how else "")), [pf["same"] + [pause(late=how, intr=[[]]), R, R]], k=1)
    # the same directory under another name
    p.each_group(su("pause-spell"), [pf["update"] + [pause(stride=p.n(5, 1), intr=[[dict(spell=x) for x in ("/./state/", "/state/../state", "/../other-name", "/../other-name/")]]), R]], k=4)
    # bad source: the run fails, the lock must be free
    p.add(su("pause-bad"), [pf["update"] + [S("A", 3, 2, bad=b), pause(then=["cont", "kill"], stride=p.n(6, 1)), S("A", 3, 2), R]
                            for b in (dict(kind="snap-hash"), dict(kind="notif-garbage"))])


# -- where files come from ------------------------------------------------------

SHAPES = [dict(), dict(base=""), dict(uhost="src.example:8443", base="a/b-c/d/", nname="n.xml"),
          dict(uhost="new.example", base="rrdp/rrdp/", nname="rrdp.xml"), dict(base="r.d_p~1/", nname="a.b.xml")]
VIAS = [dict(via="file", sbase=""), dict(via="file", sbase="/"), dict(via="file", sbase="/a/b"), dict(via="file", sbase="/a/b/"),
        dict(via="base", sbase="https://mirror.example/m/"), dict(via="base", sbase="https://mirror.example/"),
        dict(via="base", sbase="https://mirror.example:8443/a/b/"), dict(via="base", sbase="https://src.example/rrdp/"),
        dict(via="base", sbase="https://new.example/rrdp/x.y/"), dict(via="direct")]


def net_suite(name, via, shape=None, limit=None, **kw):
    sh = dict(shape or {})
    cfg = dict(dict(via, **sh), net=True)
    cfg.update(kw)
    nn = sh.get("nname", "notification.xml")
    src0 = dict(sess="A", ser=1, win=[], host=sh.get("uhost", "src.example"), base=sh.get("base", "rrdp/"), nname=nn)
    return Suite(name, cfg=cfg, areas=dict(rrdp=["rrdp"], rsync=["rsync"], names=[nn]), src0=src0, limit=limit)


def at_shape(sc, su):
    """The scenario with the suite's notification URI."""
    x = {k: su.src0[k] for k in ("host", "base", "nname")}
    return [dict(src=dict(st["src"], **x)) if "src" in st else st for st in sc]


def via_name(v):
    return v["via"] + v.get("sbase", "").replace("https://", "-").replace("/", "_")


def roles(n, w):
    return ["notif", "snap"] + ["delta:%d" % k for k in range(n - w + 1, n + 1)]


CODES = [304, 404, 403, 500, 503, 400, 410, 301, 300, "cut", 203, 206, 201, 202, 204, 226] + \
    ["odd:" + x for x in sorted(ODD) if x not in EITHER]


def c17(p):
    g = p.gen.histories(Mode=["reset", "tick", "lim"], MaxSer=3, MaxWin=2, Lims=[99, 1])
    per = p.n(8, 60)
    for v in VIAS:
        for i, sh in enumerate(SHAPES):
            if p.quick() and v["via"] == "file" and i not in (0, 2):
                continue
            su = net_suite("map-%s-%d" % (via_name(v), i), v, sh)
            p.add(su, [at_shape(G.to_steps(h), su) for h in G.pick(list(g), per, p.rng)])
    pf = prefixes()
    base = [pf["fresh"], pf["update"], pf["jump"], pf["reset"]]
    # other answers than success
    for v in (VIAS[4], VIAS[9]) + tuple(p.n((), VIAS[5:9])):
        sts = []
        for b in base:
            s, n = last_src(b)
            w = min(2, n)
            for r in roles(n, w):
                for c in CODES:
                    sts.append(b + [S(s, n, w, net=dict(st={r: c})), R, S(s, n, w), R])
            sts.append(b + [S(s, n, w, net=dict(noetag=True)), R, R])
            for c in (304, 404, 500):
                sts.append(b + [R, S(s, n, w, net=dict(st=dict(notif=c))), R, R, S(s, n + 1, 1), R])
                sts.append(b + [R, S(s, n + 1, 1, net=dict(st=dict(notif=c))), R, S(s, n + 1, 1), R])
                sts.append(b + [S(s, n, w, net=dict(st={"notif": 304, "snap": c})), R, S(s, n, w), R])
        if p.quick():
            sts = p.some(sts, 3)
        p.add(net_suite("answers-" + via_name(v), v), sts)
        p.add(net_suite("answers-norsync-" + via_name(v), v, rsync=False), p.some(sts, p.n(12, 2)))
        # a killed run, then no change
        for c in (304, 404):
            p.each(net_suite("kill-" + via_name(v), v),
                   [pf["update"] + [kill(torn=False, stride=p.n(5, 1)), S("A", 3, 2, net=dict(st=dict(notif=c))), R, S("A", 3, 2), R, R]])
        # a killed run leaves a part of a file, the server then says that it was not modified
        p.each_group(net_suite("part-" + via_name(v), v),
                     [pf["update"] + [kill(stride=p.n(2, 1)), S("A", 3, 2, net=dict(st={r: 304})), R, S("A", 3, 2), R]
                      for r in ("snap", "delta:3")], k=4)
    # URIs outside the base
    for v in p.n([VIAS[0], VIAS[3], VIAS[4], VIAS[5], VIAS[9]], VIAS):
        fo = []
        for b in (pf["fresh"], pf["update"]):
            s, n = last_src(b)
            for bad in bads(s, n, 1):
                if bad["kind"].endswith("foreign"):
                    fo.append(b + [S(s, n, 1, bad=bad), R, S(s, n, 1), R])
        p.add(net_suite("foreign-" + via_name(v), v), fo)
    for v in p.n([VIAS[4], VIAS[9]], VIAS):
        p.add(net_suite("bad-" + via_name(v), v), [pf["update"] + [S("A", 3, 2, bad=b), R, S("A", 3, 2), R]
                                                   for b in bads("A", 3, 2) if not b["kind"].endswith("foreign") and b.get("at", 3) == 3])


TLS_KINDS = ["good", "untrusted", "selfsigned", "wronghost", "expired", "notyet", "down"]
TAMPER = [None, dict(kind="snap-hash"), dict(kind="delta-hash", at=3), dict(kind="snap-wrong"), dict(kind="delta-missing", at=3)]


def c22(p):
    pf = prefixes()
    for v in p.n([VIAS[4], VIAS[6], VIAS[9]], VIAS[4:]):
        for ins in (False, True):
            scs = []
            for pre in ([], pf["update"][:4], pf["reset"][:4]):
                for k in TLS_KINDS:
                    for late in TLS_KINDS if k == "good" or (ins and k == "untrusted") else [k]:
                        for t in TAMPER if late == k else [None]:
                            net = dict(tls=k)
                            if late != k:
                                net["late"] = late
                            bad = dict(bad=t) if t else {}
                            scs.append(pre + [S("A", 3, 2, net=net, **bad), R, S("A", 3, 2), R])
                            scs.append(pre + [S("A", 3, 2, net=net, **bad), R, R, S("B", 1, 0, net=net), R, S("B", 2, 1), R])
            if p.quick():
                scs = p.some(scs, 2) if not ins else p.some(scs, 3)
            p.add(net_suite("tls-%s-%s" % (via_name(v), "insecure" if ins else "strict"), v, insecure=ins), scs)
            # the option changes from run to run
        fl = []
        for k in TLS_KINDS[1:]:
            fl.append([C(insecure=True), S("A", 1, 0, net=dict(tls=k)), R, C(insecure=False), S("A", 2, 1, net=dict(tls=k)), R,
                       C(insecure=True), R, C(insecure=False), R, S("A", 3, 1), R])
            fl.append([S("A", 1, 0), R, S("A", 2, 1, net=dict(tls=k)), R, C(insecure=True), R, C(insecure=False), S("A", 3, 1), R])
        p.add(net_suite("flip-" + via_name(v), v), fl)
    # the directory source does not care
    p.add(net_suite("file-insecure", VIAS[0], insecure=True),
          [pf[k] + [S(*last_src(pf[k]), 1, net=dict(tls="untrusted"), **b), R, S(*last_src(pf[k]), 1), R] for k in ("fresh", "update", "reset")
           for b in (dict(), dict(bad=dict(kind="snap-hash")))])


# -- every run ends ---------------------------------------------------------------

STALLS = ["stall-head", "stall-status", "stall-body", "stall-mid", "drip", "drip-head", "interims"]


def c23(p):
    pf = prefixes()
    vias = [VIAS[4], VIAS[9]]
    # a server that goes silent: each such run takes a minute
    slow = []
    for v in vias:
        for pre in p.n(["update"], ["fresh", "update", "reset"]):
            s, n = last_src(pf[pre])
            bef, w = pf[pre][:-1], min(2, n)
            after = [S(s, n, w), R, R]
            for r in roles(n, w):
                for st in STALLS:
                    slow.append((v, bef + [S(s, n, w, net=dict(st={r: "odd:" + st})), R] + after))
            slow.append((v, bef + [S(s, n, w, net=dict(tls="stall")), R] + after))
            slow.append((v, bef + [S(s, n, w, net=dict(tls="good", late="stall")), R] + after))
    if p.quick():
        slow = p.rng.sample(slow, 24)
    for v, sc in slow:
        p.add(net_suite("stall-" + via_name(v), v, limit=150), [sc])
    # odd answers
    for v in vias:
        sts = []
        for pre in ("fresh", "update"):
            s, n = last_src(pf[pre])
            w = min(2, n)
            for r in roles(n, w):
                for st in sorted(ODD) + ["loop"]:
                    sts.append(pf[pre][:-1] + [S(s, n, w, net=dict(st={r: "odd:" + st})), R, S(s, n, w), R])
        p.add(net_suite("odd-" + via_name(v), v), sts)
    # files of any content
    raws = []
    for pre in ("fresh", "update", "reset"):
        s, n = last_src(pf[pre])
        w = min(2, n)
        for f in ("notif", "snap", "delta"):
            if f == "delta" and not w:
                continue
            for how in raw.names(f):
                raws.append(pf[pre][:-1] + [S(s, n, w, bad=dict(kind="raw", file=f, how=how, at=n)), R, R, S(s, n + 1, 1), R])
    if p.quick():
        raws = p.some(raws, 2)
    for k, (name, kw) in enumerate((("raw", {}), ("raw-lim", dict(lim=1)), ("raw-norsync", dict(rsync=False)), ("raw-host", dict(host=True)))):
        p.add(Suite(name, cfg=kw), raws if k == 0 or not p.quick() else raws[k::6])


# -- who can read what is published ------------------------------------------------

def c24(p):
    pf = prefixes()
    dflt = dict(rrdp=["state/rrdp"], rsync=["state/rsync"], names=["notification.xml"])
    deep = dict(rrdp=["pub/www/rrdp"], rsync=["pub/rs/sync"], names=["notification.xml"])
    for u in (0o022, 0o027, 0o077, 0o002, 0, 0o007):
        nm = "umask%03o" % u
        p.histories(25, 400, suite=Suite(nm, cfg=dict(umask=u)), **FULL)
        p.histories(12, 200, suite=Suite(nm + "-host", cfg=dict(umask=u, host=True), world=dict(multihost=True)), **FULL)
        p.add(Suite(nm + "-default", cfg=dict(umask=u, rdir="", sdir=""), areas=dflt), [x + [R, R] for x in pf.values()])
        p.add(Suite(nm + "-deep", cfg=dict(umask=u, rdir="pub/www/rrdp", sdir="pub/rs/sync"), areas=deep), [x + [R, R] for x in pf.values()])
    # when the umask changes
    ch = []
    for a in (0o077, 0o027):
        for x in (pf["update"], pf["clean"], pf["reset"], pf["back_to"]):
            ch.append([C(umask=a)] + x[:-1] + [C(umask=0o022), x[-1], R])
            ch.append(x[:-1] + [C(umask=a), x[-1], R, C(umask=0o022), S("D", 1), R])
    # interrupted runs, other file systems
    for u in (0o022, 0o027):
        nm = "%03o" % u
        x = dict(run=dict(xdev=["rrdp"]))
        y = dict(run=dict(xdev=["rsync"]))
        p.add(Suite("xdev" + nm, cfg=dict(umask=u)), [[q if st == R else st for st in pf[k]] + [q, R]
                                                      for q in (x, y) for k in ("update", "clean", "back_to")])
        kills(p, p.n(["update"], ["fresh", "update", "reset", "back_to"]), ["again"], cfg=dict(umask=u), name="kill" + nm, torn=False, stride=p.n(3, 1))
        fails(p, ["update"], ["again"], cfg=dict(umask=u), name="fail" + nm, errnos=[28], reads=False, stride=p.n(3, 1))
    p.add(Suite("delay", cfg=dict(delay=30, umask=0o027)), [x + [R] for x in pf.values()])
    for v in p.n([VIAS[9]], VIAS[4:]):
        su = net_suite("net-" + via_name(v), v, umask=0o027)
        p.add(su, [pf[k] + [R] for k in ("update", "reset")])


# -- lost, damaged or outdated saved state -----------------------------------------

def Lost(how, which=None):
    return dict(state=how) if which is None else dict(state=how, which=which)


def c25(p):
    pf = prefixes()
    keys = ["fresh", "update", "clean", "reset", "back_to"]
    for nm, kw in (("", {}), ("-norsync", dict(rsync=False)), ("-host", dict(host=True)), ("-lim", dict(lim=1)), ("-delay", dict(delay=30))):
        suite = Suite("lost" + nm, cfg=kw)
        scs = []
        for k in keys:
            pre = pf[k] + [R]
            s, n = last_src(pf[k])
            after = [[R, R, S(s, n + 1, 1), R], [S(s, n + 1, 1), R, R], [S(s, n + 2, 2), R], [S(s, n + 3, 1), R, S(s, n + 4, 2), R],
                     [S("D", 1), R, S("D", 2, 1), R], [S(s, n + 2, 2, bad=dict(kind="snap-hash")), R, S(s, n + 2, 2), R],
                     [S(s, n + 1, 1, bad=dict(kind="snap-absent")), R, R, S(s, n + 1, 1), R], [T(10), R, T(10), S(s, n + 1, 1), R, T(20), R]]
            for how in ("del", "wipe"):
                for wh in (None, 0, 1) if how == "del" else (None,):
                    scs += [pre + [Lost(how, wh)] + a for a in after]
                    scs.append(pre + [S(s, n + 1, 1), Lost(how, wh), R, Lost(how, wh), R, S(s, n + 2, 1), Lost(how, wh), R])
            for how in ("empty", "cut", "end", "junk", "json"):
                for wh in (None, 0, 1):
                    # until somebody removes it
                    scs += [pre + [Lost(how, wh)] + a[:-1] + [R, Lost("del"), R] for a in after]
            # set back to what it was before
            for wh in (None, 0, 1):
                for mid in ([S(s, n + 1, 1), R], [S(s, n + 1, 1), R, T(20), S(s, n + 2, 1), R], [S("D", 1), R], [S("D", 1), R, S(s, n + 1, 1), R],
                            [T(20), S(s, n + 3, 1), R, T(20), R]):
                    s2, n2 = last_src(mid)
                    for a in ([R, S(s2, n2 + 1, 1), R], [S(s2, n2 + 1, 1), R, R], [S("C", 1), R], [T(20), R, R]):
                        scs.append(pre + [Lost("save")] + mid + [Lost("back", wh)] + a)
        if p.quick():
            scs = p.some(scs, 2 if nm == "" else 10)
        p.add(suite, scs)
    # a run is killed or fails before that
    for k in p.n(["fresh", "reset"], keys):
        s, n = last_src(pf[k])
        sufs = [[Lost("del"), R, R], [Lost("wipe"), R, S(s, n + 1, 1), R], [Lost("del", 0), R, R], [Lost("del"), S(s, n + 1, 1), R, R]]
        for nm, f in (("kill", kill(torn=False, stride=p.n(2, 1))), ("fail", fail(errnos=[28], reads=False, stride=p.n(3, 1)))):
            p.each_group(Suite("%s-lost-%s" % (nm, k)), [pf[k] + [f] + x for x in sufs])
    # a run is killed or fails after that
    for k in p.n(["update", "reset"], keys):
        s, n = last_src(pf[k])
        for wh in (None, 0, 1):
            for q, src in (("same", []), ("next", [S(s, n + 1, 1)])):
                if p.quick() and (wh is None) == (q == "next"):
                    continue
                pre = pf[k] + [R] + src + [Lost("del", wh)]
                nm = "%s-%s-%s" % (k, q, wh)
                p.each_group(Suite("kill-" + nm), around(pre, kill(torn=False, stride=p.n(3, 1)), p.n(["again", "advance"], ["again", "advance", "reset", "old"])))
                p.each_group(Suite("fail-" + nm), around(pre, fail(errnos=[28], reads=False, stride=p.n(4, 1)), p.n(["again"], ["again", "advance"])))


SCENARIOS = dict(C25=c25, C23=c23, C24=c24, C14=c14, C15=c15, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10,
                 C11=c11, C12=c12, C13=c13, C16=c16, C17=c17, C22=c22, C21=c21)
