"""Exploration of the design specification KrillSync.tla."""
import re

from . import tlc
from .driver import ToolError

BASE = dict(Sess='{"A","B"}', MaxSer="2", MaxWin="1", Lims="{99}", Cleans="{2}", Delays="{0}", MaxRuns="3",
            MaxFaults="0", MaxTicks="1", FaultKinds='{"kill"}', Mode='{"reset"}', Defects="{}")

# name -> constants.  quick ones take a few seconds each.
CONFIGS = dict(
    base=dict(),
    ticks=dict(MaxTicks="2", MaxRuns="4"),
    kill=dict(MaxFaults="1"),
    fail=dict(MaxFaults="1", FaultKinds='{"fail"}'),
    bad=dict(Mode='{"bad","back"}', MaxSer="3", MaxWin="2"),
    back=dict(Mode='{"back","reset"}'),
    lim=dict(Sess='{"A"}', Lims="{0,1,99}", Mode='{"lim"}', MaxSer="3", MaxWin="2", MaxTicks="0"),
    limreset=dict(Lims="{0,1,99}", Mode='{"lim","reset"}', MaxWin="2", MaxTicks="0"),
    chain=dict(Sess='{"A"}', MaxSer="4", MaxWin="3", MaxTicks="0", MaxRuns="4", Mode="{}"),
    rsync=dict(Mode='{"rsync","reset"}'),
    host=dict(Mode='{"host","reset"}'),
    hostkill=dict(Mode='{"host"}', MaxFaults="1", MaxRuns="3", MaxTicks="0"),
    delay=dict(Delays="{1}", MaxTicks="2"),
    lose=dict(Mode='{"lose","reset"}', MaxFaults="1", FaultKinds="{}"),
    smallkill=dict(MaxFaults="1", MaxTicks="0", MaxRuns="2"),
    smallfail=dict(MaxFaults="1", MaxTicks="0", MaxRuns="2", FaultKinds='{"fail"}'),
)

# thorough: larger bounds
BIG = dict(
    limall=dict(Lims="{0,1,99}", Mode='{"lim","reset"}', MaxSer="3", MaxWin="2"),
    bigkill=dict(MaxFaults="2", MaxRuns="3", FaultKinds='{"kill","fail"}', MaxTicks="0"),
    biglim=dict(Lims="{0,1,2,99}", Mode='{"lim","reset"}', MaxSer="3", MaxWin="3", MaxRuns="4"),
    bigbad=dict(Mode='{"bad","back"}', MaxSer="3", MaxWin="2", MaxFaults="1"),
    bighost=dict(Mode='{"host","reset"}', MaxRuns="4"),
    bighostkill=dict(Mode='{"host","reset"}', MaxFaults="1"),
    bigdelay=dict(Delays="{1}", MaxTicks="2", MaxFaults="1"),
    bigticks=dict(MaxTicks="3", MaxRuns="5"),
    biglimkill=dict(Lims="{0,1,99}", Mode='{"lim","reset"}', MaxFaults="1"),
    biglose=dict(Mode='{"lose","reset"}', MaxFaults="2", MaxTicks="0"),
    loselim=dict(Mode='{"lose","lim"}', Lims="{0,1,99}", MaxSer="3", MaxWin="2", MaxFaults="2", MaxTicks="0", FaultKinds="{}"),
    bigbackkill=dict(Mode='{"back","reset"}', MaxFaults="1"),
)

# defect -> (constants with which it shows, labels it must show)
DEFECTS = {
    "clean-first": (dict(MaxFaults="1", MaxRuns="4", MaxWin="0", MaxTicks="2"), ["C01", "C07"]),
    "keep-deprecated": (dict(MaxRuns="4"), ["C01", "C07"]),
    "rsync-old-current": (dict(MaxRuns="4"), ["C11", "C13"]),
    "rsync-rewrite": (dict(MaxFaults="1"), ["C11"]),
    "state-in-place": (dict(MaxFaults="1"), ["C09"]),
    "notif-in-place": (dict(), ["C01"]),
    "link-remove": (dict(), ["C11"]),
    "persist-early": (dict(MaxFaults="1"), ["C06", "C09", "C10"]),
    "trust-state": (dict(MaxFaults="1"), ["C09"]),
    "chain-append": (dict(MaxSer="3"), ["C03"]),
    "shared-layout": (dict(Mode='{"host","reset"}', MaxRuns="4"), ["C13"]),
}


def run(name, consts, top, inv="Quiet", workers=4, timeout=800, heap="4g"):
    d = dict(BASE)
    d.update(consts)
    wd = "%s/model-%s" % (top, name)
    import os
    os.makedirs(wd, exist_ok=True)
    with open(wd + "/design.cfg", "w") as f:
        f.write("SPECIFICATION DSpec\nCONSTANTS %s\nCONSTANT ObjTree <- DesignObjTree\nINVARIANT %s\n"
                "CHECK_DEADLOCK FALSE\n" % (" ".join("%s=%s" % x for x in d.items()), inv))
    rc, out = tlc.tlc("KrillSync.tla", "design.cfg", wd, workers=workers, heap=heap, timeout=timeout)
    g, n = tlc.stats(out)
    if "No error has been found" in out:
        return dict(name=name, consts=d, ok=True, states=n, transitions=g, labels=[])
    m = re.findall(r"/\\ viol = \{(.*?)\}", out)
    if "is violated" in out and m:
        return dict(name=name, consts=d, ok=False, states=n, transitions=g,
                    labels=re.findall(r'"(\w+)"', m[-1]))
    raise ToolError("model %s: %s" % (name, out[-1500:]))
