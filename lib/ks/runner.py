"""Runs one check: build, execute scenarios, let TLC decide, report."""
import json
import os
import random
import re
import shutil
import sys
import threading
import time
import traceback

from . import driver, gen, model, suites, tlc
from .driver import VERIF, ToolError, Tools
from .tree import Suite, Trie, execute_suites

KNOWN = VERIF + "/known-findings.jsonl"

# design configurations that are explored along with every check
MODELS = dict(
    C01=["base", "ticks", "smallkill"], C02=["base", "back"], C03=["chain", "lim", "limreset"], C04=["back", "bad"],
    C05=["bad"], C06=["ticks", "delay"], C07=["ticks", "delay"], C08=["base", "rsync"], C09=["smallkill", "hostkill"],
    C10=["smallfail"], C11=["ticks", "smallkill"], C12=["rsync", "host"], C13=["ticks", "host"], C14=["base"], C15=["base"], C16=["base"],
    C17=["bad"], C22=["bad"], C23=["bad"], C24=["base"], C25=["lose"],
    C21=["lim", "limreset", "host"])
BIGMODELS = dict(
    C01=["kill", "fail", "bigkill", "bigticks"], C02=["kill", "biglim"], C03=["limall", "biglim", "biglimkill"],
    C04=["bigbackkill", "bigbad"], C05=["bigbad"], C06=["bigdelay", "bigticks"], C07=["bigdelay", "bigticks"],
    C08=["biglim", "bighost"], C09=["kill", "bigkill", "biglimkill"], C10=["fail", "bigkill"],
    C11=["bighost", "bighostkill", "kill"], C12=["bighost", "bighostkill"], C13=["bighost", "bigticks"],
    C17=["bigbad"], C22=["bigbad"], C23=["bigbad"], C24=["kill"], C25=["biglose", "loselim"], C14=["kill"], C15=["kill"], C16=["kill"], C21=["limall", "bighost", "biglimkill"])


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return VERIF + "/build"


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get("property") == prop and r.get("status") == "finding":
                    out.append(r)
    return out


def write_evidence(prop, tier, seed, level, coverage, t0, violations, assumptions):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.time() - t0, 2),
              violations=violations, assumptions=assumptions)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay_file(prop, data):
    d = VERIF + "/build/replays"
    os.makedirs(d, exist_ok=True)
    i = 0
    while os.path.exists("%s/%s-%d.json" % (d, prop, i)):
        i += 1
    p = "%s/%s-%d.json" % (d, prop, i)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def trace_of(trie, n):
    """Steps (to execute again) and events up to node n."""
    path = trie.path(n)
    steps, events = [], []
    suite = None
    for i in path:
        nd = trie.nodes[i]
        if nd["e"].get("t") == "root":
            suite = nd["e"]["suite"] + "#" + nd["e"]["sid"]
            continue
        if nd.get("step"):
            steps.append(nd["step"])
        events.append(nd["e"])
    return suite, steps, events


def end_of_run(trie, n):
    """The first end of a run at or below node n (its output)."""
    while trie.nodes[n]["e"].get("t") not in ("exit", "kill") and trie.nodes[n]["k"]:
        n = trie.nodes[n]["k"][0]
    return n


def scenario_check(a, top, t0):
    prop = a.property
    binary = driver.build_binary()
    tools = Tools.prepare(top + "/tools", binary)
    rng = random.Random(a.seed * 1000003 + sum(map(ord, prop)))
    g = gen.Gen(top)
    plan = suites.Plan(a.tier, rng, g)
    suites.SCENARIOS[prop](plan)
    jobs = plan.jobs
    if a.replay:
        rep = json.load(open(a.replay))
        jobs = []
        for su, scs in plan.jobs:
            if su.name + "#" + su.sid() == rep["suite"]:
                jobs = [(su, [rep["steps"]])]
                break
        if not jobs:
            raise ToolError("no scenarios like this one any more (other tier or seed?)")
    if os.environ.get("KS_ONLY"):       # for development
        jobs = [j for j in jobs if re.search(os.environ["KS_ONLY"], j[0].name)]
    # the design model runs beside the executions, on few cores
    mres = []
    merr = []

    def models():
        try:
            names = MODELS[prop] + (BIGMODELS[prop] if a.tier == "thorough" else [])
            for nme in names:
                c = model.CONFIGS.get(nme) or model.BIG.get(nme) or {}
                r = model.run(nme, c, top, workers=2 if a.tier == "quick" else 4,
                              timeout=600 if a.tier == "quick" else 7200)
                mres.append(r)
            if a.tier == "thorough":
                for d, (c, labels) in model.DEFECTS.items():
                    if prop in labels:
                        r = model.run("d-" + d, dict(c, Defects='{"%s"}' % d), top, workers=4, timeout=3600)
                        if r["ok"]:
                            raise ToolError("the specification does not notice the defect %s" % d)
                        mres.append(r)
        except BaseException as e:
            merr.append(e)
    th = threading.Thread(target=models)
    if not a.no_model and not a.replay:
        th.start()
    t1 = time.time()
    viols = []
    tot = dict(runs=0, killed=0, faulted=0, paused=0, scenarios=0, events=0, transitions=0, leaves=0)
    suites_seen = {}
    other = {}
    samples = []
    # check in batches so that memory stays bounded
    batch = 4000 if a.tier == "thorough" else 10 ** 9
    groups, cur, w = [], [], 0
    for j in jobs:
        cur.append(j)
        w += sum(len(sc) for sc in j[1]) * (20 if any('"enum"' in json.dumps(s) for s in j[1]) else 1)
        if w > batch:
            groups.append(cur)
            cur, w = [], 0
    if cur:
        groups.append(cur)
    texec = ttlc = 0
    for gi, grp in enumerate(groups):
        tb = time.time()
        trie, trees, st = execute_suites(grp, tools, top)
        texec += time.time() - tb
        tb = time.time()
        v, dist, gen_ = tlc.check_trie(trie, trees, top + "/trace", timeout=3000)
        ttlc += time.time() - tb
        for k in ("runs", "killed", "faulted", "paused", "scenarios"):
            tot[k] += st[k]
        tot["events"] += dist
        tot["transitions"] += gen_
        tot["leaves"] += sum(1 for nd in trie.nodes if not nd["k"])
        for su, scs in grp:
            suites_seen[su.name] = suites_seen.get(su.name, 0) + len(scs)
        if len(samples) < 3:
            leaves = [i for i, nd in enumerate(trie.nodes) if not nd["k"]]
            for i in rng.sample(leaves, min(3, len(leaves))):
                s, steps, events = trace_of(trie, i)
                samples.append(dict(suite=s, steps=steps, events=len(events), last=[json.dumps(e)[:200] for e in events[-3:]]))
        for n, labels in v.items():
            for x in labels:
                if x != prop:
                    other[x] = other.get(x, 0) + 1
                    if os.environ.get("KS_SHOW_OTHER") and other[x] <= int(os.environ["KS_SHOW_OTHER"]):
                        s, steps, events = trace_of(trie, n)
                        print("OTHER %s %s\n  steps %s\n  event %s" % (labels, s, json.dumps(steps), json.dumps(trie.nodes[n]["e"])))
            if prop in labels or (a.replay and labels):
                s, steps, events = trace_of(trie, n)
                viols.append(dict(property=prop, labels=labels, suite=s, steps=steps, depth=len(events),
                                  event=trie.nodes[n]["e"], output=trie.nodes[end_of_run(trie, n)].get("out", ""),
                                  events=events[-40:]))
    t2 = time.time()
    if other:
        print("note: other properties broken in these traces: %s" % other)
    if not a.no_model and not a.replay:
        th.join()
    if merr:
        raise merr[0]
    for r in mres:
        if not r["ok"] and not r["name"].startswith("d-"):
            raise ToolError("the design specification breaks %s in configuration %s" % (r["labels"], r["name"]))
    known = known_findings(prop)
    fresh = []
    hit = {}
    for v in viols:
        k = [f for f in known if matches(f, v)]
        if k:
            hit[k[0]["id"]] = k[0]
        else:
            fresh.append(v)
    for f in known:
        if f["id"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    cov = dict(
        states=sum(r["states"] for r in mres) + g.states + tot["events"],
        transitions=sum(r["transitions"] for r in mres) + g.transitions + tot["transitions"],
        traces_validated_against_impl=tot["leaves"],
        samples=samples,
        executions_of_the_real_program=tot["runs"], killed=tot["killed"], with_injected_fault=tot["faulted"], second_instances=tot["paused"],
        events_checked=tot["events"], scenarios=suites_seen,
        generator_states=g.states,
        design=[dict(name=r["name"], states=r["states"], transitions=r["transitions"], quiet=r["ok"], labels=r["labels"],
                     constants=r["consts"]) for r in mres],
        seconds=dict(execution=round(texec, 1), trace_checking=round(ttlc, 1)),
        exhaustive=False)
    write_evidence(prop, a.tier, a.seed, "model_checking", cov, t0, len(fresh), ASSUME)
    if a.replay:
        for v in viols:
            print("REPLAY labels=%s suite=%s event=%s\n%s" % (v["labels"], v["suite"], json.dumps(v["event"]), v["output"]))
        return 1 if viols else 0
    if fresh:
        fresh.sort(key=lambda v: (v["depth"], json.dumps(v["steps"])))
        shapes = {}
        for v in fresh:
            shapes.setdefault(v["suite"], v)
        first = list(shapes.values())[0]
        p = replay_file(prop, dict(first, others=len(fresh) - 1, suites=sorted({v["suite"] for v in fresh})))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %d violating events in scenarios %s" % (len(fresh), sorted({v["suite"].split("#")[0] for v in fresh})))
        return 1
    print("%s held: %d executions, %d events, %d traces; %.0f s (execution %.0f s, trace checking %.0f s)"
          % (prop, tot["runs"], tot["events"], tot["leaves"], time.time() - t0, texec, ttlc))
    return 0


def matches(f, v):
    """A known finding is a suite, a list of steps, and labels."""
    return f.get("suite") == v["suite"] and f.get("steps") == v["steps"]


ASSUME = ["a file system operation is atomic; partial writes are modelled by cutting a write short",
          "kill means SIGKILL of the process; data that was written survives (no power loss)",
          "the observer (LD_PRELOAD) sees every modifying call of the program through libc"]

def valid_check(a, top, t0):
    from . import valid
    return valid.check(a, top, t0)


def hist_check(a, top, t0):
    from . import vhist
    return vhist.check(a, top, t0)


OTHER = dict(C19=valid_check, C18=hist_check, C20=hist_check)


def main(a):
    t0 = time.time()
    base = scratch_base()
    top = "%s/ks-%s-%d" % (base, a.property, os.getpid())
    os.makedirs(top)
    os.chmod(top, 0o755)
    try:
        if a.property in suites.SCENARIOS:
            return scenario_check(a, top, t0)
        if a.property in OTHER:
            return OTHER[a.property](a, top, t0)
        print("no check for %s" % a.property)
        return 2
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(top, ignore_errors=True)
