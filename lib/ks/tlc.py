"""Running TLC."""
import json
import os
import re
import shutil
import subprocess

from .driver import ToolError, VERIF

CP = "/opt/veriftools/tla/tla2tools.jar"


def jars():
    cp = [CP]
    d = os.path.dirname(CP)
    for n in sorted(os.listdir(d)):
        if n.endswith(".jar") and os.path.join(d, n) != CP:
            cp.append(os.path.join(d, n))
    return ":".join(cp)


def tlc(module, cfg, workdir, env=None, args=(), workers=8, heap="6g", timeout=600):
    """Run TLC in a private copy of the specification directory."""
    os.makedirs(workdir, exist_ok=True)
    for n in os.listdir(VERIF + "/spec"):
        if n.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(VERIF, "spec", n), workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + workdir,
           "-cp", jars(), "tlc2.TLC", "-workers", str(workers), "-metadir", workdir + "/meta",
           "-config", cfg, "-noGenerateSpecTE"] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish within %d s" % timeout)
    out = r.stdout.decode(errors="replace")
    shutil.rmtree(workdir + "/meta", ignore_errors=True)
    return r.returncode, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def check_trie(trie, trees, workdir, timeout=600):
    """TLC evaluates all properties on the trie.
    Returns ({node: [labels]}, states, transitions)."""
    os.makedirs(workdir, exist_ok=True)
    tf, wf = workdir + "/trace.ndjson", workdir + "/world.json"
    with open(tf, "w") as f:
        for nd in trie.nodes:
            rec = dict(k=[i + 1 for i in nd["k"]], e=nd["e"] or dict(t="top"))
            f.write(json.dumps(rec, separators=(",", ":")) + "\n")
    with open(wf, "w") as f:
        json.dump(trees, f)
    rc, out = tlc("KSTrace.tla", "KSTrace.cfg", workdir, env=dict(KS_TRACE=tf, KS_WORLD=wf), timeout=timeout)
    gen, dist = stats(out)
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("trace checking failed:\n" + out[-3000:])
    if dist != len(trie.nodes) - 1:
        raise ToolError("only %d of %d events are steps of the specification" % (dist, len(trie.nodes) - 1))
    viol = {}
    for m in re.finditer(r'<<"VIOL", (\d+), \{([^}]*)\}>>', out):
        viol[int(m.group(1)) - 1] = sorted(re.findall(r'"(\w+)"', m.group(2)))
    if out.count('"VIOL"') != len(viol):
        # lines may wrap; count what we parsed
        flat = re.sub(r"\s+", " ", out)
        viol = {}
        for m in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*\{([^}]*)\}\s*>>', flat):
            viol[int(m.group(1)) - 1] = sorted(re.findall(r'"(\w+)"', m.group(2)))
        if flat.count('"VIOL"') != len(viol):
            raise ToolError("cannot parse TLC's report")
    return viol, dist, gen
