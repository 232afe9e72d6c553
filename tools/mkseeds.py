"""Plants bugs: builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms
each one in a scratch copy of /repo.  Usage: mkseeds.py [id ...]

A seed file defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], FILES (other
helper files) and DEMO (Python text that starts with `from ksd import *`)."""
import glob, json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.dirname(HERE) + "/seeded"
WT = "/tmp/seedwt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TARGET_DIR=WT + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("RUSTC_WRAPPER", None)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=WT, **kw)


def build():
    for d in glob.glob(WT + "/target/debug/.fingerprint/krill-sync-*"):
        shutil.rmtree(d)
    r = sh("cargo build --workspace --locked --offline && cargo test --workspace --no-run --locked --offline")
    return r.returncode == 0, r.stdout.decode()[-3000:]


def stable():
    want = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8")
    out = r.stdout.decode()
    bad = []
    names = want.get("stable") or want.get("tests") or want
    for t in (names if isinstance(names, list) else list(names)):
        t = t if isinstance(t, str) else t.get("id") or t.get("name")
        short = t.split("::", 1)[-1] if "::" in t else t
        if not any(l.rstrip().endswith("... ok") and l.split()[1].endswith(short.split(" ")[-1].split("::")[-1])
                   for l in out.splitlines() if l.startswith("test ")):
            bad.append(t)
    return bad


def kslib(d):
    """The tools that sign RPKI objects and run the program with a set clock."""
    top = os.path.dirname(HERE)
    os.makedirs(d + "/lib/ks")
    for f in ("__init__", "der", "driver", "net", "rpki", "tlc", "valid", "vhist", "world"):
        shutil.copy(top + "/lib/ks/%s.py" % f, d + "/lib/ks")
    open(d + "/lib/ks/tlc.py", "w").write('"""Not used here."""\n')
    os.makedirs(d + "/shim")
    shutil.copy(top + "/shim/ksshim.c", d + "/shim")
    for x in ("keys", "tls"):
        shutil.copytree(top + "/fixtures/" + x, d + "/fixtures/" + x)


def demo(d):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode()[-600:]


def main():
    ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + "/seeds/*.py"))
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
    assert build()[0]
    base = {}
    for i in ids:
        s = runpy.run_path(HERE + "/seeds/%s.py" % i)
        d = OUT + "/" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ["ksd.py"] + list(s.get("FILES", [])):
            if f == "kslib":
                kslib(d)
                continue
            src = HERE + "/seedlib/" + f
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, d + "/" + f)
        if "GEN" in s:
            s["GEN"](d)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# %s\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n' % s["BREAKS"].replace("\n", " "))
        base[i] = demo(d)
    for i in ids:
        s = runpy.run_path(HERE + "/seeds/%s.py" % i)
        d = OUT + "/" + i
        for f, old, new in s["EDITS"]:
            t = open(WT + "/" + f).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(WT + "/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff").stdout.decode())
        good, out = build()
        bad = stable() if good else ["does not build: " + out]
        rc, txt = demo(d) if good else (None, "")
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        st = base[i][0] == 0 and good and not bad and rc not in (0, None)
        print("%-28s %s  base=%s patched=%s failing=%s" % (i, "OK" if st else "BAD", base[i][0], rc, bad), flush=True)
        if not st:
            print("   base:", base[i][1], "\n   patched:", txt)
        sh("git checkout -- .")
    shutil.rmtree(WT, ignore_errors=True)


main()
