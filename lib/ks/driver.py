"""Runs the real krill-sync binary in a scratch sandbox under the observer."""
import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
import glob
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import time

from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("KS_REPO", "/repo")
NOBODY = 65534
T0 = 1_900_000_000          # start of the fake clock
RUN_TIMEOUT = 60
HANGS = mp.Value("i", 0)    # runs that did not end, over all processes


def hung():
    with HANGS.get_lock():
        HANGS.value += 1


def too_many_hangs():
    """There is no point in waiting for more of them."""
    return HANGS.value >= 24


class ToolError(Exception):
    pass


def spread(work, args, procs):
    """Results of work(a) in order, by several processes.  (A Pool would wait
    for ever for a process that was ended from outside.)"""
    with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as pool:
        try:
            yield from pool.map(work, args)
        except BrokenProcessPool:
            raise ToolError("a process was ended from outside, perhaps for lack of memory")


def build_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=REPO + "/target")
    for k in ("LD_PRELOAD",):
        e.pop(k, None)
    return e


def build_binary():
    """Build krill-sync from /repo's working tree; returns the path."""
    # never trust file times: the crate itself is always compiled again
    for d in glob.glob(REPO + "/target/debug/.fingerprint/krill-sync-*"):
        shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "--bin", "krill-sync"],
                       cwd=REPO, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        raise ToolError("krill-sync does not build")
    return REPO + "/target/debug/krill-sync"


class Tools:
    """Binary and shim copied to a place an unprivileged user can read."""

    def __init__(self, top):
        self.top = top
        self.exe = os.path.join(top, "krill-sync")
        self.so = os.path.join(top, "ksshim.so")

    @staticmethod
    def prepare(top, binary):
        t = Tools(top)
        os.makedirs(top, exist_ok=True)
        os.chmod(top, 0o755)
        r = subprocess.run(["strip", "-o", t.exe, binary], capture_output=True)
        if r.returncode != 0:
            shutil.copy(binary, t.exe)
        os.chmod(t.exe, 0o755)
        r = subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", t.so,
                            VERIF + "/shim/ksshim.c", "-ldl", "-lpthread"], capture_output=True)
        if r.returncode != 0:
            raise ToolError("shim does not compile: " + r.stderr.decode())
        os.chmod(t.so, 0o755)
        shutil.copy(VERIF + "/fixtures/tls/trusted.pem", top + "/ca.pem")
        os.chmod(top + "/ca.pem", 0o644)
        return t


DEFAULT_CFG = dict(lim=None, clean=100, delay=0, rsync=True, host=False, rdir="rrdp",
                   sdir="rsync", nname="notification.xml", uhost="src.example",
                   base="rrdp/", extra=(), via="file", sbase="", insecure=False, net=False, umask=0o022)


def mkcfg(**kw):
    c = dict(DEFAULT_CFG)
    c.update(kw)
    return c


class Sandbox:
    def __init__(self, top, tools, limit=None):
        self.top = top
        self.tools = tools
        self.limit = limit
        self.work = top + "/work"
        self.src = top + "/src"
        self.blobs = top + "/blobs"
        self.log = top + "/log"
        self.server = None
        for d in (top, self.blobs, self.src):
            os.makedirs(d, exist_ok=True)
            os.chown(d, NOBODY, NOBODY)
        os.symlink(self.work + "/state", top + "/other-name")
        self.reset()

    def reset(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.chown(self.work, NOBODY, NOBODY)
        shutil.rmtree(self.src, ignore_errors=True)
        os.makedirs(self.src)
        os.chown(self.src, NOBODY, NOBODY)

    def save(self, to):
        shutil.rmtree(to, ignore_errors=True)
        subprocess.run(["cp", "-a", self.work, to], check=True)

    def restore(self, frm):
        shutil.rmtree(self.work, ignore_errors=True)
        subprocess.run(["cp", "-a", frm, self.work], check=True)

    def args(self, cfg):
        a = ["--state-dir", self.work + cfg.get("spell", "/state")]
        if cfg["rdir"]:
            a += ["--rrdp-dir", self.work + "/" + cfg["rdir"]]
        if cfg["sdir"]:
            a += ["--rsync-dir", self.work + "/" + cfg["sdir"]]
        a += ["--cleanup-after", str(cfg["clean"])]
        if cfg["delay"]:
            a += ["--rrdp-notify-delay", str(cfg["delay"])]
        if cfg["lim"] is not None:
            a += ["--rrdp-max-deltas", str(cfg["lim"])]
        if not cfg["rsync"]:
            a += ["--rsync-disable"]
        if cfg["host"]:
            a += ["--rsync-include-host"]
        if cfg["via"] == "file":
            a += ["--source-uri-base", self.src + cfg["sbase"]]
        elif cfg["via"] == "base":
            a += ["--source-uri-base", cfg["sbase"]]
        if cfg["insecure"]:
            a += ["--insecure"]
        a += list(cfg["extra"])
        a += ["--", "https://%s/%s%s" % (cfg["uhost"], cfg["base"], cfg["nname"])]
        return a

    def env(self, now, fault=None, cfg=None):
        e = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.tools.so, "KS_ROOT": self.work,
             "KS_SCRATCH": self.top, "KS_LOG": self.log, "KS_BLOBS": self.blobs,
             "KS_EXE": self.tools.exe, "KS_NOW": str(now), "TZ": (cfg or {}).get("tz", "UTC"), "HOME": "/nonexistent"}
        if self.server:
            e["KS_NET"] = str(self.server.port)
            e["SSL_CERT_FILE"] = self.tools.top + "/ca.pem"
        for k, v in (fault or {}).items():
            if k in ("then", "intr", "late"):
                continue
            if k == "xdev":
                e["KS_XDEV"] = ":".join(self.work + "/" + x for x in v)
            else:
                e["KS_" + k.upper()] = str(v)
        return e

    def popen(self, cfg, now, fault=None, log=None):
        env = self.env(now, fault, cfg)
        if log:
            env["KS_LOG"] = log
        return subprocess.Popen([self.tools.exe] + self.args(cfg), env=env, cwd=self.top,
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, user=NOBODY, group=NOBODY, umask=cfg["umask"],
                                extra_groups=[])

    @staticmethod
    def finish(q):
        try:
            q.communicate(timeout=20)
            return q.returncode
        except subprocess.TimeoutExpired:
            q.kill()
            q.communicate()
            hung()
            return 0      # it did not exit with an error

    def start_late(self, cfg, now, how):
        """An instance that is stopped just before it asks for the lock, while
        others (how: what happens to them) run."""
        lg = self.top + "/late.log"
        if os.path.exists(lg):
            os.unlink(lg)
        q = self.popen(cfg, now, dict(pause_lock=1), log=lg)
        end = time.time() + 10
        while True:
            pid, st = os.waitpid(q.pid, os.WUNTRACED | os.WNOHANG)
            if pid == 0:
                if time.time() > end:
                    q.kill()
                    q.communicate()
                    return None
                time.sleep(0.0005)
                continue
            if not os.WIFSTOPPED(st):
                q.returncode = os.waitstatus_to_exitcode(st)
                q.communicate()
                return None
            break
        for h in how:
            self.run(cfg, now, dict(kill_at=2) if h == "kill" else None)
        if os.path.exists(self.log):
            os.unlink(self.log)
        return q

    def run_paused(self, cfg, now, fault):
        """Run, stop before one operation, start other instances, continue.
        Returns (exit status, raw records, output, [intruders' (rc, records)])"""
        if os.path.exists(self.log):
            os.unlink(self.log)
        others = []
        late = self.start_late(cfg, now, fault["late"]) if fault.get("late") else None
        outf = self.top + "/paused.out"
        with open(outf, "w") as of:
            p = subprocess.Popen([self.tools.exe] + self.args(cfg), env=self.env(now, fault, cfg), cwd=self.top,
                                 stdin=subprocess.DEVNULL, stdout=of, stderr=subprocess.STDOUT, user=NOBODY,
                                 group=NOBODY, extra_groups=[], umask=cfg["umask"])
        end = time.time() + RUN_TIMEOUT
        stopped = False
        status = None
        while True:
            pid, st = os.waitpid(p.pid, os.WUNTRACED | os.WNOHANG)
            if pid == 0:
                if time.time() > end:
                    os.kill(p.pid, signal.SIGKILL)
                time.sleep(0.0005)
                continue
            if os.WIFSTOPPED(st) and not stopped:
                stopped = True
                if late:
                    os.kill(late.pid, signal.SIGCONT)
                    rc = self.finish(late)
                    others.append((rc, read_log(self.top + "/late.log"), cfg))
                    late = None
                for i, over in enumerate(fault.get("intr") or [{}, {}]):
                    lg = "%s/intr%d.log" % (self.top, i)
                    if os.path.exists(lg):
                        os.unlink(lg)
                    q = self.popen(dict(cfg, **over), now, None, log=lg)
                    rc = self.finish(q)
                    others.append((rc, read_log(lg), dict(cfg, **over)))
                os.kill(p.pid, signal.SIGKILL if fault.get("then") == "kill" else signal.SIGCONT)
                continue
            if os.WIFSTOPPED(st):
                os.kill(p.pid, signal.SIGCONT)
                continue
            status = os.waitstatus_to_exitcode(st)
            p.returncode = status
            break
        if late:
            late.kill()
            late.communicate()
        out = open(outf, errors="replace").read()
        if status == -signal.SIGKILL:
            status = "killed" if time.time() <= end else "timeout"
            if status == "timeout":
                hung()
        elif status < 0:
            status = "signal%d" % -status
        return status, read_log(self.log), out, others

    def run(self, cfg, now, fault=None):
        """Run once. Returns (exit status, raw records, output)."""
        if os.path.exists(self.log):
            os.unlink(self.log)
        p = self.popen(cfg, now, fault)
        try:
            out, _ = p.communicate(timeout=self.limit or RUN_TIMEOUT)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            hung()
            return "timeout", read_log(self.log), out.decode(errors="replace")
        rc = p.returncode
        if rc == -signal.SIGKILL:
            st = "killed"
        elif rc < 0:
            st = "signal%d" % -rc
        else:
            st = rc
        return st, read_log(self.log), out.decode(errors="replace")


def unesc(s):
    if "%" not in s:
        return s
    out, i = [], 0
    while i < len(s):
        if s[i] == "%":
            out.append(chr(int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def read_log(path):
    recs = []
    try:
        data = open(path, "rb").read().decode("utf-8", "surrogateescape")
    except FileNotFoundError:
        raise ToolError("the observer wrote no log")
    for line in data.split("\n"):
        if not line:
            continue
        f = line.split("\t")
        k = f[0]
        if k == "O":
            recs.append(dict(k="O", nm=int(f[1]), na=int(f[2]), op=f[3], p=unesc(f[4]), q=unesc(f[5]),
                             ret=int(f[6]), err=int(f[7]), now=int(f[8]), d=[]))
        elif k == "D":
            if f[2] == "-":
                recs[-1]["d"].append((unesc(f[1]), None))
            else:
                recs[-1]["d"].append((unesc(f[1]), dict(t=f[2], ino=int(f[3]), mt=int(f[4]),
                                                        size=int(f[5]), mode=f[6], sum=unesc(f[7]))))
        elif k == "R":
            recs.append(dict(k="R", na=int(f[1]), op=f[2], p=unesc(f[3]), ret=int(f[4]), err=int(f[5])))
        elif k == "S":
            recs.append(dict(k="S", secs=int(f[1]), now=int(f[2])))
        elif k in ("K", "P"):
            recs.append(dict(k=k, nm=int(f[1])))
        elif k == "E":
            recs.append(dict(k="E", nm=int(f[1]), na=int(f[2])))
        elif k == "G":
            recs.append(dict(k="G", host=unesc(f[1])))
        elif k == "B":
            recs.append(dict(k="B"))
    if not recs or recs[0]["k"] != "B":
        raise ToolError("the observer did not start")
    return recs
