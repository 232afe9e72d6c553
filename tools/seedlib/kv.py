"""Runs of krill-sync with TALs, against signed repositories."""
import atexit, json, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
from ks import driver, valid, vhist


def tools():
    top = tempfile.mkdtemp(prefix="ksv-")
    os.chmod(top, 0o755)
    atexit.register(shutil.rmtree, top, True)
    return top, driver.Tools.prepare(top + "/t", os.path.join(os.getcwd(), "target/debug/krill-sync"))


def trees():
    """(job, tree) of trees.json"""
    for line in open(HERE + "/trees.json"):
        x = json.loads(line)
        yield x["job"], x["tree"]


def hist_runner():
    d = json.load(open(HERE + "/hist.json"))
    top, t = tools()
    data = ({tuple(k): v for k, v in d["own"]}, {tuple(k): v for k, v in d["far"]}, d["tas"])
    return vhist.HistRunner(top + "/r", t, data), d["hist"]


def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)


def ok(what="ok"):
    print(what)
    sys.exit(0)
