"""What the seeds for the validator need: trees and objects as written by TLC."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from ks import valid, vhist


def trees(d, jobs):
    top = tempfile.mkdtemp()
    items, _ = valid.jobs_from_tlc(top, 1, 1, 1, jobs, False)
    with open(d + "/trees.json", "w") as f:
        for it in items:
            f.write(json.dumps(it) + "\n")
    shutil.rmtree(top)


def hist(d, steps):
    top = tempfile.mkdtemp()
    own, far, tas = vhist.objects(top, [steps])
    json.dump(dict(hist=steps, own=[[list(k), v] for k, v in own.items()], far=[[list(k), v] for k, v in far.items()], tas=tas),
              open(d + "/hist.json", "w"))
    shutil.rmtree(top)


def x(own, far, now, tals=1, offline=False, reject=False, scripts=(), kind="ok"):
    s, n, w, bad = far
    return dict(own=dict(kind=kind, n=own, t0=0), far=dict(up=True, s=s, n=n, w=w, bad=bad), now=now, tals=tals, offline=offline,
                reject=reject, scripts=list(scripts))
