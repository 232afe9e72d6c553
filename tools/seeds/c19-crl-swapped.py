PROP = "C19"
NEEDS = "a CRL that is validly signed and current but is not the one that the manifest names by its hash"
BREAKS = "a CRL that does not match its manifest hash is used as long as it is for the right key"
EDITS = [("src/validation/validator.rs", """            if crl_hash.verify(crl_obj.bytes()).is_err() {""",
          """            if crl_hash.verify(crl_obj.bytes()).is_err()
                && Crl::decode(crl_obj.bytes().clone())
                    .map(|crl| {
                        crl.verify_signature(resource_cert.subject_public_key_info())
                            .is_err()
                    })
                    .unwrap_or(true)
            {""")]
FILES = ["kslib", "kv.py"]
OWN = "https://src.example/rrdp/notification.xml"
CRL = "rsync://rsync.example/repo/%s/%s.crl"


def GEN(d):
    import seedgen
    seedgen.trees(d, [dict(v=1, fs=[])] + [dict(v=1, fs=[dict(w="obj", f="hash", r=OWN, u=CRL % (c, c))]) for c in "CA"])


DEMO = """
from kv import *
top, t = tools()
r = valid.Runner(top + "/r", t)
for job, tree in trees():
    res, out = r.one(job, tree, False)
    want = [f["u"] for f in job["fs"]]
    check(res["rc"] == 0 and res["rep"]["issues"] == want, "issues %s rather than %s: %s" % (res["rep"]["issues"], want, out))
ok()
"""
