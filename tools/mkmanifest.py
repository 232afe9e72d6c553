"""Writes MANIFEST.json.  Edit CHECKS / NOT_YET here."""
import json
TRACE = ("TLA+ specification (KSState) evaluated by TLC on recorded executions of the real binary; scenarios from TLC's "
         "state graph (KSGen), design model (KrillSync) explored by TLC")
NOTE = ("TLC decides: every modifying file system call of the real binary is one event of a trace; all traces of the "
        "enumerated scenarios are checked against the specification, and the design specification is explored exhaustively within "
        "bounds. Trusted: the LD_PRELOAD observer, the projection of files to abstract contents, the bounds of the scenarios. ")
EXTRA = dict(
 C01="Every instant between two file system operations is looked at, with kills and faults.",
 C09="Kill points are enumerated completely (before and in the middle of every operation) for each prior state.",
 C23="Silent servers take a minute each and run side by side; malformed files are a catalogue of about 140 changes to each kind of file.",
 C10="One fault at every call (also reads), several errno values, short writes, sticky faults, EXDEV.",
)
def trace(p):
    return dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                technique=TRACE, level="model_checking", level_note=NOTE + EXTRA.get(p, ""))
CHECKS = [trace(p) for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C21 C22 C23 C24 C25").split()]
def trees(p, technique, note):
    return dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                technique=technique, level="model_checking", level_note=note)
CHECKS.append(trees("C19",
    "TLA+ specification of certificate tree validation (KSValid); TLC enumerates the trees, they are signed and validated by the real "
    "binary, and TLC judges every observed verdict",
    "Every single fault of a catalogue of 184, in several shapes of tree, and combinations of faults; the same specification gives the "
    "expected verdict per object and for the run. Trusted: the object builder (lib/ks/rpki.py), the bounds of the trees."))
HIST = ("TLA+ specification of validation over time (KSVHist); TLC walks through histories of the sources, the real binary is taken "
        "through them, and TLC judges what every run reported, kept, asked for and published")
for p, n in (("C18", "revisions of the content, broken and mended, manifests that become valid or stale with time, scripts that succeed or fail, "
                     "rejection on and off, TALs that change"),
             ("C20", "revisions of a second repository in two sessions, windows of deltas, seven ways to break what it serves, outages, "
                     "offline runs, cool-down times, with and without ETags")):
    CHECKS.append(trees(p, HIST, "Random walks (fixed seed) through: " + n + ". Trusted: the object builder (lib/ks/rpki.py), the bounds of "
                                 "the walks."))
CHECKS.sort(key=lambda c: c["property"])
NOT_YET = {p: "check not built yet" for p in "".split()}
m = dict(version=1, setup_cmd="true", checks=CHECKS,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_YET.items())],
         notes="No hooks in /repo: the real binary is observed from outside.")
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
