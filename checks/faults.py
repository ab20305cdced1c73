"""C08: every program, every byte position at which a write can fail."""
from lib import *
import programs
from sweep import sweep
from reword import reword
from gen import Gen

KINDS = ("el", "el", "void", "text", "comment", "coll", "cond", "iter", "cc", "imp", "frag", "pi", "doc")
FEATURES = dict(kinds=KINDS, fail=0.25, fnmodes=("const", "data", "cargo", "parent"), attrs=0.4)
COUNT_SWEEP = {"quick": 80, "thorough": 0}
COUNT = {"quick": 60, "thorough": 700}


def randoms(n):
    out = []
    j = 0
    while len(out) < n:
        g = Gen("C08/%d/%d" % (SEED, j), **FEATURES)
        j += 1
        out.append({"id": "r%d" % len(out), "case": g.program(depth=g.r.choice([1, 2, 2, 3]), renders=1, width=4)})
    return out


def both(ck, cases, count=True):
    """fault-free renderings against the machine, faulty ones against the writer's contract"""
    t1 = ck.observe("program", cases)
    r = dict(ck.validate("Props", t1, count=count))
    t2 = ck.observe("faults", cases)
    for a in range(0, len(t2), 150):
        for k, v in ck.validate("Faults", t2[a:a + 150], count=count).items():
            r.setdefault(k, v)
    return t1, t2, r


def check(ck, replay=None):
    if replay:
        t1, t2, r = both(ck, [replay["case"]])
        for k, v in r.items():
            ck.violation("faults", replay["case"], v["why"])
        return
    mc = ck.tlc("WriterMC")
    ck.count(mc)
    uni = ck.universe()
    rnd = randoms(COUNT[TIER])
    swp = sweep("C08", COUNT_SWEEP[TIER], SEED)
    cases = uni + rnd + swp + reword(uni, 150 if TIER == "quick" else 1500, "C08/%d" % SEED)
    t1, t2, r = both(ck, cases)
    ck.samples = [uni[0], rnd[0], t2[0]["tr"].get("plans", [])[:2]]
    ck.extra = {"programs": len(cases), "fault_plans": sum(len(t["tr"].get("plans", [])) for t in t2),
                "writer_model_states": mc.distinct, "rejected": len(r)}
    ck.assumptions = ["the writer of the harness fails as its plan says; how the output is cut into pieces is left open"]
    if r:
        bad = sorted((c for c in cases if c["id"] in r), key=lambda c: len(json.dumps(c)))[:5]
        _, tr, r2 = both(ck, bad, count=False)
        if not r2:
            raise CheckError("rejected but not reproduced: %s" % sorted(r)[:5])
        for c in bad:
            if c["id"] in r2:
                ck.violation("faults", c, r2[c["id"]]["why"])
