"""C07: concurrent renderings of one template, and concurrent executions of one wrapped html/template.

Conc.tla: all interleavings of the machine; Sched.tla: the schedules replayed on the real code (a controller lets the
renderings pass their gates in that order); free-running rounds under the race detector.  Every distinct observation is
trace-validated against what each rendering does alone."""
import os
from lib import *
from gen import Gen
import tmpl

FEATURES = dict(fnmodes=("const", "data", "cargo", "parent"), attrs=0.6, dyn=0.5, fail=0.1, raw=0.1,
                kinds=("el", "el", "el", "void", "text", "comment", "coll", "cond", "iter", "cc", "imp", "frag", "pi"))
COUNT = {"quick": 40, "thorough": 400}
TMPL = {"quick": 12, "thorough": 120}
ROUNDS = {"quick": 12, "thorough": 40}


def randoms(n):
    out = []
    for j in range(n):
        g = Gen("C07/%d/%d" % (SEED, j), **FEATURES)
        case = g.program(depth=g.r.choice([1, 2, 2, 3]), renders=1, width=4)
        rd = [o for o in case["ops"] if o["op"] == "render"][0]
        for _ in range(g.r.choice([1, 1, 2])):
            o = dict(rd)
            if g.chance(0.8):
                o["data"], o["cargo"] = g.data(), g.datum()
            case["ops"].append(o)
        out.append({"id": "r%d" % j, "case": case})
    return out


def strip(c):
    return {k: v for k, v in c.items() if k not in ("scheds", "free", "count")}


def schedules(ck, cases, mode):
    """gate counts from the real code, schedules from the specification"""
    g = ck.observe(mode, [{"id": c["id"], "case": dict(c["case"], count=True)} for c in cases])
    live = [x for x in g if isinstance(x["tr"], list) and all(isinstance(y, int) for y in x["tr"]) and len(x["tr"]) > 1]
    f, out = ck.path("gates%d.ndjson" % ck.nrun), ck.path("scheds%d.ndjson" % ck.nrun)
    write_nd(f, [{"id": x["id"], "gates": x["tr"]} for x in live])
    ck.tlc("Sched", env={"CASES": f, "OUT": out}, workers=1)
    return {x["id"]: x["scheds"] for x in read_nd(out)}


def run(ck, cases, mode, scheds=None, rounds=0, race=False):
    env = {}
    if race:
        log = ck.path("race%d" % ck.nrun)
        env = {"GORACE": "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + log, "VERIF_RACELOG": log}
    ins = [{"id": c["id"], "case": dict(c["case"], scheds=(scheds or {}).get(c["id"], []), free=rounds)} for c in cases]
    res = ck.observe(mode, ins, race=race, env=env, timeout=700)
    out = []
    for c, r in zip(cases, res):
        trs = r["tr"] if isinstance(r["tr"], list) else [r["tr"]]
        for i, t in enumerate(trs):
            out.append({"id": "%s.%s%d" % (c["id"], "f" if race else "s", i), "case": c["case"], "tr": t})
    return out


def both(ck, cases, mode, module, rounds, count=True):
    sch = schedules(ck, cases, mode)
    traces = run(ck, cases, mode, scheds=sch) + run(ck, cases, mode, rounds=rounds, race=True)
    rej = {}
    for a in range(0, len(traces), 4000):
        rej.update(ck.validate(module, traces[a:a + 4000], count=count))
    return sch, traces, rej


def check(ck, replay=None):
    if replay:
        mode = replay["mode"]
        _, tr, rej = both(ck, [replay["case"]], mode, "Tmpl" if mode == "conctmpl" else "Conf", 60)
        for k, v in list(rej.items())[:3]:
            ck.violation(mode, replay["case"], v["why"])
        return
    uni = ck.universe()
    # all interleavings of the specification, over the smaller programs of the universe
    small = [c for c in uni if len(c["case"]["ops"][1]["n"]["c"]) == 1 or TIER == "thorough"]
    f = ck.path("conc.ndjson")
    write_nd(f, small)
    mc = ck.tlc("Conc", env={"CASES": f})
    ck.count(mc)
    bad = ck.tlc("Conc", cfg="ConcShared", env={"CASES": f}, ok=(12,))
    cases = uni + randoms(COUNT[TIER])
    sch, traces, rej = both(ck, cases, "concprogram", "Conf", ROUNDS[TIER])
    tc = tmpl.randoms(TMPL[TIER], "C07", conc=True)
    sch2, traces2, rej2 = both(ck, tc, "conctmpl", "Tmpl", ROUNDS[TIER])
    ck.samples = [uni[0], cases[-1], sch[uni[0]["id"]][:3]]
    ck.extra = {"programs": len(cases), "wrapped_templates": len(tc), "schedules_replayed": sum(map(len, sch.values())) + sum(map(len, sch2.values())),
                "free_rounds_under_race_detector": ROUNDS[TIER] * (len(cases) + len(tc)), "distinct_observations": len(traces) + len(traces2),
                "interleaving_model_states": mc.distinct, "control": "a scratch buffer shared by renderings violates the model: " + str("Alone is violated" in bad.out or "violated" in bad.out)}
    ck.assumptions = ["between two writes or callbacks of a rendering the real code is left to the Go scheduler and the race detector",
                      "at most four preemptions per schedule (round robins apart) where the interleavings are too many to enumerate"]
    for cs, r, mode, module in ((cases, rej, "concprogram", "Conf"), (tc, rej2, "conctmpl", "Tmpl")):
        if not r:
            continue
        ids = {k.rsplit(".", 1)[0] for k in r}
        bad = sorted((c for c in cs if c["id"] in ids), key=lambda c: len(json.dumps(c)))[:5]
        for _ in range(3):
            _, tr, again = both(ck, bad, mode, module, 60, count=False)
            if again:
                break
        else:
            raise CheckError("rejected but not reproduced: %s" % sorted(r.items())[:3])
        hit = {k.rsplit(".", 1)[0]: v for k, v in again.items()}
        for c in bad:
            if c["id"] in hit:
                ck.violation(mode, c, hit[c["id"]]["why"], observed=[t["tr"] for t in tr if t["id"] in again and t["id"].startswith(c["id"] + ".")][:1])
