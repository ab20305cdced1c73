"""Making a rejected case smaller: every round tries all single deletions at once."""
import copy, json


def lists(x, path=()):
    """paths of the lists from which an element may be dropped"""
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, list) and k in ("ops", "c", "ns", "vs", "as", "items", "data", "head", "body", "m"):
                yield path + (k,)
            yield from lists(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from lists(v, path + (i,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def candidates(case, limit=400):
    out = []
    for p in lists(case):
        l = at(case, p)
        n = len(l)
        if n > 3:
            for a, b in ((0, n // 2), (n // 2, n)):
                c = copy.deepcopy(case)
                del at(c, p)[a:b]
                out.append(c)
        for i in range(n):
            c = copy.deepcopy(case)
            del at(c, p)[i]
            out.append(c)
            # an element of the list by its own contents
            e = l[i]
            if isinstance(e, dict) and "k" in e:
                for key in ("c", "ns"):
                    if isinstance(e.get(key), list):
                        c = copy.deepcopy(case)
                        at(c, p)[i:i + 1] = copy.deepcopy([y for y in e[key] if isinstance(y, dict) and "k" in y])
                        out.append(c)
    out.sort(key=lambda c: len(json.dumps(c)))
    if len(out) > limit:
        step = len(out) / limit
        out = [out[int(i * step)] for i in range(limit)]
    return out


def valid(case):
    """no reference to what is not declared, something to render"""
    seen = set()
    def refs(x):
        if isinstance(x, dict):
            if x.get("k") == "ref" and x.get("id") not in seen:
                return False
            return all(refs(v) for v in x.values())
        if isinstance(x, list):
            return all(refs(v) for v in x)
        return True
    for o in case.get("ops", []):
        if o["op"] == "make":
            if not refs(o["n"]):
                return False
            seen.add(o["id"])
        elif o["op"] == "render" and o["id"] not in seen:
            return False
    return True


def shrink(case, rejects, rounds=12):
    """rejects(list of cases) -> list of bool"""
    case = dict(copy.deepcopy(case), u=False)
    for _ in range(rounds):
        cand = [c for c in candidates(case) if valid(c)]
        if not cand:
            break
        bad = [c for c, r in zip(cand, rejects(cand)) if r]
        if not bad:
            break
        case = bad[0]
    return case
