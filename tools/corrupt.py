#!/usr/bin/env python3
"""corrupt.py PROPERTY [N] [SEED]: how sensitive is the judge?  Records the executions of the quick check, corrupts one
recorded number (or flag, or shape) in a copy, and reports for each field how often the judge rejects the copy."""
import copy, importlib, json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import check as C, tlc as T


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "op":
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def put(ev, path, v):
    for p in path[:-1]:
        ev = ev[p]
    ev[path[-1]] = v


def label(op, path, old):
    return op + "." + re.sub(r"\.\d+", "", ".".join(map(str, path))) + ("" if not isinstance(old, bool) else "?")


def corrupt(rng, v, scale):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1])
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            return None
        if f != f or f in (float("inf"), float("-inf")):
            return "1.0"
        return repr(f + (0.02 * abs(f) if f and rng.random() < .7 else 0.02 * (scale or 1.0)) * rng.choice([1, -1]))
    return None


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 300, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    scratch = tempfile.mkdtemp(prefix="xv-corrupt-")
    os.environ["XV_SCRATCH"] = scratch
    try:
        ctx = C.Ctx(prop, "quick", seed, T.Tlc(scratch), scratch)
        mod = importlib.import_module("harness.props." + prop.lower())
        rng = random.Random(seed)
        scns = mod.scenarios(ctx)
        rng.shuffle(scns)
        scns = scns[:max(20, n // 4)]
        evs = C.execute(prop.lower(), scns, scratch, 120)
        evs = [e for e in evs if e]
        # fields, then a sample of them evenly over labels
        by = {}
        for i, e in enumerate(evs):
            for j, x in enumerate(e):
                for path, v in leaves(x):
                    if corrupt(rng, v, 1) is not None:
                        by.setdefault(label(x["op"], path, v), []).append((i, j, path))
        labels = sorted(by)
        k = max(3, n // len(labels))
        traces, what = [], []
        for l in labels:
            for i, j, path in rng.sample(by[l], min(k, len(by[l]))):
                e = copy.deepcopy(evs[i])
                d = dict(leaves(e[j]))
                near = [abs(float(v)) for p, v in d.items() if p[:1] == path[:1] and isinstance(v, str) and re.fullmatch(r"-?[0-9.e+-]+", v)]
                put(e[j], path, corrupt(rng, d[path], max(near or [1])))
                what.append(l)
                traces.append((len(traces), e))
        print("%s: %d corrupted traces, %d fields" % (prop, len(traces), len(labels)))
        base = len(traces)
        traces += [(base + i, e) for i, e in enumerate(evs)]
        bad = C.judge(ctx, getattr(mod, "TRACE", "Trace"), traces, 3000)[2]
        print("uncorrupted rejected:", len([i for i in bad if i >= base]))
        stat = {}
        for i, l in enumerate(what):
            s = stat.setdefault(l, [0, 0])
            s[0] += 1
            s[1] += i in bad
        for l in labels:
            a, b = stat[l]
            print("  %-60s %d/%d%s" % (l, b, a, "   <== never" if b == 0 else ""))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
