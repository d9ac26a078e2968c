#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   -- see DESIGN.md"""
import argparse, importlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback

for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MKL_CBWR", "COMPATIBLE")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc as T

VERIF = T.VERIF
T0 = time.time()


class Ctx:
    def __init__(self, prop, tier, seed, tlc, scratch):
        self.prop, self.tier, self.seed, self.tlc, self.scratch = prop, tier, seed, tlc, scratch
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%s-%s" % (prop, tier, seed))
        self.models = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, module, cfg, **k):
        """Model check spec/<module>.tla; remembers the statistics for the evidence."""
        r = self.tlc.model(module, cfg, **k)
        self.models.append(dict(module=module, states=r["states"], transitions=r["transitions"], secs=round(r["secs"], 1), behaviours=len(r["lines"])))
        return r

    def cases(self, module, cfg, tag="@@CASE ", **k):
        """Model check and return the JSON behaviours/cases that the model printed."""
        # in an order that does not depend on TLC's workers
        return [json.loads(s) for s in sorted(x[len(tag):] for x in self.model(module, cfg, **k)["lines"] if x.startswith(tag))]


_MOD = None


def _init(modname, scratch):
    global _MOD
    os.environ["XV_SCRATCH"] = scratch
    import warnings
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module("harness.props." + modname)
    from harness import world
    world.prepare()
    if hasattr(_MOD, "pristine"):
        from harness import zygote
        import xrd_simulator.polycrystal, xrd_simulator.detector, xrd_simulator.templates
        zygote.start(_MOD.pristine)


def _run(args):
    scn, limit = args
    from harness import rec
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return rec.run_scenario(_MOD.run, scn, limit)


def execute(modname, scns, scratch, limit=120, procs=6):
    """Run all scenarios on the real code in worker processes; a dead worker is an observation."""
    out = [None] * len(scns)
    if not scns:
        return out
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    todo = list(range(len(scns)))
    ctx = mp.get_context("spawn")
    single = False
    while todo:
        with ProcessPoolExecutor(1 if single else min(procs, len(todo)), mp_context=ctx, initializer=_init, initargs=(modname, scratch)) as ex:
            futs = {i: ex.submit(_run, (scns[i], limit)) for i in (todo[:1] if single else todo)}
            broken = False
            for i, f in futs.items():
                try:
                    out[i] = f.result()
                except BrokenProcessPool:
                    broken = True
                    if single:
                        out[i] = [dict(op="unexpected_error", what="process", err="the process running the scenario died")]
        todo = [i for i in todo if out[i] is None]
        if broken and not single:
            if not any(o is not None for o in out):
                # could the package be imported at all?
                import subprocess
                p = subprocess.run([sys.executable, "-c", "import xrd_simulator.polycrystal, xrd_simulator.detector, xrd_simulator.templates"], capture_output=True, text=True)
                if p.returncode:
                    raise T.Machinery("the package cannot be imported: " + p.stderr[-1500:])
            single = True
            todo = todo[:]
    return out


def weight(evs):
    return sum(len(json.dumps(e)) for e in evs)


def judge(ctx, module, traces, timeout, jvms=6):
    """Let TLC check recorded traces against the trace specification.
    traces: list of (index, events). Returns (states, transitions, {index: [clauses]})."""
    if not traces:
        return 0, 0, {}
    sized = sorted(traces, key=lambda t: -weight(t[1]))
    k = max(1, min(jvms, len(traces)))
    bins = [[] for _ in range(k)]
    load = [0] * k
    for t in sized:
        j = load.index(min(load))
        bins[j].append(t)
        load[j] += weight(t[1]) + 2000
    cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceDone\n"

    def start(group, no):
        path = os.path.join(ctx.scratch, "trace-%s-%d.json" % (no, time.monotonic_ns()))
        evs = []
        for idx, ev in group:
            evs.append(dict(op="scenario", id=idx))
            evs.extend(ev)
        with open(path, "w") as f:
            json.dump(dict(ev=evs), f)
        return ctx.tlc.start(module, cfg, env=dict(XV_TRACE=path), heap="4g" if k > 2 else "8g")

    st = tr = 0
    bad = {}
    hs = [(g, start(g, n)) for n, g in enumerate(bins) if g]
    deadline = time.time() + timeout
    failed = []
    for g, h in hs:
        r = ctx.tlc.finish(h, deadline - time.time())
        st += r["states"]
        tr += r["transitions"]
        for s in r["lines"]:
            if s.startswith("@@BAD "):
                b = json.loads(s[6:])
                bad.setdefault(b["id"], []).append(b)
        if not r["completed"]:
            failed.append((g, r))
    for g, r in failed:
        if "semantic analysis failed" in r["text"]:
            raise T.Machinery("the specification does not parse: " + r["text"][-3000:])
        if len(g) == 1:
            # The specification has no value for this trace: not a behaviour of the specification.
            if "Error:" in r["text"] and "OutOfMemory" not in r["text"]:
                bad.setdefault(g[0][0], []).append(dict(id=g[0][0], op="?", clauses=["the specification cannot interpret this trace"], detail=r["text"][-1500:]))
            else:
                raise T.Machinery("TLC failed: " + r["text"][-3000:])
        else:
            if "Error:" not in r["text"]:
                raise T.Machinery("TLC failed: " + r["text"][-3000:])
            # find the offending scenarios one at a time, in parallel
            for lo in range(0, len(g), 8):
                hh = [(x, start([x], "s%d" % x[0])) for x in g[lo:lo + 8]]
                for x, h in hh:
                    rr = ctx.tlc.finish(h, deadline - time.time())
                    for s in rr["lines"]:
                        if s.startswith("@@BAD "):
                            b = json.loads(s[6:])
                            if b not in bad.get(b["id"], []):
                                bad.setdefault(b["id"], []).append(b)
                    if not rr["completed"]:
                        if "Error:" in rr["text"] and "OutOfMemory" not in rr["text"]:
                            bad.setdefault(x[0], []).append(dict(id=x[0], op="?", clauses=["the specification cannot interpret this trace"], detail=rr["text"][-1500:]))
                        else:
                            raise T.Machinery("TLC failed: " + rr["text"][-3000:])
    return st, tr, bad


def known(prop):
    """Fingerprints of recorded, unrepaired findings of this property: (scenario prefix, clause)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                f = dict(x.split("=", 1) for x in rest.split(" :: ")[0].split())
                out.append((f["scenario"], f["clause"].replace("_", " "), rest.split(" :: ")[1].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="run scenarios whose name contains this")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="xv-%s-" % a.prop)
    code = 2
    try:
        code = check(a, scratch)
    except T.Machinery as e:
        print("CHECK ERROR property=%s: %s" % (a.prop, e))
    except Exception:
        traceback.print_exc()
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch", scratch)
    sys.stdout.flush()
    os._exit(code)


def check(a, scratch):
    prop = a.prop
    sys.path.insert(0, VERIF)
    os.environ["XV_SCRATCH"] = scratch
    modname = prop.lower()
    tl = T.Tlc(scratch)
    ctx = Ctx(prop, a.tier, a.seed, tl, scratch)
    mod = importlib.import_module("harness.props." + modname)
    limit = 120 if a.tier == "quick" else 600
    budget = 780 if a.tier == "quick" else 6 * 3600
    if a.replay:
        rp = json.load(open(a.replay))
        scns = [rp["scenario"]]
    else:
        scns = mod.scenarios(ctx)
    if a.only:
        scns = [s for s in scns if a.only in s["name"]]
    t1 = time.time()
    evs = execute(modname, scns, scratch, limit)
    t2 = time.time()
    st, tr, bad = judge(ctx, getattr(mod, "TRACE", "Trace"), list(enumerate(evs)), budget - (time.time() - T0))
    t3 = time.time()
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    kn = known(prop)
    viol, seen_known = [], {}
    for idx in sorted(bad):
        name = scns[idx]["name"]
        cl = sorted({c for b in bad[idx] for c in b["clauses"]})
        fresh = []
        for c in cl:
            hit = [k for k in kn if name == k[0] and k[1] == c]
            if hit:
                seen_known[hit[0]] = True
            else:
                fresh.append(c)
        if fresh:
            viol.append((idx, name, fresh))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for n, (idx, name, cl) in enumerate(viol[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=prop, scenario=scns[idx], failed=bad[idx], events=evs[idx]), f, indent=1)
        print("  scenario %s: %s" % (name, "; ".join(cl)[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    nops = {}
    for e in evs:
        for x in e:
            nops[x["op"]] = nops.get(x["op"], 0) + 1
    samp = []
    for i in list(range(0, len(scns), max(1, len(scns) // 4)))[:4]:
        s = json.dumps(dict(scenario=scns[i], first_event=evs[i][0] if evs[i] else None))
        samp.append(s if len(s) < 1500 else s[:1500] + "...")
    cov = dict(states=sum(m["states"] for m in ctx.models) + st, transitions=sum(m["transitions"] for m in ctx.models) + tr,
               traces_validated_against_impl=sum(1 for e in evs if e), samples=samp,
               models=ctx.models, trace_states=st, events_by_kind=nops, distinct_scenarios=len({json.dumps(s, sort_keys=True) for s in scns}),
               seconds=dict(models=round(t1 - T0, 1), executing=round(t2 - t1, 1), judging=round(t3 - t2, 1)))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + ["java/Fix.java computes real arithmetic to 200 fractional bits", "TLC evaluates the specification correctly"],
              wall_s=round(time.time() - T0, 1), violations=len(viol))
    if not a.replay and not a.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d events, %d states, %d bad, %.1fs (models %.1f, run %.1f, judge %.1f)" % (
        prop, a.tier, len(scns), sum(map(len, evs)), cov["states"], len(viol), time.time() - T0, t1 - T0, t2 - t1, t3 - t2))
    if not any(evs):
        raise T.Machinery("no events were recorded")
    return 1 if viol else 0


if __name__ == "__main__":
    main()
