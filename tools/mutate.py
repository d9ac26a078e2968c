#!/usr/bin/env python3
"""mutate.py: how sensitive are the checks to the code?  Mutants of the package are executed on the scenarios of the quick
checks that reach the changed line; executions that differ from those of the unchanged package go to the judge.

  mutate.py prep DIR C01 C02 ...     record scenarios, executions and the lines that each scenario reaches
  mutate.py list DIR                 number the mutants (DIR/mutants.json)
  mutate.py run  DIR JOBS SECONDS [FILE-SUBSTRING]   run mutants in a random order, one line of DIR/results.jsonl each
"""
import warnings
warnings.simplefilter("ignore")
import ast, copy, importlib, json, os, pickle, random, resource, shutil, signal, sys, tempfile, time

for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MKL_CBWR", "COMPATIBLE")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("XV_REPO", "/repo")
FILES = ["_beam_utils", "beam", "cuda", "detector", "laue", "mesh", "motion", "phase", "polycrystal", "scattering_factors",
         "scattering_unit", "structure_factors", "templates", "utils"]
FILES = [f for f in FILES if os.path.exists(os.path.join(REPO, "xrd_simulator", f + ".py"))]

# ---------------------------------------------------------------- coverage per scenario
_HIT = set()


def monitor():
    m = sys.monitoring
    m.use_tool_id(2, "xv")

    def line(code, no):
        f = code.co_filename
        if "/xrd_simulator/" in f:
            _HIT.add((os.path.basename(f)[:-3], no))
        return m.DISABLE
    m.register_callback(2, m.events.LINE, line)
    m.set_events(2, m.events.LINE)


def _pinit(modname, scratch):
    from harness import check as C
    C._init(modname, scratch)
    monitor()


def _prun(a):
    from harness import check as C
    _HIT.clear()
    sys.monitoring.restart_events()
    t = time.time()
    ev = C._run(a)
    return ev, sorted(_HIT), time.time() - t


def prep(d, props):
    from harness import check as C, tlc as T
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    for p in props:
        scratch = tempfile.mkdtemp(prefix="xv-mut-")
        try:
            ctx = C.Ctx(p, "quick", 1, T.Tlc(scratch), scratch)
            scns = importlib.import_module("harness.props." + p.lower()).scenarios(ctx)
            with ProcessPoolExecutor(6, mp_context=mp.get_context("spawn"), initializer=_pinit, initargs=(p.lower(), scratch)) as ex:
                out = list(ex.map(_prun, [(s, 120) for s in scns]))
            with open(os.path.join(d, p + ".pkl"), "wb") as f:
                pickle.dump(dict(scns=scns, events=[o[0] for o in out], lines=[set(o[1]) for o in out], secs=[o[2] for o in out]), f)
            print(p, len(scns), round(sum(o[2] for o in out), 1), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- mutants
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv]}
NAMES = dict(sin="cos", cos="sin", tan="sin", floor="ceil", ceil="floor", min="max", max="min", argmin="argmax", argmax="argmin", any="all", all="any",
             zeros="ones", ones="zeros", minimum="maximum", maximum="minimum", logical_and="logical_or", logical_or="logical_and", mean="sum",
             less="greater", greater="less", arcsin="arccos", arccos="arcsin", sum="mean", vstack="hstack", hstack="vstack", amin="amax", amax="amin")
UNWRAP = {"abs", "round", "sqrt", "radians", "degrees", "deg2rad", "rad2deg", "clamp", "copy", "deepcopy", "clone", "floor", "ceil", "transpose",
          "exp", "unique", "sort", "flatten", "squeeze", "reshape", "clip", "flip", "fliplr", "flipud", "inv"}


def mutants():
    out = []
    for name in FILES:
        src = open(os.path.join(REPO, "xrd_simulator", name + ".py")).read()
        tree = ast.parse(src)
        seg = src.encode().splitlines(keepends=True)
        off = [0]
        for l in seg:
            off.append(off[-1] + len(l))
        ann, doc = set(), set()
        owner = {}
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str):
                    doc.add(fn.body[0])
            if isinstance(fn, ast.FunctionDef):
                for x in ast.walk(fn):
                    owner[x] = fn
                for a in fn.args.args + fn.args.kwonlyargs:
                    if a.annotation:
                        ann.update(ast.walk(a.annotation))
                if fn.returns:
                    ann.update(ast.walk(fn.returns))
            if isinstance(fn, ast.AnnAssign):
                ann.update(ast.walk(fn.annotation))
            if isinstance(fn, (ast.Raise, ast.JoinedStr)):
                ann.update(ast.walk(fn))
            if isinstance(fn, ast.Call) and ast.unparse(fn.func) in ("warnings.warn", "print", "logging.warning"):
                ann.update(ast.walk(fn))
        body_lines = {}
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef):
                stmts = [s for s in fn.body if s not in doc]
                body_lines[fn] = stmts[0].lineno if stmts else fn.lineno

        def put(node, text, what):
            a, b = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
            fn = owner.get(node)
            line = stmt_line.get(node, node.lineno)
            if fn is not None and (line < body_lines[fn]):
                line = body_lines[fn]
            out.append(dict(file=name, line=line, at=node.lineno, a=a, b=b, new=text, old=src.encode()[a:b].decode(), what=what, fn=fn.name if fn else ""))

        stmt_line = {}
        for s in ast.walk(tree):
            if isinstance(s, ast.stmt):
                simple = not hasattr(s, "body")
                for x in ast.walk(s) if simple else []:
                    stmt_line[x] = s.lineno
        for n in ast.walk(tree):
            if n in ann or n in doc:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    c = copy.deepcopy(n)
                    c.ops = [o()]
                    put(n, "(" + ast.unparse(c) + ")", "compare")
            elif isinstance(n, ast.BinOp):
                for o in BIN.get(type(n.op), []):
                    c = copy.deepcopy(n)
                    c.op = o()
                    put(n, "(" + ast.unparse(c) + ")", "binop")
                if not isinstance(n.op, (ast.Mod,)):
                    put(n, "(" + ast.unparse(n.left) + ")", "left")
            elif isinstance(n, ast.BoolOp):
                c = copy.deepcopy(n)
                c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                put(n, "(" + ast.unparse(c) + ")", "boolop")
                for k in range(len(n.values)):
                    c = copy.deepcopy(n)
                    del c.values[k]
                    put(n, "(" + ast.unparse(c if len(c.values) > 1 else c.values[0]) + ")", "operand")
            elif isinstance(n, ast.UnaryOp):
                put(n, "(" + ast.unparse(n.operand) + ")", "unary")
            elif isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    put(n, repr(not v), "flag")
                elif isinstance(v, int):
                    put(n, repr(v + 1), "const")
                    if v > 0:
                        put(n, repr(v - 1), "const")
                elif isinstance(v, float):
                    put(n, repr(v * 1.1 if v else 0.01), "const")
                    put(n, repr(v * 100 if abs(v) < 1e-3 else 0.0), "const")
            elif isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if nm in NAMES:
                    c = copy.deepcopy(n)
                    if isinstance(f, ast.Attribute):
                        c.func.attr = NAMES[nm]
                    else:
                        c.func.id = NAMES[nm]
                    put(n, ast.unparse(c), "name")
                if nm in UNWRAP:
                    lib = isinstance(f, ast.Name) or (isinstance(f.value, ast.Name) and f.value.id in ("np", "torch", "copy", "math")) or ast.unparse(f.value) in ("np.linalg", "torch.linalg")
                    if lib and n.args:
                        put(n, "(" + ast.unparse(n.args[0]) + ")", "unwrap")
                    elif isinstance(f, ast.Attribute) and not lib:
                        put(n, "(" + ast.unparse(f.value) + ")", "unwrap")
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    c = copy.deepcopy(n)
                    c.args[0], c.args[1] = c.args[1], c.args[0]
                    put(n, ast.unparse(c), "swap")
                for k in range(len(n.keywords)):
                    c = copy.deepcopy(n)
                    del c.keywords[k]
                    put(n, ast.unparse(c), "keyword")
            elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
                put(n, "(" + ast.unparse(n.value) + ")", "T")
            elif isinstance(n, (ast.If, ast.While)):
                put(n.test, "False", "if")
                if isinstance(n, ast.If):
                    put(n.test, "True", "if")
            elif isinstance(n, ast.IfExp):
                put(n, "(" + ast.unparse(n.body) + ")", "ifexp")
                put(n, "(" + ast.unparse(n.orelse) + ")", "ifexp")
            elif isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or (
                    isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple))):
                put(n, "pass", "delete")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(
                    isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                put(n, "pass", "delete")
            elif isinstance(n, ast.Slice):
                for k in ("lower", "upper"):
                    if getattr(n, k) is not None:
                        c = copy.deepcopy(n)
                        setattr(c, k, None)
                        put(n, ast.unparse(c), "slice")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and all(isinstance(e, ast.Constant) for e in n.slice.elts):
                c = copy.deepcopy(n)
                c.slice.elts.reverse()
                put(n, ast.unparse(c), "index")
            elif isinstance(n, (ast.Continue, ast.Break)):
                put(n, "pass", "jump")
    good = []
    for m in out:
        src = open(os.path.join(REPO, "xrd_simulator", m["file"] + ".py"), "rb").read()
        s = src[:m["a"]] + m["new"].encode() + src[m["b"]:]
        try:
            t = ast.parse(s)
        except SyntaxError:
            continue
        if ast.dump(t) == ast.dump(ast.parse(src)):
            continue
        good.append(m)
    for i, m in enumerate(good):
        m["id"] = i
    return good


# ---------------------------------------------------------------- running
def cost_order(d):
    out = []
    for p in sorted(x[:-4] for x in os.listdir(d) if x.endswith(".pkl")):
        b = pickle.load(open(os.path.join(d, p + ".pkl"), "rb"))
        b["mean"] = sum(b["secs"]) / max(1, len(b["secs"]))
        b["json"] = [json.dumps(e, sort_keys=True) for e in b["events"]]
        out.append((p, b))
    return sorted(out, key=lambda x: x[1]["mean"])


def one(m, base, d, cap):
    """In a forked child: decide one mutant."""
    from harness import check as C, tlc as T, rec
    scratch = tempfile.mkdtemp(prefix="xv-mutant-")
    res = dict(m, status="survived", ran=0, differ=0, by="")
    t0 = time.time()
    try:
        shutil.copytree(os.path.join(REPO, "xrd_simulator"), os.path.join(scratch, "xrd_simulator"), ignore=shutil.ignore_patterns("__pycache__"))
        path = os.path.join(scratch, "xrd_simulator", m["file"] + ".py")
        src = open(path, "rb").read()
        open(path, "wb").write(src[:m["a"]] + m["new"].encode() + src[m["b"]:])
        sys.path.insert(0, scratch)
        sys.dont_write_bytecode = True
        os.environ["PYTHONPATH"] = scratch
        os.environ["XV_SCRATCH"] = scratch
        try:
            import xrd_simulator.polycrystal, xrd_simulator.detector, xrd_simulator.templates
        except Exception as e:
            res.update(status="killed", by="import", why=str(e)[:100])
            return res
        assert xrd_simulator.polycrystal.__file__.startswith(scratch)
        rng = random.Random(m["id"])
        res["reach"] = {}
        tl = None
        for p, b in base:
            idx = [i for i, l in enumerate(b["lines"]) if (m["file"], m["line"]) in l]
            if not idx:
                continue
            res["reach"][p] = len(idx)
            rng.shuffle(idx)
            C._MOD = None
            try:
                C._init(p.lower(), scratch)
            except Exception as e:
                res.update(status="killed", by=p, why="init " + str(e)[:100])
                return res
            diff, judged, t1 = [], 0, time.time()

            def look():
                nonlocal tl, diff, judged
                if tl is None:
                    tl = T.Tlc(scratch)
                ctx = C.Ctx(p, "quick", 1, tl, scratch)
                bad = C.judge(ctx, getattr(C._MOD, "TRACE", "Trace"), diff, 900, jvms=1)[2]
                judged += len(diff)
                diff = []
                return bad
            for n, i in enumerate(idx[:cap]):
                if time.time() - t1 > 240 or judged >= 30:
                    break
                ev = C._run((b["scns"][i], 40))
                res["ran"] += 1
                if json.dumps(ev, sort_keys=True) != b["json"][i]:
                    res["differ"] += 1
                    diff.append((i, ev))
                    if len(diff) >= 8:
                        bad = look()
                        if bad:
                            break
                        bad = {}
            else:
                bad = {}
            if not bad and diff:
                bad = look()
            if bad:
                k = sorted(bad)[0]
                res.update(status="killed", by=p, why="; ".join(bad[k][0]["clauses"])[:150])
                return res
        return res
    except T.Machinery as e:
        res.update(status="error", why=str(e)[-300:])
        return res
    finally:
        res["secs"] = round(time.time() - t0, 1)
        shutil.rmtree(scratch, ignore_errors=True)


def run(d, jobs, secs, only):
    import numpy, torch, scipy.optimize, scipy.spatial, scipy.special, meshio, meshpy.tet, xfab.tools, CifFile, skimage.measure, dill  # noqa: what the package uses
    from harness import check, tlc, rec  # noqa
    torch.set_num_threads(1)
    base = cost_order(d)
    ms = json.load(open(os.path.join(d, "mutants.json")))
    rp = os.path.join(d, "results.jsonl")
    done = {json.loads(l)["id"] for l in open(rp)} if os.path.exists(rp) else set()
    ms = [m for m in ms if m["id"] not in done and (not only or only in m["file"])]
    random.Random(int(os.environ.get("MUT_SEED", 5))).shuffle(ms)
    end = time.time() + secs
    live = {}
    while (ms or live) and (time.time() < end or live):
        while ms and len(live) < jobs and time.time() < end:
            m = ms.pop()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30)) if False else None
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                try:
                    r = one(m, base, d, 60)
                except BaseException as e:
                    r = dict(m, status="error", why=repr(e)[:300])
                with open(rp, "a") as f:
                    f.write(json.dumps(r) + "\n")
                os._exit(0)
            live[pid] = (m, time.time())
        time.sleep(.2)
        for pid in list(live):
            q, st = os.waitpid(pid, os.WNOHANG)
            m, t = live[pid]
            if q:
                del live[pid]
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                if st:
                    with open(rp, "a") as f:
                        f.write(json.dumps(dict(m, status="killed", by="process", why="died")) + "\n")
            elif time.time() - t > 1800:
                os.killpg(pid, signal.SIGKILL)


if __name__ == "__main__":
    cmd, d = sys.argv[1:3]
    os.makedirs(d, exist_ok=True)
    if cmd == "prep":
        prep(d, sys.argv[3:])
    elif cmd == "list":
        ms = mutants()
        json.dump(ms, open(os.path.join(d, "mutants.json"), "w"), indent=0)
        by = {}
        for m in ms:
            by[m["file"]] = by.get(m["file"], 0) + 1
        print(len(ms), by)
    else:
        run(d, int(sys.argv[3]), float(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "")
