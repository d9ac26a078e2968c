from harness import gen, rec as R, world as W, zygote

CFG = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Honest CpuObeyed GpuObeyed\nPROPERTIES NoMagic Stays\n"
ASSUMPTIONS = ["the hardware is what torch.cuda.is_available and device_count say; there is no GPU here, so tensors for it are not allocated"]
SPELL = dict(cpu=["cpu", "CPU", " cpu ", "Cpu\n"], gpu=["gpu", "cuda", "GPU", "CUDA", " Cuda", "gPu\t"], auto=["auto", None, "AUTO", " auto "], invalid=["tpu", "", "gpu0", 3, "cpu,gpu", "no", "c pu", False, ["cpu"], "mps"])


def scenarios(ctx):
    r = ctx.rng
    hs = ctx.cases("Device", CFG % ctx.n(4, 5), workers=6)
    r.shuffle(hs)
    out = []
    for n in range(0, len(hs), 12):
        out.append(dict(name="model-%d" % (n // 12), runs=[dress(r, h) for h in hs[n:n + 12]]))
    for n in range(ctx.n(20, 200)):
        h, gpu = [], False
        for _ in range(r.randint(8, 25)):
            k = r.choice(["hardware", "request", "request", "request", "look", "import"])
            if k == "hardware":
                gpu = not gpu
                h.append(dict(k=k, gpu=gpu))
            else:
                h.append(dict(k=k, want=r.choice(sorted(SPELL))) if k == "request" else dict(k=k))
        out.append(dict(name="walk-%d" % n, runs=[dress(r, h)]))
    return out


def dress(r, h):
    return [dict(o=o, raw=r.choice(SPELL[o["want"]]) if o["k"] == "request" else None, how=r.choice(["pos", "kw", "bare"]), verbose=r.choice([True, False])) for o in h]


def pristine(h):
    """The steps of one history in a process in which nothing was configured yet."""
    import contextlib
    import io
    import torch
    from xrd_simulator import cuda
    gpu = [False]
    torch.cuda.is_available = lambda: gpu[0]
    torch.cuda.device_count = lambda: int(gpu[0])
    out = []
    for x in h:
        o, e = x["o"], dict(err=False, ret="")
        if o["k"] == "hardware":
            gpu[0] = o["gpu"]
        elif o["k"] == "import":
            import sys
            for m in [m for m in sys.modules if m.split(".")[0] == "xrd_simulator"]:
                del sys.modules[m]
            from xrd_simulator import cuda
        elif o["k"] == "request":
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if x["raw"] is None and x["how"] == "bare":
                        e["ret"] = cuda.configure_device(verbose=x["verbose"])
                    elif x["how"] == "kw":
                        e["ret"] = cuda.configure_device(device=x["raw"], verbose=x["verbose"])
                    else:
                        e["ret"] = cuda.configure_device(x["raw"], x["verbose"])
            except Exception:
                e["err"] = True
        e.update(o=o, sel=str(cuda.get_selected_device()), ret=str(e["ret"]))
        from xrd_simulator import utils
        kinds = set()
        for f in (lambda: torch.zeros(2), lambda: torch.tensor([1.0]), lambda: utils.ensure_torch([1.0, 2.0])):
            try:
                kinds.add(f().device.type)
            except (RuntimeError, AssertionError) as x:
                # there is no such device here: the attempt shows which was meant
                if not any(w in str(x) for w in ("NVIDIA", "CUDA", "cuda")):
                    raise
                kinds.add("cuda")
        e["def"] = "/".join(sorted(kinds))
        out.append(e)
    return out


def run(s, rec):
    for h in s["runs"]:
        rec.ev("device_begin")
        for e in rec.must(zygote.ask, h):
            rec.ev("device_step", **e)
