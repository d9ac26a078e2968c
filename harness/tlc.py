"""Running TLC: compile the Fix override, check models, judge traces."""
import glob, json, os, re, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (exit 2): says nothing about the code under test."""


class Tlc:
    def __init__(self, scratch):
        self.scratch = scratch
        self.classes = os.path.join(scratch, "classes")
        os.makedirs(self.classes, exist_ok=True)
        p = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", self.classes] + glob.glob(os.path.join(VERIF, "java", "*.java")),
                           capture_output=True, text=True)
        if p.returncode:
            raise Machinery("javac failed: " + p.stderr[-2000:])

    def start(self, module, cfg, env=None, workers=1, heap="3g", extra=()):
        """Start TLC on spec/<module>.tla with configuration text cfg; returns a handle."""
        d = os.path.join(self.scratch, "tlc-%s-%d" % (module, time.monotonic_ns()))
        os.makedirs(d)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg)
        # TLC wants config next to the module name: run from a dir with a symlinked spec tree
        for t in glob.glob(os.path.join(SPEC, "*.tla")):
            os.symlink(t, os.path.join(d, os.path.basename(t)))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap, "-cp", self.classes + ":" + TLA, "tlc2.TLC",
               "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(workers), *extra, module + ".tla"]
        out = open(os.path.join(d, "out"), "w+")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, text=True)
        return dict(p=p, out=out, dir=d, module=module, t0=time.time())

    def finish(self, h, timeout):
        try:
            h["p"].wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            h["p"].kill()
            h["p"].wait()
            raise Machinery("TLC on %s did not finish in time" % h["module"])
        h["out"].flush()
        h["out"].seek(0)
        text = h["out"].read()
        h["out"].close()
        r = dict(rc=h["p"].returncode, text=text, states=0, transitions=0, lines=[], secs=time.time() - h["t0"])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            r["transitions"], r["states"] = int(m.group(1)), int(m.group(2))
        for line in text.splitlines():
            if line.startswith('"@@') or line.startswith("@@"):
                s = line.strip()
                if s.startswith('"'):
                    try:
                        s = json.loads(s)
                    except ValueError:
                        s = s.strip('"').replace('\\"', '"')
                r["lines"].append(s)
        r["completed"] = "Model checking completed. No error has been found." in text
        return r

    def model(self, module, cfg, timeout=600, workers=1, heap="3g", extra=()):
        """Exhaustive check of a model; its own invariants must hold. Returns stats and @@ lines."""
        r = self.finish(self.start(module, cfg, workers=workers, heap=heap, extra=extra), timeout)
        if not r["completed"]:
            raise Machinery("model %s is not valid:\n%s" % (module, r["text"][-3000:]))
        return r
