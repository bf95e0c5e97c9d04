"""Framework shared by all checks: builds the driver from /repo, drives it, runs TLC, writes evidence.

Verdicts come from TLC (or from the equality of a recorded result with the result printed by TLC for the same
stimulus). Outcomes: exit 0 (held), exit 1 with a VIOLATION line, any other exit is an error of the check.
"""
import atexit, glob, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")   # the variable is for experiments on scratch copies
PKG = "./wordbreak/hyphenator/zzverif"
VPKG = REPO + "/wordbreak/hyphenator/zzverif/"
LANGDIR = REPO + "/wordbreak/hyphenator/languages/"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check could not be carried out"""


class Violation(Exception):
    def __init__(self, part, stimuli, detail):
        Exception.__init__(self, detail)
        self.part, self.stimuli, self.detail = part, stimuli, detail


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.drivers = {}
        self.states = self.transitions = self.traces = 0
        self.exhaustive = None
        self.samples = []
        self.parts = []
        self.n = 0
        self.replaying = None
        self.env = {}   # of TLC
        self.over = {}  # {file of /repo: file that replaces it} in the driver

    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.prop, name, self.seed))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- the driver, built from the working tree of /repo -----------------------------------------------
    def driver(self, race=False, tex=None):
        """tex: {file name: content} of additional pattern files, embedded like the ones of the library"""
        key = (race, json.dumps([tex, self.over], sort_keys=True))
        if key in self.drivers:
            return self.drivers[key]
        n = len(self.drivers)
        repl = {VPKG + os.path.basename(f): f for f in glob.glob(HERE + "/driver/*.go")}
        repl.update(self.over)
        for name, content in (tex or {}).items():
            p = os.path.join(self.tmp, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(content)
            repl[LANGDIR + name] = p
        ov = os.path.join(self.tmp, "overlay%d.json" % n)
        with open(ov, "w") as f:
            json.dump({"Replace": repl}, f)
        out = os.path.join(self.tmp, "driver%d" % n)
        for tags in ["verif"] if self.prop == "C24" else ["verif", "verif,verif_notrie"]:   # only C24 needs the internal trie
            cmd = ". /opt/vp/env.sh; cd %s && go build %s -tags %s -overlay %s -o %s %s" % (REPO, "-race" if race else "", tags, ov, out, PKG)
            p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            raise CheckError("the driver does not build:\n" + p.stdout.decode(errors="replace")[-4000:])
        self.drivers[key] = out
        return out

    def drive(self, part, stimuli, race=False, tex=None, procs=1, timeout=600, env=None):
        """Returns one record per stimulus, in order. procs: number of processes that share the stimuli."""
        exe = self.driver(race, tex)
        procs = max(1, min(procs, len(stimuli)))
        chunks = [stimuli[i::procs] for i in range(procs)]
        running = []
        for i, c in enumerate(chunks):
            self.n += 1
            fin, fout, ferr = (os.path.join(self.tmp, "%s%d" % (x, self.n)) for x in ("in", "out", "err"))
            with open(fin, "w") as f:
                for s in c:
                    f.write(json.dumps(s) + "\n")
            e = dict(os.environ, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single", **(env or {}))
            running.append((c, fout, ferr, subprocess.Popen([exe], stdin=open(fin), stdout=open(fout, "w"), stderr=open(ferr, "w"), env=e)))
        res = [None] * len(stimuli)
        end = time.time() + timeout
        bad = None
        for i, (c, fout, ferr, p) in enumerate(running):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                raise CheckError("driver timeout")
            lines = open(fout).read().split("\n")[:-1]
            recs = [json.loads(l) for l in lines]
            err = open(ferr, errors="replace").read()
            if p.returncode < 0 and p.returncode != -11 or p.returncode == 9:
                raise CheckError("driver ended with %s: %s" % (p.returncode, err[-2000:]))
            for j, r in enumerate(recs):
                if isinstance(r, dict) and r.get("hang"):
                    bad = bad or Violation(part, [c[j]], "a call does not terminate (60 s)")
                elif isinstance(r, dict) and r.get("panic") is True:
                    bad = bad or Violation(part, [c[j]], "a call panics: " + err[:2000])
                else:
                    res[i + j * procs] = r
            if bad is None and (p.returncode != 0 or len(recs) != len(c)):
                k = min(len(recs), len(c) - 1)
                bad = Violation(part, [c[k]], "the process is ended by the call: exit %s\n%s" % (p.returncode, err[:3000]))
        if bad:
            raise bad
        return res

    # --- TLC -------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers="8", timeout=800, heap="6g", extra=()):
        """Runs TLC on spec/<module>.tla with this configuration text; returns (kind, output)."""
        self.n += 1
        d = os.path.join(self.tmp, "tlc%d" % self.n)
        os.mkdir(d)
        for f in glob.glob(HERE + "/spec/*.tla"):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        cf = os.path.join(d, "MC.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % timeout, "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-workers", workers, "-config", cf, "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-deadlock", *extra, module + ".tla"]
        e = dict(os.environ, VF_DIR=self.tmp, VF_DATA=HERE + "/data", **{k: str(v) for k, v in dict(self.env, **(env or {})).items()})
        outp = os.path.join(d, "out")
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout + 60)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timeout on " + module)
        out = open(outp, errors="replace").read()
        shutil.rmtree(d, True)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out, re.M)
        if p.returncode == 0 and m and m[-1][2] == "0" and "No error has been found" in out:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
            return "ok", out
        if p.returncode in (12,) and re.search(r"Error: Invariant (\w+) is violated|Error: Action property", out):
            return "invariant", out
        raise CheckError("TLC on %s: exit %s\n%s" % (module, p.returncode, out[-5000:]))

    # --- model: TLC enumerates behaviours, the driver replays them ------------------------------------------
    def emit(self, module, consts, invariants, extra_cfg="", spec="Spec", timeout=800, view=None, workers="1"):
        """Exhaustively checks a model, and returns what it prints (JSON lines starting with @@)."""
        cfg = "SPECIFICATION %s\nCONSTANTS\n%s\nINVARIANTS\n%s\n%s\n" % (
            spec, "\n".join("  %s = %s" % kv for kv in consts.items()) or " ", "\n".join("  " + i for i in invariants), extra_cfg)
        if not consts:
            cfg = cfg.replace("CONSTANTS\n \n", "")
        if view:
            cfg += "VIEW %s\n" % view
        kind, out = self.tlc(module, cfg, workers=workers, timeout=timeout)
        if kind != "ok":
            raise CheckError("the model %s does not satisfy its own invariants:\n%s" % (module, out[-3000:]))
        res = []
        for l in out.split("\n"):
            if l.startswith('"@@'):
                res.append(json.loads(json.loads(l)[2:]))
        return res

    # --- trace: TLC validates recorded executions --------------------------------------------------------------
    def validate(self, part, module, records, stimuli, invariants=("Conforms",), consts=None, chunk=4000, extra_cfg="", weight=None):
        """records: list of JSON records, each validated as a behaviour of spec <module>; stimuli[i] produced records[i]."""
        for at in range(0, len(records), chunk):
            part_records = records[at:at + chunk]
            self.n += 1
            trace = os.path.join(self.tmp, "trace%d.ndjson" % self.n)
            with open(trace, "w") as f:
                for r in part_records:
                    f.write(json.dumps(r) + "\n")
            cfg = "SPECIFICATION Spec\nINVARIANTS\n%s\n%s\n" % ("\n".join("  " + i for i in invariants), extra_cfg)
            if consts:
                cfg += "CONSTANTS\n%s\n" % "\n".join("  %s = %s" % kv for kv in consts.items())
            kind, out = self.tlc(module, cfg, env={"VF_TRACE": trace})
            n = re.findall(r"Finished computing initial states: (\d+) (?:distinct )?state", out)
            if kind == "ok":
                if not n or int(n[-1]) != len(part_records):
                    raise CheckError("TLC did not look at all the records of %s: %s of %d\n%s" % (module, n, len(part_records), out[-2000:]))
                self.traces += len(part_records)
            else:
                m = re.findall(r"^\s*/\\ l = (\d+)|^l = (\d+)", out, re.M)
                if not m:
                    raise CheckError("cannot read the record that is rejected by %s:\n%s" % (module, out[-3000:]))
                i = int(m[-1][0] or m[-1][1]) - 1
                inv = re.search(r"Invariant (\w+) is violated", out)
                mm = [l for l in out.split("\n") if "MISMATCH" in l]
                detail = "%s: record rejected by %s\nrecord: %s\n%s\n%s" % (
                    inv.group(1) if inv else "?", module, json.dumps(part_records[i])[:3000], "\n".join(mm[:5])[:3000], tail_state(out))
                raise Violation(part, [stimuli[at + i]], detail)
            os.unlink(trace)

    def sample(self, *xs):
        for x in xs:
            s = json.dumps(x)
            self.samples.append(json.loads(s) if len(s) < 2500 else s[:2500] + "...")

    def note(self, **kw):
        self.parts.append(kw)


def tail_state(out):
    i = out.rfind("\nState ")
    return out[i:i + 3000] if i >= 0 else ""


def walks(edges, init, limit=60, key=lambda s: json.dumps(s, sort_keys=True)):
    """Sequences of edges from init that cover every edge {"s","a","t",...} of a deterministic graph."""
    out = {}
    for n, e in enumerate(edges):
        e["_t"] = key(e["t"])
        out.setdefault(key(e["s"]), []).append(e)
    todo = {k: list(v) for k, v in out.items()}
    init = key(init)
    # shortest path from init to each state
    pred, queue = {init: None}, [init]
    for s in queue:
        for e in out.get(s, []):
            if e["_t"] not in pred:
                pred[e["_t"]] = (s, e)
                queue.append(e["_t"])

    def path(s):
        p = []
        while pred[s] is not None:
            s, e = pred[s]
            p.append(e)
        return p[::-1]

    res = []
    for s in queue:
        while todo.get(s):
            w = path(s)
            cur = s
            while todo.get(cur) and len(w) < limit:
                e = todo[cur].pop()
                w.append(e)
                cur = e["_t"]
            res.append(w)
    left = sum(len(v) for k, v in todo.items())
    if left:
        raise CheckError("%d transitions of the model are not covered" % left)
    return res


def replay_walks(ctx, part, wks, to_stim, **kw):
    """Runs the walks on the real code; the result of each step must be the one of the model."""
    stimuli = [to_stim(w) for w in wks]
    recs = ctx.drive(part, stimuli, **kw)
    for w, s, r in zip(wks, stimuli, recs):
        got = r.get("res") if isinstance(r, dict) else None
        for i, e in enumerate(w):
            g = got[i] if got is not None else r
            if g != e["r"]:
                raise Violation(part, [dict(s, expect=[x["r"] for x in w])], "step %d %s: the model gives %s, the code %s" % (
                    i + 1, json.dumps(e["a"]), json.dumps(e["r"]), json.dumps(g)))
    ctx.traces += len(wks)
    return stimuli


def expect_equal(ctx, part, stimuli, expected, observed):
    for s, e, o in zip(stimuli, expected, observed):
        if e != o:
            raise Violation(part, [dict(s, expect=e)], "the model gives %s, the code %s" % (json.dumps(e)[:1500], json.dumps(o)[:1500]))
    ctx.traces += len(stimuli)
