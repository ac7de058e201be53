"""Plumbing shared by the checks: building the drivers, running them on
scripts, running TLC and reading what it reports, evidence and verdicts."""
from concurrent.futures import ThreadPoolExecutor
import json, os, random, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
MEM = 6 << 30


class ToolError(Exception):
    pass


class Violation(Exception):
    """Raised at once when the code under test crashes or hangs."""
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


VARIANTS = {
    "dev": ([], "debug", ""),
    "lite": (["--profile", "lite"], "lite", ""),
    "release": (["--release"], "release", ""),
    "int": (["--features", "internal"], "debug", "int"),
    "intlite": (["--profile", "lite", "--features", "internal"], "lite", "int"),
    "intrel": (["--release", "--features", "internal"], "release", "int"),
    "store": (["--features", "store"], "debug", "store"),
    "complete": (["--features", "complete"], "debug", "complete"),
    "padck": (["--features", "padck"], "debug", "padck"),
    "rangeck": (["--features", "rangeck"], "debug", "rangeck"),
    "hexin": (["--features", "hexin"], "debug", "hexin"),
    "full": (["--features", "full"], "debug", "full"),
    "fulllite": (["--profile", "lite", "--features", "full"], "lite", "full"),
    "fullrel": (["--release", "--features", "full"], "release", "fullrel"),
}


# the options that change behaviour, and the variants that switch them on
FLAGS = ("complete", "padck", "rangeck", "hexin")


def flags(variant):
    return {f: "TRUE" if variant == f or variant.startswith("full") else "FALSE" for f in FLAGS}


def build(bins, variant="dev"):
    """Builds driver binaries from /repo's working tree; returns their folder."""
    args, prof, sub = VARIANTS[variant]
    tgt = os.path.join(TARGET, sub or "base")
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tgt] + args
    for b in bins:
        cmd += ["--bin", b]
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true",
               RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building the drivers failed:\n" + p.stdout[-4000:])
    return os.path.join(tgt, prof)


# fragments with a meaning of their own to something that reads text
FRAGMENTS = [list(x) for x in (
    b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"\x00", b"\r\n", b"\n", b" ", b"\t", b"0x", b"0X1f", b"%s", b"{}", b"\\", b'"',
    b"a1B2", b"dead", b"-1", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbf\xbd", b"\xef\xbf\xbf", b"\xf4\x8f\xbf\xbf", b"\x7f", b"\xc3\xa9",
    b"e\xcc\x81", b"\xc0\x80", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xed\xa0\x80\xed\xb0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80",
    b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xbf\xbf", b"\xd9\xa3", b"\xef\xbc\x91", b"\xf0\x9d\x9f\x91")]


def jline(o):
    return json.dumps(o, separators=(",", ":"))


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.notes = {}
        self.bad = []          # violations of this property
        self.other = 0         # rejected steps that belong to other properties

    def rng(self, salt):
        return random.Random(f"{self.seed}/{salt}")

    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, items):
        p = self.path(name)
        with open(p, "w") as f:
            for it in items:
                f.write(it if isinstance(it, str) else jline(it))
                f.write("\n")
        return p

    # -- driver ------------------------------------------------------------
    def drive(self, bindir, name, script, log, shards=1, timeout=600, mem=MEM):
        """Runs a driver over a script (a list of lines).  With shards > 1 the
        script is split and run in parallel; the logs are joined in order."""
        items = [x if isinstance(x, str) else jline(x) for x in script]
        shards = max(1, min(shards, CORES, len(items) // 200 + 1))
        size = (len(items) + shards - 1) // shards if items else 1
        procs = []
        for i in range(shards):
            part = items[i * size:(i + 1) * size]
            base = self.path(f"{log}.{i}")
            with open(base + ".in", "w") as f:
                f.write("\n".join(part) + "\n")
            err = open(base + ".err", "wb")
            env = dict(os.environ, VH_STDERR=base + ".err")
            p = subprocess.Popen([os.path.join(bindir, name), base + ".in", base + ".out", base + ".mark"],
                                 env=env, stderr=err, stdout=subprocess.PIPE, cwd=self.work,
                                 preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_AS, (mem, mem)),
                                                     resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
            procs.append((p, base, part, err))
        out = self.path(log)
        crash = None
        with open(out, "w") as f:
            for p, base, part, err in procs:
                try:
                    so, _ = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    raise ToolError(f"driver {name} timed out")
                err.close()
                if p.returncode == 2 or p.returncode in (101, 1):
                    raise ToolError(f"driver {name}: " + so.decode(errors="replace")[-500:]
                                    + open(base + ".err", errors="replace").read()[-500:])
                if p.returncode != 0:
                    try:
                        ix = int(open(base + ".mark").read() or 0)
                    except (OSError, ValueError):
                        ix = 0
                    what = "hang" if p.returncode == 9 else f"crash (status {p.returncode})"
                    crash = crash or (what, part[min(ix, len(part) - 1)])
                else:
                    with open(base + ".out") as g:
                        shutil.copyfileobj(g, f)
                for ext in (".in", ".out", ".err", ".mark"):
                    try:
                        os.unlink(base + ext)
                    except OSError:
                        pass
        if crash:
            rep = self.path("crash.json")
            with open(rep, "w") as f:
                f.write(jline({"driver": name, "what": crash[0], "script": json.loads(crash[1])}) + "\n")
            raise Violation(crash[0], rep)
        return out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, simulate=None, want_ok=True,
            tag="", count=True):
        """Runs TLC; returns its output lines.  An invariant violated in the
        specification itself is an error of the machinery, not of the code.
        TLC's workers can trip over each other normalising a shared record
        (an exception or a nonsensical type error of TLC's): a run that fails
        other than by violating an invariant is repeated with one worker."""
        workers = workers or CORES
        try:
            r = self._tlc(module, cfg, env, workers, timeout, simulate, want_ok, tag)
        except ToolError as e:
            if workers == 1 or "is violated" in str(e) and "unexpected exception" not in str(e):
                raise
            r = self._tlc(module, cfg, env, 1, timeout, simulate, want_ok, tag)
        if count:
            self.states += r[2]
            self.transitions += r[1]
        return r

    def _tlc(self, module, cfg, env, workers, timeout, simulate, want_ok, tag):
        cfgp = self.path(module + tag + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        meta = self.path("tlc-" + module + tag)
        gc = ["-XX:+UseParallelGC", "-Xmx12g"] if workers > 1 else \
             ["-XX:+UseSerialGC", "-Xmx3g", "-XX:TieredStopAtLevel=4"]
        cmd = ["java"] + gc + ["-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-fp", "7", "-config", cfgp]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        lines = p.stdout.splitlines()
        gen = dist = 0
        for l in lines:
            if " states generated, " in l and "Progress" not in l:
                w = l.replace(",", "").split()
                gen, dist = int(w[0]), int(w[3])
        if want_ok and (p.returncode != 0 or not any("No error has been found" in l for l in lines)):
            tail = "\n".join(x for x in lines if not x.startswith(("Semantic", "Linting", "Parsing")))
            raise ToolError(f"TLC failed on {module}:\n" + tail[-3000:])
        return lines, gen, dist

    @staticmethod
    def tagged(lines, tag):
        out = []
        pre = '"' + tag + " "
        for l in lines:
            if l.startswith(pre):
                out.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return out

    def validate(self, module, log, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", expect=None,
                 env=None, timeout=800, group=1, shards=None):
        """Validates a log, in parts (each `group` lines stay together), each
        with its own single-worker TLC; returns the rejected steps.  `expect`
        is the number of states a complete validation visits: fewer means that
        the trace specification did not consume the log."""
        with open(log) as f:
            lines = f.readlines()
        units = [lines[i:i + group] for i in range(0, len(lines), group)]
        shards = max(1, min(shards or CORES, len(units) // 8))
        jobs = []
        for k in range(shards):
            part = self.path(f"{os.path.basename(log)}.{module}.{k}")
            with open(part, "w") as f:
                for u in units[k::shards]:
                    f.writelines(u)
            jobs.append(part)

        def one(k):
            e = {"TRACE": jobs[k]}
            e.update(env or {})
            return self.tlc(module, cfg, env=e, timeout=timeout, workers=1, tag=f"-{k}", count=False)
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        bad, dist = [], 0
        for k, (out, g, d) in enumerate(res):
            self.states += d
            self.transitions += g
            dist += d
            for b in self.tagged(out, "BAD"):
                u, r = divmod(b["sess"] - 1, group)
                b["sess"] = (u * shards + k) * group + r + 1
                bad.append(b)
            os.unlink(jobs[k])
        bad.sort(key=lambda b: (b["sess"], b.get("step", 0)))
        if expect is not None and not bad and dist != expect:
            raise ToolError(f"{module} visited {dist} states, {expect} expected")
        return bad

    # -- verdict -----------------------------------------------------------
    def report(self, bads, log, select, label):
        """Sorts rejected steps into this property's violations and others'."""
        if not bads:
            return
        with open(log) as f:
            lines = f.readlines()
        for b in bads:
            if select(b):
                rec = lines[b["sess"] - 1] if 0 < b.get("sess", 0) <= len(lines) else "null"
                self.bad.append({"label": label, "spec": b, "observed": json.loads(rec)})
            else:
                self.other += 1

    def finish(self, level, coverage_extra=None, assumptions=None):
        known = load_known(self.prop)
        fresh, seen = [], []
        for b in self.bad:
            k = next((k for k in known if matches(k, b)), None)
            (seen if k else fresh).append((k, b))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "steps_validated": self.steps, "rejected_for_other_properties": self.other,
               "samples": self.samples[:6] or ["none"]}
        cov.update(self.notes)
        cov.update(coverage_extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": assumptions or [],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {x[0]["id"] for x in seen}:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if fresh:
            rep = self.path("violations.json")
            with open(rep, "w") as f:
                json.dump([b for _, b in fresh[:50]], f, indent=1)
            for _, b in fresh[:5]:
                print("  rejected:", json.dumps(b.get("spec"))[:600])
            print(f"VIOLATION property={self.prop} replay={rep}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} "
              f"steps={self.steps} wall={time.time() - self.t0:.1f}s")
        return 0


def load_known(prop):
    """The recorded findings that are not repaired: lines
    finding: {"property": .., "id": .., "match": {field of the rejected step: value}}"""
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                o = json.loads(l[len("finding:"):])
                if o.get("property") == prop:
                    out.append(o)
    return out


def matches(k, b):
    return all(b["spec"].get(x) == v for x, v in k["match"].items())
