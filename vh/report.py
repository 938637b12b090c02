import hashlib, json, os, pathlib, random, sys, time, traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()


def write_evidence(pid, tier, coverage, wall, violations, assumptions=(), level="model_checking"):
    path = ROOT / "evidence" / f"{pid}.json"
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps({
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": coverage, "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations,
    }, indent=1, default=str))


def known_findings():
    f = ROOT / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else {"findings": [], "fixed": []}


class StopCheck(Exception):
    pass


class Ctx:
    """What one run of one check explored and found."""
    MAX_VIOLATIONS = 3

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + 17)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.models = {}
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known_seen = set()
        self.known = [k for k in known_findings()["findings"] if k["property"] == pid]
        self.status_path = os.environ.get("VERIF_STATUS")
        self.last_status = 0.0

    # --- life signs -------------------------------------------------------------------------------------
    def beat(self, phase="machinery", case=None, force=False):
        now = time.time()
        if self.status_path and (force or phase == "impl" or now - self.last_status > 1):
            self.last_status = now
            tmp = self.status_path + ".tmp"
            with open(tmp, "w") as f:
                json.dump({"phase": phase, "case": case, "coverage": self.coverage()}, f, default=str)
            os.replace(tmp, self.status_path)

    def impl(self, case=None):
        """About to run the code under test on `case`."""
        now = time.time()
        self.current = case
        if now - self.last_status > 0.05:
            self.beat("impl", case)

    # --- specification ----------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, *, label=None, **kw):
        from . import tlc
        self.beat("machinery", {"tlc": module}, force=True)
        kw.setdefault("seed", self.seed)
        r = tlc.run(module, cfg, beat=lambda: self.beat(), **kw)
        self.states += r.distinct
        self.transitions += r.states
        m = self.models.setdefault(label or (f"{module}/{cfg}" if cfg and cfg != module else module), {"distinct": 0, "generated": 0, "emitted": 0, "actions": {}, "wall_s": 0})
        m["distinct"] += r.distinct
        m["generated"] += r.states
        m["emitted"] += len(r.lines)
        m["wall_s"] = round(m["wall_s"] + r.wall, 1)
        for a, n in r.actions.items():
            m["actions"][a] = m["actions"].get(a, 0) + n
        return r

    # --- results ----------------------------------------------------------------------------------------
    def trace(self, sample=None):
        self.traces += 1
        if sample is not None and (len(self.samples) < 2 or (len(self.samples) < 4 and self.rng.random() < 0.02)):
            self.samples.append(sample)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def violation(self, what, case, signature=None):
        for k in self.known:
            if signature is not None and k.get("signature") == signature:
                self.known_seen.add(k["signature"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        digest = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = ROOT / "evidence" / "replays" / f"{self.pid}-{digest}.json"
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(json.dumps({"property": self.pid, "seed": self.seed, "what": what, "case": case}, indent=1, default=str))
        print(f"{self.pid}: {what}")
        print(f"VIOLATION property={self.pid} replay={path.relative_to(ROOT)}", flush=True)
        self.violations.append(what)
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopCheck

    def check(self, fn, case, *, sample=True):
        """Run fn(ctx, case) against the code; fn returns None or what went wrong."""
        self.impl(case)
        try:
            what = fn(self, case)
        except StopCheck:
            raise
        except Exception as e:
            if not from_impl(e):
                raise
            what = f"unexpected {type(e).__name__}: {e} ({where(e)})"
        self.trace(case if sample else None)
        if what is not None:
            self.violation(what, case)
            return False
        return True

    def coverage(self):
        c = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
             "samples": [trim(s) for s in self.samples] or ["(none yet)"], "models": self.models}
        if self.notes:
            c["counts"] = self.notes
        return c

    def finish(self):
        wall = time.time() - self.t0
        write_evidence(self.pid, self.tier, self.coverage(), wall, len(self.violations), self.assumptions)
        print(f"{self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} executions of the code, "
              f"{len(self.violations)} violations, {wall:.1f} s {json.dumps(self.notes) if self.notes else ''}")
        return 1 if self.violations else 0


def trim(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def frames(e):
    return [f.filename for f in traceback.extract_tb(e.__traceback__)]


def from_impl(e):
    """Did the code under test raise this (possibly through a library it called)?"""
    fs = frames(e)
    return any(str(f).startswith(str(REPO) + os.sep) for f in fs)


def where(e):
    tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(str(REPO))]
    return f"{os.path.relpath(tb[-1].filename, REPO)}:{tb[-1].lineno}" if tb else "?"
