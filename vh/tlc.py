"""Run TLC, collect its statistics and the JSON lines emitted by the specification."""
import json, os, pathlib, re, shutil, subprocess, tempfile, time

SPECS = pathlib.Path(__file__).resolve().parent.parent / "specs"
JARS = [p for p in (
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
    "/opt/veriftools/tla/CommunityModules.jar",
) if os.path.exists(p)]


class TLCError(RuntimeError):
    """The specification could not be checked (machinery failure)."""


class TLCViolation(RuntimeError):
    """TLC found a behaviour of the specification that breaks one of its properties."""


class Result:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.lines = []
        self.actions = {}
        self.output = ""
        self.wall = 0.0
        self.violated = None


def run(module, cfg=None, *, cfg_text=None, consts=None, workers=1, simulate=None, depth=None, seed=1,
        env=None, emit=True, timeout=600, traces=None, heap="2g", coverage=True, beat=None, allow_violation=False):
    """Model-check specs/<module>.tla with specs/<cfg>.cfg (or cfg_text).

    consts: dict appended to the configuration as constants (TLA+ text).
    traces: list of JSON values, given to the specification as ndjson file IOEnv.TRACES.
    simulate: number of random behaviours instead of breadth-first search.
    The specification appends JSON lines to IOEnv.OUT; they are returned in Result.lines (duplicates removed).
    """
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="vtlc-"))
    res = Result()
    try:
        text = cfg_text if cfg_text is not None else (SPECS / f"{cfg or module}.cfg").read_text()
        if consts:
            text += "\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n"
        (scratch / "MC.cfg").write_text(text)
        out = scratch / "out.ndjson"
        out.touch()
        full_env = dict(os.environ)
        full_env["OUT"] = str(out)
        if traces is not None:
            tf = scratch / "traces.ndjson"
            with open(tf, "w") as f:
                for t in traces:
                    f.write(json.dumps(t) + "\n")
            full_env["TRACES"] = str(tf)
        for k, v in (env or {}).items():
            full_env[k] = str(v)
        full_env.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={SPECS}", "-cp", ":".join(JARS), "tlc2.TLC",
               "-deadlock", "-metadir", str(scratch / "states"), "-workers", str(workers),
               "-config", str(scratch / "MC.cfg"), "-noGenerateSpecTE"]
        if coverage and not simulate:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(str(SPECS / f"{module}.tla"))
        t0 = time.time()
        log = open(scratch / "log", "w+")
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=full_env, cwd=SPECS, stdin=subprocess.DEVNULL)
        try:
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    if beat:
                        beat()
                    if time.time() - t0 > timeout:
                        raise TLCError(f"{module}: TLC exceeded {timeout} s")
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        res.wall = time.time() - t0
        log.seek(0)
        res.output = log.read()
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.output)
        if m:
            res.states, res.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"([\d,]+) states checked", res.output) or re.findall(r"number of states generated: ([\d,]+)", res.output)
            if m:
                res.states = res.distinct = int(m[-1].replace(",", ""))
        for m in re.finditer(r"^<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", res.output, re.M):
            n = int(m.group(3).replace(",", ""))
            res.actions[m.group(1)] = max(res.actions.get(m.group(1), 0), n)
        if p.returncode != 0:
            if p.returncode in (10, 11, 12, 13):
                v = re.search(r"Error: (.*)", res.output)
                res.violated = v.group(1) if v else "property violated"
                if not allow_violation:
                    raise TLCViolation(f"{module}: {res.violated}\n{res.output[-4000:]}")
            else:
                at = res.output.find("Error:")
            raise TLCError(f"{module}: TLC exit code {p.returncode}\n{res.output[at:at + 1500] if at >= 0 else ''}\n{res.output[-2500:]}")
        seen = set()
        with open(out) as f:
            for line in f:
                line = line.rstrip("\n")
                if line and line not in seen:
                    seen.add(line)
                    v = json.loads(line)
                    res.lines.append(json.loads(v) if isinstance(v, str) else v)
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
