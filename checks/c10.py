"""C10: MergeEngine (retention) and Budget (buffers) are model checked; merge() is run on their scenarios while live
results, transferred input ranges and staged output bytes are measured."""
import gc, random, shutil, threading, tracemalloc
import torch
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from checks import engine
from vh import files, lib, st

UNIT = 4096


def retention(ctx, case):
    root = engine.scratch()
    try:
        run = engine.Run(case, root)
        bad = run()
        if bad:
            return bad
        ctx.recorded.append((case, engine.trace(case, [e for e in run.rec.events if case["out"] != "file" or e["e"] != "result"])))
        limit = max(1, case["nw"])
        if case["out"] == "dict":
            if run.max_unstored > limit:
                return f"{run.max_unstored} results alive and not stored, with {case['nw']} workers"
            if run.max_unstored + run.max_stored_alive > 2 * limit or run.max_stored_alive > limit:
                return f"{run.max_stored_alive} results kept alive after they were stored, with {case['nw']} workers"
        gc.collect()
        left = [k for k, ref in run.results if ref() is not None]
        if left:
            return f"results of keys {left} are alive after the merge"
    finally:
        shutil.rmtree(root, ignore_errors=True)


class Counted(dict):
    """Output that counts and drops what it gets."""
    def __init__(self, seen):
        super().__init__()
        self.seen = seen

    def __setitem__(self, k, v):
        self.seen.append(k)


def budget(ctx, case):
    rng = random.Random(case["data_seed"])
    root = engine.scratch()
    try:
        n = len(case["size"])
        names = [f"k{i:02}" for i in range(n)]
        cfg = lib.config("vt-budget", {k: ([s * UNIT // 4], "float32") for k, s in zip(names, case["size"])})
        paths, starts = [], {}
        for f in range(case["nf"]):
            p = root / f"in{f}.safetensors"
            order = names if case["sorted"] else rng.sample(names, n)
            st.write(p, {k: torch.full([case["size"][names.index(k)] * UNIT // 4], float(f + 1)) for k in order})
            paths.append(p)
            with open(p, "rb") as h:
                starts[str(p)] = 8 + int.from_bytes(h.read(8), "little")
        lock = threading.Lock()
        window, before_eval, problems = {}, {}, []
        state = {"evaluated": 0, "stored": 0, "written": 0, "reading": {}}
        out_path = root / "out.safetensors"

        def on_read(f, pos, m):
            with lock:
                last = state["reading"].get(f._path)
                at = max(pos, starts[f._path]) if pos + m > starts[f._path] else None
                if pos >= starts[f._path]:
                    if state["evaluated"] == 0 and not state["started"]:
                        problems.append(f"{m} bytes of weights were requested before the evaluation of any key")
                    if m >= (case["window"] + 1) * UNIT:
                        problems.append(f"one transfer of {m} bytes from an input, the share of the buffer is {case['window'] * UNIT}")
                    window[f._path] = m
                elif pos + m > starts[f._path]:
                    problems.append("weights were read together with the header")
                total = sum(window.values()) + state["stored"] - state["written"]
                if total > case["bound"] * UNIT:
                    problems.append(f"{total} bytes buffered, requested {case['total'] * UNIT}, bound {case['bound'] * UNIT}")
            return m

        def after_write(f, m):
            if f._path.endswith("out.safetensors"):
                with lock:
                    state["written"] += m

        @merge_method(register=False)
        def entered(*a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            return torch.stack(a).sum(0)

        state["started"] = False

        @merge_method(register=False)
        def starter(a: Parameter(sd_mecha.StateDict[torch.Tensor]), **kwargs) -> Return(torch.Tensor):
            state["started"] = True
            return a[kwargs["key"]]

        @merge_method(register=False)
        def counted(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            with lock:
                state["evaluated"] += 1
                if case["out"] == "file":
                    staged = state["stored"] - state["written"]
                    if staged > case["staged"] * UNIT:
                        problems.append(f"{staged} bytes of results are staged, at most {case['staged'] * UNIT} expected")
                    state["stored"] += a.numel() * 4
            return a

        models = [sd_mecha.model(p, cfg) for p in paths]
        if case["nest"] == "repeat":
            models = models + [sd_mecha.model(p, cfg) for p in paths] + models
        if case["nest"] == "dict":
            leaves = [sd_mecha.literal({k: models[(i + j) % len(models)] for i, k in enumerate(names)}, cfg) for j in range(len(models))]
        else:
            leaves = models
        recipe = counted(entered(*(starter(l) for l in leaves)))
        peak = None
        hooks = files.Hooks(on_read=on_read, after_write=after_write)
        seen = []
        with files.observed(root, hooks):
            gc.collect()
            tracemalloc.start()
            try:
                sd_mecha.merge(recipe, output=out_path if case["out"] == "file" else Counted(seen), threads=case["nw"], merge_dtype=None, merge_device=None,
                               output_dtype=None, output_device=None, total_buffer_size=case["total"] * UNIT, tqdm=lib.quiet)
                peak = tracemalloc.get_traced_memory()[1]
            finally:
                tracemalloc.stop()
        if state["evaluated"] != n:
            return f"{state['evaluated']} of {n} keys were evaluated"
        if case["out"] == "dict" and sorted(seen) != names:
            return f"stored keys: {sorted(seen)}"
        if problems:
            return problems[0]
        # memory of the buffers (torch tensors are not traced): every worker may still hold tensors of older windows
        workers = max(1, case["nw"])
        allowed = (workers + 2) * case["bound"] * UNIT + 3 * workers * case["window"] * UNIT + (1 << 19)
        data = sum(case["size"]) * UNIT * case["nf"]
        ctx.note("memory bound below data size" if allowed < data else "small data")
        if peak > allowed:
            return f"{peak} bytes of buffers were allocated at once, at most {allowed} expected (data: {data})"
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(ctx):
    from checks import c06
    c06.judge(ctx)


def main(ctx):
    ctx.recorded = []
    lib.quiet_warm()
    ctx.tlc("MergeEngine", label="retention(design)", workers=4, timeout=1500, consts=dict(
        NKeys=4, Workers="{0,1,2,3}" if not ctx.quick else "{0,1,2}", Shapes='{"single"}', Faults='{"none"}', OperandOutcomes='{"ok"}' if ctx.quick else '{"ok","miss"}', WithHist="FALSE"))
    ctx.tlc("Budget", label="budget(design)", workers=4, timeout=1500, consts=dict(
        MaxFiles=2, NKeys=3 if ctx.quick else 4, Sizes="{1,3}", Totals="{0,2,7}", MaxWorkers=2, Outputs='{"dict","file"}', Nestings='{"plain"}'))
    n = 60 if ctx.quick else 1500
    for nk, w in ((7, "{0,1,2,4}"), (16, "{1,2,3,8}")):
        lines = ctx.tlc("MergeEngine", "MergeEngineGen", label=f"behaviours({nk} keys)", simulate=n, depth=400, consts=dict(
            NKeys=nk, Workers=w, Shapes='{"strict","fallback","single"}', Faults='{"none"}', OperandOutcomes='{"ok"}' if nk > 8 else '{"ok","miss"}', WithHist="TRUE")).lines
        for g in lines:
            case = {k: g[k] for k in ("shape", "nw", "opnd", "fault", "script", "fails", "stored")}
            case.update(ok=g["stored"], leaf_seed=ctx.rng.randrange(1 << 30), cast=ctx.rng.random() < 0.3, out="dict" if ctx.rng.random() < 0.8 else "file")
            case["buf"] = ctx.rng.choice([0, 64, 2**20])
            ctx.check(retention, case)
            ctx.note(f"retention, {case['nw']} workers")
    judge(ctx)
    for nk, sizes, totals in ((40, "{0,1,2,16}", "{0,8,40,4000}"), (64, "{1,2}", "{0,16,96,160}")):
        lines = ctx.tlc("Budget", "BudgetGen", label=f"budget scenarios {sizes}", simulate=n, depth=nk + 5, consts=dict(
            MaxFiles=4, NKeys=nk, Sizes=sizes, Totals=totals, MaxWorkers=4, Outputs='{"dict","file"}', Nestings='{"plain","repeat","dict"}')).lines
        for g in ctx.rng.sample(lines, min(len(lines), n)):
            case = {**g, "data_seed": ctx.rng.randrange(1 << 30), "sorted": ctx.rng.random() < 0.5}
            ctx.check(budget, case)
            ctx.note(f"budget, {case['nest']}")


def replay(ctx, case):
    ctx.recorded = []
    ctx.check(budget if "bound" in case else retention, case)
    judge(ctx)
