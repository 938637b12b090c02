"""C06: MergeEngine is model checked; its behaviours are replayed into merge() with gated methods and outputs, and the
recorded events are judged by MergeEngineJudge."""
import shutil
from checks import engine
from vh import lib


def execute(ctx, case):
    root = engine.scratch()
    try:
        run = engine.Run(case, root)
        bad = run()
        if case["out"] == "file":
            case_trace = [e for e in run.rec.events if e["e"] != "result"]
        else:
            case_trace = run.rec.events
        ctx.recorded.append((case, engine.trace(case, case_trace)))
        return bad
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(ctx):
    if not ctx.recorded:
        return
    lines = ctx.tlc("MergeEngineJudge", label="judge", traces=[t for _, t in ctx.recorded]).lines
    assert len(lines) == len(ctx.recorded), (len(lines), len(ctx.recorded))
    for l in lines:
        if l["verdict"] != "ok":
            case, t = ctx.recorded[l["i"] - 1]
            ctx.violation(f"{l['verdict']}: {[(e['e'], e['k']) for e in t['events']]}", case)
    ctx.recorded = []


def variants(ctx, g):
    case = {k: g[k] for k in ("shape", "nw", "opnd", "fault", "script", "fails", "stored")}
    case["ok"] = sorted(set(g["stored"]) | {k + 1 for k, f in enumerate(g["fault"]) if f == "store"})
    case["leaf_seed"] = ctx.rng.randrange(1 << 30)
    case["error"] = ctx.rng.choice(["runtime", "runtime", "key", "base", "odd"])
    case["cast"] = ctx.rng.random() < 0.3
    case["out"] = "dict" if "store" in g["fault"] or ctx.rng.random() < 0.75 else "file"
    yield case


def main(ctx):
    ctx.recorded = []
    lib.quiet_warm()
    ops = '{"ok","miss","err"}'
    ctx.tlc("MergeEngine", label="design", workers=4, timeout=1500, consts=dict(
        NKeys=2 if ctx.quick else 3, Workers="{0,1,2}", Shapes='{"strict","fallback","lazy"}',
        Faults='{"none","method","store","progress"}' if ctx.quick else '{"none","store"}', OperandOutcomes=ops, WithHist="FALSE"))
    ctx.tlc("MergeEngine", label="design(3 keys, single operand)", workers=4, timeout=1500, consts=dict(
        NKeys=3 if ctx.quick else 4, Workers="{0,2}" if ctx.quick else "{0,1,2,3}", Shapes='{"single"}', Faults='{"none","store"}', OperandOutcomes=ops, WithHist="FALSE"))
    shapes = '{"strict","deep","kw","dict","fallback","lazy","single"}'
    n = 700 if ctx.quick else 4000
    runs = [
        dict(NKeys=4, Workers="{0,1,2,3}", Shapes=shapes, Faults='{"none","method","store"}', OperandOutcomes=ops),
        dict(NKeys=6, Workers="{2,3,4}", Shapes=shapes, Faults='{"none"}', OperandOutcomes='{"ok","miss"}'),
        dict(NKeys=8, Workers="{1,2,4}", Shapes='{"single","strict"}', Faults='{"none"}', OperandOutcomes='{"ok","err"}'),
    ]
    for r, share in zip(runs, (2, 1, 1)):
        lines = ctx.tlc("MergeEngine", "MergeEngineGen", label=f"behaviours({r['NKeys']} keys)", simulate=n * share // 4, consts={**r, "WithHist": "TRUE"}).lines
        for g in lines:
            for case in variants(ctx, g):
                ctx.check(execute, case)
                ctx.note(f"{case['shape']}/{'fails' if case['fails'] else 'ok'}")
                ctx.note(f"{case['nw']} workers, {case['out']}")
        judge(ctx)


def replay(ctx, case):
    ctx.recorded = []
    ctx.check(execute, case)
    judge(ctx)
