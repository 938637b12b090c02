"""C04: RecipeDag gives the value of every key of generated recipe graphs; each graph is merged by the real code in several
execution modes (threads, buffers, in-memory / file inputs and outputs, shared or repeated nodes, cast or not)."""
import pathlib, shutil, tempfile
from vh import lib, program

ALLOPS = '{"wsum","add","sub","avg","fb","pick","omit","next","total","strict","kw","const","dict"}'


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vprog-"))
    try:
        for m in case["modes"]:
            res, b = program.run(case, m, root)
            bad = program.compare(res, case, b)
            if bad:
                return f"{bad} [mode {m}]"
            ctx.note(f"{m['leaves']} -> {m['out']}")
            ctx.note(f"threads {m['threads']}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def design(ctx, small=False):
    base = dict(NI=2, NDelta=0, NK=2, NAlias=0, Vals="{1}", Alphas="{2,3,4}", MissOneIn=1, Chain="TRUE")
    ctx.tlc("RecipeDag", label="design(1 node, all methods)", workers=4, consts={**base, "NOps": 1, "Ops": ALLOPS})
    if not small:
        ctx.tlc("RecipeDag", label="design(2 nodes)", workers=4, timeout=2000, consts={**base, "NOps": 2, "Ops": '{"wsum","add","sub","fb","pick","next"}' if ctx.quick else ALLOPS})


def programs(ctx, n, label, **consts):
    c = dict(NI=4, NDelta=1, NK=4, NAlias=0, NOps=5, Ops=ALLOPS, Vals="{1,2,3}", Alphas="{1,2,3,4}", MissOneIn=0, Chain="TRUE")
    c.update(consts)
    return ctx.tlc("RecipeDag", "RecipeDagGen", label=label, simulate=n, depth=600, consts=c).lines


def main(ctx):
    lib.quiet_warm()
    design(ctx)
    n = 130 if ctx.quick else 2500
    k = 3 if ctx.quick else 5
    for lines in (programs(ctx, n, "programs(5 nodes)"), programs(ctx, n, "programs(5 nodes, missing keys)", MissOneIn=3),
                  programs(ctx, n, "programs(2 nodes)", NOps=2, NK=3), programs(ctx, n // 2, "programs(8 nodes)", NOps=8, NK=6, NI=3, Chain="FALSE")):
        for g in lines:
            case = {**g, "modes": [program.mode(ctx.rng) for _ in range(k)]}
            ctx.check(execute, case)
            ctx.note(f"root {case['prog'][-1]['op']}")


def replay(ctx, case):
    ctx.check(execute, case)
