"""C05: which keys come out. RecipeDag enumerates small programs exhaustively with every pattern of missing keys, and samples
larger ones with many missing keys; the key set (and values) of the real merge are compared."""
from checks import c04, policy
from vh import lib, program


def execute(ctx, case):
    return policy.execute(ctx, case) if "opts" in case else c04.execute(ctx, case)


def main(ctx):
    lib.quiet_warm()
    c04.design(ctx, small=True)
    base = dict(NI=2, NDelta=0, NK=2, NAlias=0, Vals="{1}", Alphas="{2,3,4}", MissOneIn=1, Chain="TRUE")
    exhaustive = ctx.tlc("RecipeDag", "RecipeDagGen", label="all programs of 1 node", consts={**base, "NOps": 1, "Ops": c04.ALLOPS}).lines
    if not ctx.quick:
        exhaustive += ctx.tlc("RecipeDag", "RecipeDagGen", label="all programs of 2 nodes", consts={**base, "NOps": 2, "Ops": '{"fb","pick","omit","sub","next"}'}, timeout=2500).lines
    for i, g in enumerate(exhaustive):
        m = program.mode(ctx.rng, threads=ctx.rng.choice([0, 0, 0, 2]), **({} if i % 10 == 0 else {"leaves": "memory", "out": "dict"}))
        ctx.check(execute, {**g, "modes": [m]})
    ctx.note("exhaustive programs", len(exhaustive))
    n = 260 if ctx.quick else 4000
    for lines in (c04.programs(ctx, n, "component and fallback programs", Ops='{"fb","pick","omit","sub","strict","next","dict"}', MissOneIn=1, NOps=4),
                  c04.programs(ctx, n, "hyperparameters with holes", Ops='{"wsum","add","avg","fb","kw","dict"}', MissOneIn=2, NOps=3, NDelta=2),
                  c04.programs(ctx, n // 2, "long programs", Ops=c04.ALLOPS, MissOneIn=3, NOps=9, NK=5, NI=3)):
        for g in lines:
            ctx.check(execute, {**g, "modes": [program.mode(ctx.rng) for _ in range(1 if ctx.quick else 2)]})
            ctx.note(f"{sum(1 for e in g['expect'] if e)} of {len(g['expect'])} keys present")
    for g in policy.scenarios(ctx, "keys of several components", 2 * n, NI=2, NK=4, NX=1, NAlias=0, NOps=2, Cfs='{"A"}', Spaces='{"w"}',
                              Ops='{"fb","pick","omit","pickema","omitema","wsum"}', Entries='{"there","here","gone"}'):
        ctx.check(execute, g)


def replay(ctx, case):
    ctx.check(execute, case)
