"""C13: Infer says which configs models without a config get, and what the recipe they are wired into is then. The same configs are registered
with the real library, and the same recipe is opened and merged."""
import contextlib, itertools, pathlib, random, shutil, tempfile
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, literal, merge_method, model
from sd_mecha.extensions import model_configs
from vh import lib, st

SERIAL = itertools.count()


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c13-"))
    try:
        return run(ctx, case["case"], random.Random(case["seed"]), root, next(SERIAL))
    finally:
        shutil.rmtree(root)


def method(demands, ret, configs, rng):
    """A method whose arguments without demand all have to have a key."""
    names = [f"a{i}" for i in range(len(demands))]
    env = {"R": Return(torch.Tensor, **({"model_config": configs[ret - 1]} if ret else {}))}
    for n, d in zip(names, demands):
        given = configs[d - 1] if d else None
        env[f"P{n}"] = Parameter(StateDict[torch.Tensor] if d or rng.random() < 0.5 else torch.Tensor, **({"model_config": given if rng.random() < 0.5 else given.identifier} if d else {}))
    free = ", ".join(n for n, d in zip(names, demands) if not d)
    exec(f"def m({', '.join(f'{n}: P{n}' for n in names)}, **kwargs) -> R:\n return use(kwargs['key'], [{free}])", env | {"use": use}, env)
    return merge_method(env["m"], register=False)


def use(key, free):
    total = torch.zeros(1)
    for x in free:
        total = total + (x if isinstance(x, torch.Tensor) else x[key])
    return total


def run(ctx, c, rng, root, serial):
    def name(i):
        return f"vt{serial}.key{i}"

    def extra(i):
        return f"vt{serial}.other{i}"

    registered = []
    for i, cfg in enumerate(c["configs"]):
        aliases = {k: [a for a, kk in cfg["aliases"] if kk == k] for k in cfg["keys"]}
        keys = {name(k): ([1], "float32", {"aliases": [name(a) for a in aliases[k]], "optional": rng.random() < 0.5}) for k in rng.sample(cfg["keys"], len(cfg["keys"]))}
        split = rng.randrange(len(keys) + 1)
        ks = list(keys)
        registered.append(lib.config(f"vt-inf{serial}.{i + 1}", keys, {"a": ks[:split], "b": ks[split:]}))
    for cfg in rng.sample(registered, len(registered)):
        (model_configs.register_aux if rng.random() < 0.2 else model_configs.register)(cfg)
    ids = {cfg.identifier: i + 1 for i, cfg in enumerate(registered)} | {"structural": 0}
    told = f"{c['configs']}, {c['models']}, result {c['ret']}, outer {c['outer']}: "
    leaves, dicts = [], []
    for i, m in enumerate(c["models"]):
        ks = [name(n) for n in m["names"]] + [extra(j) for j in range(m["extra"])]
        tensors = {k: torch.tensor([float(rng.randrange(9))]) for k in rng.sample(ks, len(ks))}
        config = None if m["hint"] == 0 else model_configs.INFER if m["hint"] < 0 else registered[m["hint"] - 1]
        if config is not None and rng.random() < 0.5:
            config = config.identifier
        form = rng.randrange(3)
        if form == 0:
            st.write(root / f"{i}.safetensors", tensors)
            leaves.append(model(root / f"{i}.safetensors", config))
        elif form == 1:
            leaves.append(literal(tensors, config, "weight"))
        else:
            leaves.append(model(tensors, config))
        dicts.append(tensors)
        # the ranking itself
        if not c["obvious"][i] and tensors:
            got = [{ids[x.identifier] for x in s if x.identifier in ids} for s in sd_mecha.infer_model_configs(tensors)]
            rank = c["ranking"][i]
            want = [{j + 1 for j, r in enumerate(rank) if r == n} for n in sorted({r for r in rank if r >= 0}, reverse=True)]
            if got != want:
                return told + f"the configs of model {i + 1} are ranked {got}, not {want}"
            ctx.note("ranked")
    try:
        recipe = leaves[0]
        if c["wired"]:
            args = leaves
            recipe = method([m["demand"] for m in c["models"]], c["ret"], registered, rng)(*args)
            if c["outer"]:
                recipe = outer(c["outer"], registered)(recipe)
    except Exception as e:
        if c["composes"] and not c["mixed"]:
            return told + f"cannot be composed, {type(e).__name__}: {e}"
        ctx.note("cannot be composed")
        return None
    if not c["composes"]:
        # found out when the recipe is opened at the latest
        c = dict(c, opens=False, sure=True, outcomes=[[]] * len(leaves))
    options = dict(check_mandatory_keys=False)
    got, error = None, None
    try:
        with sd_mecha.open_input_dicts(recipe, (), **options):
            got = [ids.get(x.model_config.identifier, x.model_config.identifier) for x in leaves]
            of = recipe.model_config
            of = None if of is None else ids.get(of.identifier, of.identifier)
            keys = set(of_keys(recipe))
    except Exception as e:
        error = f"{type(e).__name__}: {e}"
    if got is not None:
        for i, (g, want) in enumerate(zip(got, c["outcomes"])):
            if want and g not in want:
                return told + f"model {i + 1} gets {g}, not {want}"
    if c["opens"]:
        if error:
            return told + f"cannot be opened, {error}"
        if of != c["of"]:
            return told + f"is of {of}, not {c['of']}"
        want = {name(k) for k in (c["keys"] if c["of"] == 0 else c["configs"][c["of"] - 1]["keys"])} | {extra(j) for j in range(c["extra"])}
        if keys != want:
            return told + f"has the keys {sorted(keys)}, not {sorted(want)}"
    if not c["sure"]:
        ctx.note("several outcomes allowed")
        return None
    if any(x.model_config is not None and m["hint"] == 0 and x.model_config.identifier != "infer" for x, m in zip(leaves, c["models"])):
        return told + "a model keeps the config it got when the recipe is closed"
    try:
        out = sd_mecha.merge(recipe, output_dtype=torch.float32, strict_weight_space=False, check_mandatory_keys=False, tqdm=lib.quiet, total_buffer_size=1 << 16, threads=rng.choice([0, 2]))
    except Exception as e:
        if c["opens"] and (c["keys"] or c["extra"]):
            return told + f"cannot be merged, {type(e).__name__}: {e}"
        ctx.note("rejected")
        return None
    if not c["opens"]:
        return told + f"is merged to {dict(out)}, although its models do not have the right configs"
    want = {name(k) for k in c["keys"]} | {extra(j) for j in range(c["extra"])}
    if set(out) != want:
        return told + f"is merged to the keys {sorted(out)}, not {sorted(want)}"
    ctx.note("ad hoc" if c["of"] == 0 else "merged")
    return None


def of_keys(recipe):
    return recipe.model_config.keys() if recipe.model_config is not None else ()


def outer(c, registered):
    env = {"P": Parameter(torch.Tensor, model_config=registered[c - 1]), "R": Return(torch.Tensor, model_config=registered[c - 1])}
    exec("def m(a: P, **kwargs) -> R:\n return a", env, env)
    return merge_method(env["m"], register=False)


BASE = dict(Count=6, MaxConfigs=3, MaxAliases=1, MaxModels=3, Extras="{0,1,9}", Hints="TRUE", Wired="TRUE")


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    ctx.tlc("Infer", label="laws", workers=8, timeout=3000, consts=dict(BASE, Count=2 if q else 3, MaxConfigs=2, MaxAliases=1, MaxModels=2, Extras="{1}" if q else "{0,10}"))
    lines = []
    n = 1 if q else 10
    for label, count, consts in (("methods", 100, {}), ("single models", 60, dict(Wired="FALSE", MaxModels=1, MaxConfigs=4, Extras="{0,3,8,9,10,18,19,20,29,30}")), ("larger configs", 60, dict(Count=10, Extras="{0,2,9,19,20,30,31}")),
                                 ("without hints", 90, dict(Hints="FALSE", MaxConfigs=2, Extras="{0,4,20}")),
                                 ("ad hoc", 60, dict(Hints="FALSE", MaxConfigs=2, Count=4, Extras="{0,39,41}"))):
        lines += ctx.tlc("Infer", "InferGen", label=label, workers=1, simulate=count * n, depth=40, timeout=2000, consts={**BASE, **consts}).lines
    for c in lines:
        ctx.check(execute, {"case": c, "seed": ctx.rng.randrange(1 << 20)})


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
