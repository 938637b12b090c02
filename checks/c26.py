"""C26: Defaults resolves the options of calls made through a defaults object; calls made through the real object have to end as the plain
call with the resolved options does, and to show the effects of the resolved options."""
import contextlib, logging, os, pathlib, shutil, tempfile, threading
import torch
from vh import lib
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method, model, merge, convert
from sd_mecha.extensions import model_configs, model_formats
from sd_mecha.streaming import TensorMetadata

OPTIONS = ["model_dirs", "merge_device", "merge_dtype", "output_device", "output_dtype", "threads", "total_buffer_size", "strict_weight_space", "check_finite", "omit_extra_keys", "omit_ema",
           "check_mandatory_keys", "tqdm"]
SPEC = "{" + ",".join(f'"{o}"' for o in OPTIONS) + "}"
DTYPES = {"none": None, "float32": torch.float32, "float64": torch.float64, "bfloat16": torch.bfloat16, "float16": torch.float16}
CONFIG = lib.config("vt-defaults", {"k0": ([2], "float64"), "k1": ([2], "float64"), "k2": ([2], "float64", {"optional": True}), "e0": ([2], "float64", {"optional": True})},
                    components={"main": ["k0", "k1", "k2"], "ema": ["e0"]})
SOURCES = {d: lib.config(f"vt-def.{d}", {f"{d}{j}": ([1], "float64") for j in range(3)}) for d in ("d1", "d2", "cwd")}
TARGET = lib.config("vt-def.target", {"k": ([1], "float64")})
FILES = {}   # absolute path -> tensors
LOG = {"buffers": [], "bars": [], "seen": [], "warnings": [], "meet": None, "met": False}


class Memory(dict):
    def metadata(self):
        return [(k, TensorMetadata(v.shape, v.dtype)) for k, v in self.items()]

    def close(self):
        pass


class Format:
    def matches(self, path):
        return path.suffix == ".vtd"

    def get_read_dict(self, path, buffer_size):
        LOG["buffers"].append((path.name, buffer_size))
        path.read_bytes()
        return Memory(FILES[str(path.resolve())])

    def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
        raise NotImplementedError


@merge_method(register=False)
def observe(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
    LOG["seen"].append((str(a.dtype), a.device.type, threading.current_thread() is threading.main_thread()))
    if LOG["meet"] is not None and not LOG["met"] and not LOG["meet"].broken:
        try:
            LOG["meet"].wait(LOG["patience"])
            LOG["met"] = True
            LOG["meet"].abort()
        except threading.BrokenBarrierError:
            pass
    return a


def bar(name):
    class Bar(lib.quiet):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            LOG["bars"].append(name)
    return Bar


BARS = {n: bar(n) for n in ("first", "second")}


class Warnings(logging.Handler):
    def emit(self, record):
        LOG["warnings"].append(record.getMessage().split(":")[0])


def setup():
    model_formats.register_model_format(Format, identifier="vt_defaults")
    for d, c in SOURCES.items():
        model_configs.register(c)

        def run(a, **kwargs):
            return next(iter(a.values()))
        run.__annotations__ = {"a": Parameter(StateDict[torch.Tensor], model_config=c), "return": Return(torch.Tensor, model_config=TARGET)}
        merge_method(run, identifier=f"vt_def_{d}", is_conversion=True)
    model_configs.register(TARGET)
    root = logging.getLogger()
    root.handlers[:] = [Warnings(logging.WARNING)]
    root.setLevel(logging.WARNING)


@contextlib.contextmanager
def world():
    before = os.getcwd()
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c26-")).resolve()
    try:
        FILES.clear()
        for v, d in [(v + w, f"{side}/{d}") for w, side in ((0, "a"), (100, "b")) for v, d in enumerate(("cwd", "d1", "d2"), 1)]:
            for j, name in enumerate(("m", "missing", "inf", "f", "c")):
                p = root / d / f"{name}.vtd"
                p.parent.mkdir(exist_ok=True, parents=True)
                p.write_bytes(b"")
                t = torch.tensor([v + 10.0 * j, 0.1], dtype=torch.float32)
                if name == "c":
                    FILES[str(p)] = {f"{d[2:]}{i}": t[:1] for i in range(3)}
                elif name == "f":
                    FILES[str(p)] = {"k0": t, "k1": t, "k2": t, "e0": t, "y": t}
                else:
                    FILES[str(p)] = {"k0": t, "k1": t, "e0": t, "x": t}
                if name == "missing":
                    del FILES[str(p)]["k1"]
                if name == "inf":
                    FILES[str(p)]["k0"] = torch.tensor([v, float("inf")], dtype=torch.float32)
        os.chdir(root / "a" / "cwd")
        yield root
    finally:
        os.chdir(before)
        shutil.rmtree(root)


def value(root, option, v, form):
    if option.endswith("_dtype"):
        return DTYPES[v]
    if option.endswith("_device"):
        return None if v == "none" else torch.device(v) if form % 2 else v
    if option == "threads":
        return {"none": None, "negative": -1}.get(v, v) if not v.isdigit() else int(v)
    if option == "total_buffer_size":
        return int(v)
    if option == "tqdm":
        return BARS[v]
    if option == "fallback_model":
        return None if v == "none" else model("f.vtd", config=CONFIG)
    if option != "model_dirs":
        return v == "true"
    dirs = [(pathlib.Path("..") if relative(form, j) else root / "a") / d for j, d in enumerate(DIRS[v])]
    if form % 4 == 1:
        dirs = [str(d) for d in dirs]
    elif form % 4 == 2:
        dirs = [d if j % 2 else str(d) for j, d in enumerate(dirs)]
    if len(dirs) == 1 and form % 7 < 3:
        return dirs[0]
    return [list, tuple, iter, lambda x: (y for y in x), list][form // 20 % 5](dirs)


DIRS = {"empty": [], "one": ["d1"], "two": ["d2"], "two one": ["d2", "d1"], "gone two": ["gone", "d2"]}


def relative(form, j):
    return form % 5 == 3 or form % 5 == 2 and j % 2 == 1


def found_in(v, form, side):
    """The directory of the file, and the side: relative directories are those of the working directory at the time of the call."""
    for j, d in enumerate(DIRS[v]):
        if d != "gone":
            return d, side if relative(form, j) else "a"
    return "cwd", side


def options(root, given, form):
    return {o: value(root, o, v, form) for o, v in given.items() if v != "-"}


def outcome(call, scenario, patience):
    for k in ("buffers", "bars", "seen", "warnings"):
        LOG[k] = []
    LOG["meet"], LOG["met"], LOG["patience"] = (threading.Barrier(2), False, patience) if patience else (None, False, 0)
    node = model({"plain": "m.vtd", "delta": "m.vtd", "missing": "missing.vtd", "inf": "inf.vtd"}[scenario], config=CONFIG, merge_space="delta" if scenario == "delta" else "weight")
    try:
        res = call(observe(node))
        result = {k: (str(v.dtype), v.device.type, None if v.device.type == "meta" else v.double().tolist()) for k, v in res.items()}
        verdict = "ok"
    except Exception as e:
        result, verdict = {}, type(e).__name__
    return dict(verdict=verdict, result=result, seen=sorted(set(LOG["seen"])) if verdict == "ok" else None, buffers=sorted(set(LOG["buffers"])), warnings=sorted(set(LOG["warnings"])) if verdict == "ok" else None,
                bars=LOG["bars"], met=LOG["met"] if verdict == "ok" else None)


def effects(resolved, scenario, got, place):
    """What the resolved options say about the outcome."""
    r = resolved
    meta = "meta" in (r["merge_device"], r["output_device"])
    errors = []
    if r["threads"] == "negative":
        errors.append("threads is negative")
    if scenario == "delta" and r["strict_weight_space"] == "true":
        errors.append("the recipe is in delta space")
    if scenario == "delta" and r["fallback_model"] == "model":
        errors.append("the fallback is in weight space")
    if scenario == "missing" and r["check_mandatory_keys"] == "true":
        errors.append("a mandatory key is missing")
    if errors:
        return None if got["verdict"] != "ok" else f"no error although {errors[0]}"
    if meta:
        return None
    if got["verdict"] != "ok":
        return f"unexpected {got['verdict']}"
    v = {"cwd": 1, "d1": 2, "d2": 3}[place[0]] + 100 * (place[1] == "b")
    fallback = r["fallback_model"] == "model"
    base = {"plain": v, "delta": v, "missing": v + 10, "inf": v + 20}[scenario]
    want = {"k0": base, "k1": base, "e0": base, "x": base}
    if scenario == "inf":
        want["k0"] = v
    if scenario == "missing":
        del want["k1"]
    if fallback:
        want = {**{k: v + 30 for k in ("k0", "k1", "k2", "e0", "y")}, **want}
    if r["omit_extra_keys"] == "true":
        want = {k: x for k, x in want.items() if k not in ("x", "y")}
    if r["omit_ema"] == "true":
        want.pop("e0", None)
    found = {k: x[2][0] for k, x in got["result"].items()}
    # what is stored for extra keys is not bound to the output dtype
    if found != want:
        return f"the result has {found}, the options say {want}"
    dtype = r["output_dtype"] if r["output_dtype"] != "none" else r["merge_dtype"] if r["merge_dtype"] != "none" else "float32"
    for k, (t, _, _) in got["result"].items():
        if k not in ("x", "y") and t != f"torch.{dtype}":
            return f"{k} has dtype {t}, the options say {dtype}"
    seen = r["merge_dtype"] if r["merge_dtype"] != "none" else "float32"
    main = r["threads"] == "0"
    if got["seen"] != [(f"torch.{seen}", "cpu", main)]:
        return f"methods ran with {got['seen']}, the options say {seen}, {'the calling thread' if main else 'worker threads'}"
    n = 1 + fallback
    names = {"plain": "m", "delta": "m", "missing": "missing", "inf": "inf"}[scenario]
    buffers = sorted((f"{x}.vtd", int(r["total_buffer_size"]) // n) for x in [names] + ["f"] * fallback)
    if got["buffers"] != buffers:
        return f"files were opened with buffers {got['buffers']}, the options say {buffers}"
    if (any("non finite" in w for w in got["warnings"])) != (scenario == "inf" and r["check_finite"] == "true"):
        return f"warnings {got['warnings']} with check_finite {r['check_finite']}"
    if r["tqdm"] != "library" and got["bars"] != [r["tqdm"]]:
        return f"progress bars {got['bars']}, the options say {r['tqdm']}"


def execute(ctx, case):
    form = case["salt"]
    with world() as root:
        given = options(root, case["object"], form)
        passed = list(given["model_dirs"]) if isinstance(given.get("model_dirs"), (list, tuple)) else None
        if form % 11 == 0:
            given = {"model_dirs": given.pop("model_dirs", ...), **given}
            defaults = sd_mecha.Defaults(given.pop("model_dirs"), **given)   # the first parameter may come by position
        else:
            defaults = sd_mecha.Defaults(**given)
        for n, use in enumerate(case["uses"]):
            r = dict(use["resolved"])
            side = "ab"[(form >> n) % 2]
            os.chdir(root / side / "cwd")
            if use["resolved"]["tqdm"] == "library":
                # keep the library's bar out of the output
                use = {**use, "call": {**use["call"], "tqdm": "first"}}
                r["tqdm"] = "first"
            alone, many = r["threads"] in ("0", "1"), r["threads"] in ("none", "3")
            patience = 20 if many and (form + n) % 4 == 0 else 0.15 if r["threads"] == "1" and (form + n) % 4 == 0 else 0
            if many and patience and (use["scenario"] == "missing" or "meta" in (r["merge_device"], r["output_device"])):
                patience = 0
            call = options(root, use["call"], form + n)
            output = {}
            if (form + n) % 3 == 0:
                call["output"] = output
            got = outcome(lambda recipe: defaults.merge(recipe, **call), use["scenario"], patience)
            if "output" in call and got["verdict"] == "ok" and {k: (str(v.dtype), v.device.type, None if v.device.type == "meta" else v.double().tolist()) for k, v in output.items()} != got["result"]:
                return f"use {n + 1}: the result is not in the output given"
            ctx.note("ok" if got["verdict"] == "ok" else "error")
            place = found_in(r["model_dirs"], form + n if use["call"]["model_dirs"] != "-" else form, side)
            bad = effects(r, use["scenario"], got, place)
            if bad:
                return f"use {n + 1} of a defaults object: {bad} [object: {short(case['object'])}; call: {short(use['call'])}]"
            if many and patience and got["verdict"] == "ok" and not got["met"] and "k1" in got["result"]:
                return f"use {n + 1}: two keys were never merged at the same time with threads {r['threads']}"
            if r["threads"] == "1" and got["met"]:
                return f"use {n + 1}: two keys were merged at the same time with one thread"
            # the plain call: options equal to the library's are passed or left out
            plain = options(root, {o: v for o, v in r.items() if o != "model_dirs" and not (v == {**LIBRARY, "omit_ema": r["omit_extra_keys"]}[o] and (form + len(o)) % 2)}, 1)
            if r["model_dirs"] != "empty" or form % 2:
                whose = form + n if use["call"]["model_dirs"] != "-" else form
                plain["model_dirs"] = [root / (side if relative(whose, j) else "a") / d for j, d in enumerate(DIRS[r["model_dirs"]])]
            other = outcome(lambda recipe: merge(recipe, **plain), use["scenario"], 0)
            for k in other:
                if k != "met" and got[k] != other[k]:
                    return f"use {n + 1} of a defaults object: {k} {got[k]}, with the plain call: {other[k]} [object: {short(case['object'])}; call: {short(use['call'])}]"
        if passed is not None and list(given.get("model_dirs", passed)) != passed:
            return f"the list of directories given was changed: {given['model_dirs']}"
        if form % 4 == 0:
            for n, use in enumerate(case["uses"]):
                dirs = {k: v for k, v in options(root, use["call"], form + n).items() if k == "model_dirs"}
                d = found_in(use["resolved"]["model_dirs"], 0, "a")[0]
                res = defaults.convert(model("c.vtd"), TARGET if form % 8 else "vt-def.target", **dirs)
                ctx.note("conversions")
                if res.merge_method.identifier != f"vt_def_{d}":
                    return f"a conversion through a defaults object uses {res.merge_method.identifier}, the directories {use['resolved']['model_dirs']} say {d}"


LIBRARY = {"merge_dtype": "float64", "output_dtype": "float16", "merge_device": "cpu", "output_device": "cpu", "threads": "none", "total_buffer_size": "268435456", "model_dirs": "empty", "tqdm": "library",
           "fallback_model": "none", "strict_weight_space": "true", "check_finite": "true", "omit_extra_keys": "true", "check_mandatory_keys": "false"}


def short(given):
    return {k: v for k, v in given.items() if v != "-"}


SCENARIOS = '{"plain","delta","missing","inf"}'


def main(ctx):
    lib.quiet_warm()
    setup()
    q = ctx.quick
    small = dict(Options='{"omit_extra_keys","omit_ema"}', Callonly='{"fallback_model"}', MaxUses=2, Scenarios='{"plain"}', Least=0, Leave="{}")
    ctx.tlc("Defaults", label="design", workers=4, consts=small)
    full = dict(Options=SPEC, Callonly='{"fallback_model"}', MaxUses=3, Scenarios=SCENARIOS)
    cases = []
    for least, leave, n in ((13, "{}", 250), (6, '{"meta","negative"}', 400), (2, '{"meta","negative"}', 600)):
        cases += ctx.tlc("Defaults", "DefaultsGen", label="simulated", consts=dict(full, Least=least, Leave=leave), simulate=n if q else 12 * n, depth=140, workers=1).lines
    for c in cases:
        c["salt"] = ctx.rng.randrange(10 ** 6)
        ctx.check(execute, c)


def replay(ctx, case):
    lib.quiet_warm()
    setup()
    ctx.check(execute, case)
