"""C29: Paths resolves the inputs and the output of merges over trees of files and links; the same trees are made in a scratch folder,
merged by the real code, and the files read, the files open while methods run, and every file of the tree afterwards are compared."""
import contextlib, functools, os, pathlib, shutil, tempfile
import torch
from vh import lib, st
import sd_mecha
from sd_mecha import Parameter, Return, merge_method, model, merge, convert
from sd_mecha.extensions import model_configs, merge_methods
from safetensors.torch import load_file

CONFIG = lib.config("vt-paths", {"k": ([1], "float64")})
N = 12
MARKED = [lib.config(f"vt-path.{v}", {"k": ([1], "float64"), f"only{v}": ([1], "float64")}) for v in range(N)]
TARGET = lib.config("vt-path.target", {"k": ([1], "float64")})
state = {"root": None, "open": [], "odd": ""}
ODD = ["", "", ".", "..", "~", "a b", "é", "-", "x.safetensors.", "%20", "$HOME", "#"]      # what names may begin with


@merge_method(register=False)
def digits(*models: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    state["open"].append(open_files())
    return functools.reduce(lambda a, b: a * N + b, models, torch.zeros(1, dtype=torch.float64))


def open_files():
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(str(state["root"])):
            res.append(p[len(str(state["root"])) + 1:])
    return sorted(res)


def converter(source, target, identifier):
    def run(a, **kwargs):
        return a["k"]
    run.__annotations__ = {"a": Parameter(sd_mecha.StateDict[torch.Tensor], model_config=source), "return": Return(torch.Tensor, model_config=target)}
    merge_method(run, identifier=identifier, is_conversion=True)


def setup():
    for c in (*MARKED, TARGET):
        model_configs.register(c)
    for v in range(N):
        converter(MARKED[v], TARGET, f"vt_path_{v}")
        converter(TARGET, MARKED[v], f"vt_back_{v}")


def file_name(name):
    odd = state["odd"]
    return f"sub/{odd}{name[4:]}.safetensors" if name.startswith("sub ") else f"{odd}{name[4:]}.bin" if name.startswith("bad ") else f"{odd}{name}.safetensors"


def folder(place):
    return f"{place}/in"


def spelled(root, place, name, spelling):
    p = file_name(name)
    if spelling in ("up", "up str"):
        p = "sub/../" + p
    elif spelling == "dot str":
        p = "./" + p
    elif spelling == "slashes str":
        p = ".//sub/..//" + p
    elif spelling in ("out", "out str"):
        p = "../in/" + p
    if place != "rel":
        p = f"{root}/{folder(place)}/{p}" if spelling != "up" else f"{root}/{folder(place)}/../in/{p}"
    return p if spelling.endswith("str") else pathlib.Path(p)


def tree(root):
    return {str(p.relative_to(root)): (("link", os.readlink(p)) if p.is_symlink() else ("file", p.read_bytes())) for p in sorted(root.rglob("*")) if p.is_symlink() or p.is_file()}


def build(root, case):
    for place in ("d1", "d2", "d3", "cwd"):
        (root / folder(place) / "sub").mkdir(parents=True)
    values = {}
    entries = sorted(case["fs"], key=lambda e: (e["entry"]["kind"], e["place"], e["name"]))
    for v, e in enumerate(entries):
        p = root / folder(e["place"]) / file_name(e["name"])
        if e["entry"]["kind"] == "file":
            values[e["place"], e["name"]] = v
            st.write(p, {"k": torch.tensor([v], dtype=torch.float64), f"only{v}": torch.zeros(1, dtype=torch.float64)})
        else:
            t = root / folder(e["entry"]["place"]) / file_name(e["entry"]["name"])
            p.symlink_to(t if case["salt"] % 2 else os.path.relpath(t, p.parent))
    return values


def given_dirs(root, case):
    """Directories as the callers may give them; one string or path stands for a list of one only with the defaults object."""
    dirs = [root / folder(d) for d in case["dirs"]]
    if case["salt"] % 3 == 1:
        dirs = [pathlib.Path(os.path.relpath(d, root / folder("cwd"))) for d in dirs]
    form = case["salt"] % 5
    return [list, tuple, iter, lambda d: (x for x in d), lambda d: dict.fromkeys(d).keys() if len(set(d)) == len(d) else list(d)][form](dirs)


@contextlib.contextmanager
def scratch():
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c29-")).resolve()
    before = os.getcwd()
    state["root"], state["open"] = root, []
    try:
        yield root
    finally:
        os.chdir(before)
        shutil.rmtree(root)


def execute(ctx, case):
    with scratch() as root:
        state["odd"] = ODD[case["salt"] % len(ODD)]
        values = build(root, case)
        before = tree(root)
        os.chdir(root / folder("cwd"))
        nodes = [model(spelled(root, x["place"], x["name"], x["spelling"]), config=CONFIG) for x in case["inputs"]]
        kind = case["salt"] % 4
        recipe = digits(*nodes)
        fallback = ...
        options = dict(merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["salt"] // 2 % 3, total_buffer_size=4096, tqdm=lib.quiet)
        if kind == 1 and len(nodes) > 1:
            # a fallback is an input like the others, even when nothing falls back to it
            recipe, fallback = digits(*nodes[:-1]), nodes[-1]
        elif kind == 2:
            recipe = digits({"k": nodes[0]}, *nodes[1:])
        n = len(nodes) - (kind == 1 and len(nodes) > 1)
        out = case["output"]
        if out["kind"] == "file":
            options["output"] = spelled(root, out["place"], out["name"], out["spelling"])
        dirs = given_dirs(root, case)
        try:
            if case["salt"] % 7 == 0:
                # the defaults object also takes strings, and one alone
                d = [str(x) for x in dirs]
                got = sd_mecha.Defaults(model_dirs=d[0] if len(d) == 1 else d).merge(recipe, fallback_model=fallback if fallback is not ... else None, **options)
            else:
                got = merge(recipe, fallback_model=fallback if fallback is not ... else None, model_dirs=dirs, **options)
            verdict = "ok"
        except Exception as e:
            verdict, got = "error", e
        ctx.note(verdict)
        after = tree(root)
        if verdict != case["verdict"]:
            return f"the merge ends with {verdict} ({type(got).__name__}: {str(got)[:200]}), specified: {case['verdict']}"
        left = open_files()
        if left:
            return f"files left open: {left}"
        if verdict == "error":
            return f"a failing merge changed {changed(before, after)}" if before != after else None
        want = functools.reduce(lambda a, b: a * N + b, [values[f["place"], f["name"]] for f in case["found"][:n]], 0)
        opened = sorted(f'{folder(p["place"])}/{file_name(p["name"])}' for p in {(f["place"], f["name"]): f for f in case["found"]}.values())
        target = None
        if out["kind"] == "file":
            if not case["written"] or case["written"] == {"kind": "none"}:
                return "no place specified for the output"
            target = f'{folder(case["written"]["place"])}/{file_name(case["written"]["name"])}'
            if set(changed(before, after)) != {target}:
                return f"the merge wrote {changed(before, after)}, specified: {target}"
            result = load_file(root / target)
        else:
            result = got
            if before != after:
                return f"a merge in memory changed {changed(before, after)}"
        if set(result) != {"k"} or result["k"].item() != want:
            return f"the merge of the files gives {result}, specified: {want}, from {case['found']}"
        if len(opened) != case["opens"]:
            return f"the specification opens {case['opens']} files, found {opened}"
        for seen in state["open"]:
            inputs = sorted(seen)
            if target is not None:
                if target not in inputs:
                    return f"the output {target} is not open while methods run: {inputs}"
                inputs.remove(target)
            if inputs != opened:
                return f"input files open while methods run: {inputs}, specified: {opened}"


def changed(before, after):
    return sorted(k for k in {*before, *after} if before.get(k) != after.get(k))


def execute_convert(ctx, case):
    """The config of the file found decides the conversion."""
    with scratch() as root:
        state["odd"] = ODD[case["salt"] % len(ODD)]
        values = build(root, case)
        before = tree(root)
        os.chdir(root / folder("cwd"))
        for x, f in zip(case["inputs"], [*case["found"], *[None] * len(case["inputs"])]):
            node = model(spelled(root, x["place"], x["name"], x["spelling"]))
            as_target = case["salt"] % 3 == 2
            try:
                if as_target:
                    # the directories also serve the recipe that only gives the config
                    recipe = convert(model({"k": torch.zeros(1)}, config=TARGET), digits(node) if case["salt"] % 2 else node, given_dirs(root, case))
                elif case["salt"] % 7 == 0:
                    d = [str(x) for x in given_dirs(root, case)]
                    recipe = sd_mecha.Defaults(model_dirs=d[0] if len(d) == 1 else tuple(d)).convert(node, "vt-path.target")
                else:
                    recipe = convert(node, TARGET if case["salt"] % 2 else "vt-path.target", given_dirs(root, case))
                got = recipe.merge_method.identifier
            except Exception as e:
                got = f"{type(e).__name__}: {e}"[:300]
            if f is None:
                if got.startswith("vt_"):
                    return f"{x} is read although it is missing or not supported"
                break
            v = values[f["place"], f["name"]]
            if got != (f"vt_back_{v}" if as_target else f"vt_path_{v}"):
                return f"conversion {'towards' if as_target else 'of'} {x}: {got}, specified: the file {v} at {f['place']}"
            ctx.note("conversions")
        if open_files():
            return f"files left open: {open_files()}"
        if tree(root) != before:
            return f"a conversion changed {changed(before, tree(root))}"


SPELL = '{"plain","plain str","dot str","up","up str","slashes str","out","out str"}'


def main(ctx):
    lib.quiet_warm()
    setup()
    q = ctx.quick
    small = dict(Places='{"d1","d2","cwd"}', Missing='{"gone"}', Names='{"a"}', Bad="{}", Spellings='{"plain"}', MaxDirs=2, MaxInputs=1, MaxFiles=2, Hit="FALSE")
    ctx.tlc("Paths", label="design", workers=8, consts=dict(small, MaxInputs=2, Bad='{"bad c"}') if not q else small)
    alls = ctx.tlc("Paths", "PathsGen", label="all small trees", workers=1, consts=dict(small, Places='{"d1","cwd"}', MaxFiles=2, Missing="{}", MaxDirs=1)).lines
    big = dict(Places='{"d1","d2","d3","cwd"}', Missing='{"gone"}', Names='{"a","b","sub a"}', Bad='{"bad c"}', Spellings=SPELL, MaxDirs=3, MaxInputs=4, MaxFiles=9, Hit="FALSE")
    few = dict(big, Names='{"a"}', Bad="{}", MaxFiles=5)
    cases = [*alls]
    for consts, n in ((big, 300 if q else 5000), (few, 400 if q else 5000), (dict(big, Hit="TRUE"), 1500 if q else 12000), (dict(few, MaxInputs=3, Hit="TRUE"), 1000 if q else 9000)):
        cases += ctx.tlc("Paths", "PathsGen", label="simulated", consts=consts, simulate=n, depth=60, workers=1).lines
    for c in cases:
        c["salt"] = ctx.rng.randrange(10 ** 6)
        ctx.check(execute, c, sample=("verdict", "kind"))
    for c in ctx.rng.sample(cases, 240 if q else 1500):
        ctx.check(execute_convert, dict(c, kind="convert"))


def replay(ctx, case):
    lib.quiet_warm()
    setup()
    ctx.check(execute_convert if case.get("kind") == "convert" else execute, case)
