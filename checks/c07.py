"""C07: Lifecycle runs histories of operations on one recipe, each with a fault at one step; the same operations are made with the real code.
After each of them no file may be open, no thread left, the recipe as it was; the last operation has to give the right result."""
import contextlib, os, pathlib, shutil, tempfile, threading
import torch
from vh import lib, st
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method, model, merge, convert, literal, subtract
from sd_mecha.extensions import model_configs, model_formats
from sd_mecha.merging import open_input_dicts
from sd_mecha.recipe_nodes import ModelRecipeNode
from sd_mecha.streaming import TensorMetadata
from safetensors.torch import load_file

KEYS = ["k0", "k1", "k2", "k3", "k4", "k5"]
A = lib.config("vt-life.a", {k: ([1], "float64", {"optional": k != "k1"}) for k in [*KEYS, "spare"]})
B = lib.config("vt-life.b", {k: ([1], "float64") for k in ["b0", "b1", "b2"]})
T = lib.config("vt-life.t", {"k0": ([1], "float64")})
Z = lib.config("vt-life.z", {"z0": ([1], "float64")})
state = {"root": None, "fault": None, "keys": [], "seen": set(), "handles": 0, "ambiguous": False, "broken": False}


class Interrupted(BaseException):
    pass


@merge_method(register=False)
def start(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
    running(kwargs["key"])
    return a * 10


@merge_method(register=False)
def pair(a: Parameter(torch.Tensor), b: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
    running(kwargs["key"])
    return a * 10 + b


def running(key):
    fault = state["fault"]
    state["seen"].add((tuple(sorted(set(open_files()))), state["handles"]))
    if fault["kind"] in ("method", "interrupt") and key == state["keys"][fault["at"] - 1]:
        raise (ZeroDivisionError if fault["kind"] == "method" else KeyboardInterrupt)(key)


@merge_method(register=False)
def once(a: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return a * 1


class Handle(dict):
    def __init__(self, tensors):
        super().__init__(tensors)
        state["handles"] += 1
        self.open = True

    def metadata(self):
        return [(k, TensorMetadata(v.shape, v.dtype)) for k, v in self.items()]

    def close(self):
        if self.open:
            state["handles"] -= 1
        self.open = False

    def __getitem__(self, key):
        if not self.open:
            raise ValueError("closed")
        return super().__getitem__(key)


class Format:
    def matches(self, path):
        return path.resolve().suffix == ".vtl" or state["ambiguous"] and path.resolve() == state["ambiguous"]

    def get_read_dict(self, path, buffer_size):
        if state["broken"] and path.resolve() == state["broken"]:
            raise OSError("broken")
        return Handle(load_file(path))

    def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
        raise NotImplementedError


def open_files():
    res = []
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            p = os.readlink(f"/proc/self/fd/{fd}")
            if p.startswith(str(state["root"])) or p == "/dev/full":
                res.append(p)
    return sorted(res)


def setup():
    for c in (A, B, T, Z):
        model_configs.register(c)
    model_formats.register_model_format(Format, identifier="vt_life")

    def run(a, **kwargs):
        return a["k0"]
    run.__annotations__ = {"a": Parameter(StateDict[torch.Tensor], model_config=A), "return": Return(torch.Tensor, model_config=T)}
    merge_method(run, identifier="vt_life", is_conversion=True)


def bar_class(fault):
    class Bar(lib.quiet):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            if fault["kind"] == "bar":
                raise ZeroDivisionError("bar")

        def update(self, n=1):
            with LOCK:
                self.n += n
                at = self.n
            if fault["kind"] == "update" and at == fault["at"]:
                raise ZeroDivisionError("update")

        def __exit__(self, *a):
            if fault["kind"] == "barend":
                raise ZeroDivisionError("bar end")
    return Bar


LOCK = threading.Lock()


class FailingOutput(dict):
    def __setitem__(self, key, v):
        if state["fault"]["kind"] == "store" and key == state["keys"][state["fault"]["at"] - 1]:
            raise ZeroDivisionError("store")
        super().__setitem__(key, v)


def content(v, keys):
    return {k: torch.tensor([float(v)], dtype=torch.float64) for k in keys}


def file_of(root, f):
    return root / (f"f{f}.vtl" if f == 3 else f"f{f}.safetensors")


def spoil(root, fault, path):
    """Make the cause of a fault; returns how to remove it."""
    kind = fault["kind"]
    good = path.read_bytes()

    def restore():
        state["ambiguous"] = state["broken"] = False
        path.unlink(missing_ok=True)
        path.write_bytes(good)
    if kind == "missing":
        path.unlink()
    elif kind == "header":
        path.write_bytes(good[:8] + b"]" + good[9:])
    elif kind == "short":
        path.write_bytes(good[:12])
    elif kind == "suffix":
        other = root / "other.bin"
        other.write_bytes(good)
        path.unlink()
        path.symlink_to(other)
    elif kind == "format":
        state["ambiguous"] = state["broken"] = path
    elif kind == "infer":
        st.write(path, content(1, ["unheard", "of"]))
    elif kind == "mandatory":
        st.write(path, content(1, ["k0", "k2", "k3"]))
    elif kind == "mismatch":
        st.write(path, content(1, ["b0", "b1", "b2"]))
    return restore


def build(case, root):
    made = []
    acc = None
    config = {"infer": "infer", "explicit": A, "unknown": None}[case["mode"]]
    for x in case["nodes"]:
        if x["wrap"] == "shared":
            n = made[0]
        else:
            p = file_of(root, x["file"])
            n = model(str(p) if case["salt"] % 2 else p, config=config)
            made.append(n)
        v = n
        if x["wrap"] == "nested":
            v = once(once(n))
        elif x["wrap"] == "dict":
            # one key comes from another file
            other = model(file_of(root, 0), config=config)
            made.append(other)
            values = {k: n if k != state["keys"][0] else other for k in state["keys"]}
            v = literal(dict(reversed(values.items())) if case["salt"] % 4 < 2 else values, config=A if case["mode"] == "explicit" and case["salt"] % 3 else None)
        elif x["wrap"] == "fallback":
            v = model({"spare": torch.zeros(1)}, config=config) | n
        if acc is None:
            acc = start(v)
        elif x["wrap"] == "keyword":
            acc = pair(a=acc, b=v)
        else:
            acc = pair(acc, v)
    return acc, made, config


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c07-")).resolve()
    state.update(root=root, keys=KEYS[:case["nkeys"]], handles=0, ambiguous=False, broken=False)
    try:
        for f in (0, 1, 2, 3):
            st.write(file_of(root, f), content(f, state["keys"]))
        recipe, nodes, config = build(case, root)
        hints = [n.model_config for n in nodes]
        want = {}
        for k in state["keys"]:
            want[k] = 0.0
            for j, x in enumerate(case["nodes"]):
                v = 0 if x["wrap"] == "dict" and k == state["keys"][0] else x["file"]
                want[k] = want[k] * 10 + v if j else v * 10.0
        threads_before = set(threading.enumerate())
        fixed = {str(file_of(root, x["file"])) for x in case["nodes"] if x["file"] != 3} | {str(file_of(root, 0)) for x in case["nodes"] if x["wrap"] == "dict"}
        for n, (o, verdict) in enumerate(zip(case["ops"], case["log"])):
            fault = o["fault"]
            state["fault"], state["seen"] = fault, set()
            k = fault["kind"]
            restore = None
            if k in ("missing", "header", "short", "suffix", "format", "infer", "mandatory", "mismatch"):
                restore = spoil(root, fault, file_of(root, case["nodes"][fault["at"] - 1]["file"]))
            options = dict(threads=(case["salt"] + n) % 4, tqdm=bar_class(fault), total_buffer_size=4096, output_dtype=torch.float64, check_mandatory_keys=k == "mandatory")
            target = recipe
            if k == "space":
                target = subtract(recipe, recipe)
            if o["op"] == "file":
                out = root / "out.safetensors"
                out.unlink(missing_ok=True)
                if k == "outdir":
                    out = root / "gone" / "out.safetensors"
                elif k == "outinput":
                    out = file_of(root, case["nodes"][0]["file"])
                elif k == "full":
                    out.symlink_to("/dev/full")
                options["output"] = out
            elif o["op"] == "memory":
                options["output"] = FailingOutput()
            error = res = None
            try:
                if o["op"] in ("memory", "file"):
                    res = merge(target, **options)
                elif o["op"] == "convert":
                    res = convert(recipe, Z if k == "noway" else recipe if case["salt"] % 3 == 0 else "vt-life.t")
                else:
                    with open_input_dicts(recipe, [], 4096):
                        if recipe.model_config.identifier != A.identifier:
                            return f"operation {n + 1}: the opened recipe has the config {recipe.model_config}"
                        if set(open_files()) != fixed or len(open_files()) != len(fixed):
                            return f"operation {n + 1}: open files {open_files()}, specified: {sorted(fixed)}"
                        if k == "body":
                            raise Interrupted
            except BaseException as e:
                if isinstance(e, (SystemExit, MemoryError)):
                    raise
                # a caller may keep the exception, with all its frames
                error = e
            where = f"operation {n + 1} ({o['op']}, fault {k} at {fault['at']})"
            got = "error" if error is not None else "ok"
            ctx.note(f"{o['op']}: {got}")
            left, handles = open_files(), state["handles"]
            alive = [t.name for t in set(threading.enumerate()) - threads_before]
            if left or handles:
                return f"{where} leaves open: {left or ''} {f'{handles} inputs of another format' if handles else ''} after {type(error).__name__}"
            if alive:
                return f"{where} leaves threads {alive}"
            if got != verdict:
                return f"{where} ends with {got} ({type(error).__name__}: {str(error)[:200]}), specified: {verdict}"
            if any(x.state_dict is not None for x in nodes if isinstance(x, ModelRecipeNode)):
                return f"{where} leaves an input loaded"
            if any(x.model_config is not h for x, h in zip(nodes, hints)):
                return f"{where} changes the config of an input to {[x.model_config for x in nodes]}"
            if state["seen"] and o["op"] != "context":
                outs = {str(root / "out.safetensors")} if o["op"] == "file" and k != "full" else {"/dev/full"} if o["op"] == "file" else set()
                custom = int(any(x["file"] == 3 for x in case["nodes"]))
                for files, h in state["seen"]:
                    if set(files) != fixed | outs or h != custom:
                        return f"{where}: while methods run, {list(files)} and {h} inputs of another format are open; specified: {sorted(fixed | outs)}, {custom}"
            if error is None and o["op"] in ("memory", "file"):
                r = load_file(out) if o["op"] == "file" else res
                if {a: b.item() for a, b in r.items() if a != "spare"} != want:
                    return f"{where} gives {r}, specified: {want}"
            error = None
            if restore is not None:
                restore()
    finally:
        state["fault"] = {"kind": "none", "at": 0}
        shutil.rmtree(root)


FAULTS = ["none", "missing", "header", "short", "suffix", "format", "infer", "mandatory", "mismatch", "method", "interrupt", "store", "update", "space", "outdir", "outinput", "full", "bar", "barend", "body", "noway"]


def quoted(xs):
    return "{" + ",".join(f'"{x}"' for x in xs) + "}"


def main(ctx):
    lib.quiet_warm()
    setup()
    q = ctx.quick
    wraps = ["direct", "nested", "dict", "fallback", "keyword", "shared"]
    base = dict(Ops=quoted(["memory", "file", "convert", "context"]), Faults=quoted(FAULTS))
    ctx.tlc("Lifecycle", label="design", workers=8, consts=dict(base, MaxNodes=2, MaxOps=1 if q else 2, NFiles=2, NKeys=2, Wraps=quoted(["direct", "dict", "shared"])))
    cases = []
    one = ctx.tlc("Lifecycle", "LifecycleGen", label="every fault once", workers=1, consts=dict(base, MaxNodes=2, MaxOps=1, NFiles=2, NKeys=3, Wraps=quoted(["direct", "dict"]))).lines
    cases += [dict(c, nkeys=3) for c in (one if not q else ctx.rng.sample(one, min(350, len(one))))]
    for nodes, keys, n in ((4, 3, 200), (6, 6, 150)):
        cases += [dict(c, nkeys=keys) for c in ctx.tlc("Lifecycle", "LifecycleGen", label="simulated", consts=dict(base, MaxNodes=nodes, MaxOps=4, NFiles=3, NKeys=keys, Wraps=quoted(wraps)),
                                                       simulate=n if q else 20 * n, depth=200, workers=1).lines]
    for c in cases:
        c["salt"] = ctx.rng.randrange(10 ** 6)
        kinds = {o["fault"]["kind"] for o in c["ops"]}
        if {"infer", "mismatch"} <= kinds:
            continue
        # what a model has to be for these faults to be faults
        c["mode"] = "infer" if "infer" in kinds else "unknown" if "mismatch" in kinds else ctx.rng.choice(["infer", "explicit", "unknown"])
        ctx.check(execute, c)


def replay(ctx, case):
    lib.quiet_warm()
    setup()
    ctx.check(execute, case)
