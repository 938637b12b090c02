"""C08: Session runs histories of operations on recipes that share inputs, while files and registrations change. Every history runs in a
process of its own; what each operation gives has to be what the same operation gives in a process that did nothing else before."""
import json, logging, os, pathlib, pickle, shutil, tempfile, traceback
import torch
from vh import lib, st
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method, model, merge, convert, literal, serialize
from sd_mecha.extensions import model_configs, merge_methods
from sd_mecha.merging import open_input_dicts
from checks import recipes as rc

A = lib.config("vt-sess.a", {"k0": ([2], "float32"), "k1": ([2], "float32", {"aliases": ["old1"]}), "k2": ([2], "float32", {"optional": True}), "e0": ([2], "float32", {"optional": True})},
               components={"main": ["k0", "k1", "k2"], "ema": ["e0"]})
B = lib.config("vt-sess.b", {"b0": ([2], "float32"), "b1": ([2], "float32")})
C = lib.config("vt-sess.c", {"c0": ([2], "float32"), "c1": ([2], "float32"), "c2": ([2], "float32")})
STEP_NAMES = ("merge", "save", "fail", "convert a", "convert b", "convert as 1", "serialize", "context")


@merge_method(identifier="vt_sess_counted")
def counted(a: Parameter(StateDict[torch.Tensor]), b: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
    res = b.clone()
    for k in sorted(a.keys()):
        res = res * 2 + a[k]
    return res


def converter(identifier, source, target, key):
    def run(a, **kwargs):
        return a[key]
    run.__annotations__ = {"a": Parameter(StateDict[torch.Tensor], model_config=source), "return": Return(torch.Tensor, model_config=target)}
    merge_method(run, identifier=identifier, is_conversion=True)


def setup():
    model_configs.register(A)
    model_configs.register(B)
    converter("vt_sess_ab", A, B, "k0")
    converter("vt_sess_ba", B, A, "b1")


def register(x):
    if x == "config c":
        model_configs.register(C)
    else:
        # a second way from a to b, given to conversions later than the first one, and a method under a known name
        @merge_method(identifier="vt_sess_counted")
        def counted(a: Parameter(StateDict[torch.Tensor]), b: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            return b + 1000
        converter("vt_sess_bc", B, C, "b0")


def content(f, v):
    t = lambda j: torch.tensor([f + 10.0 * v + 100 * j, 0.25 + f], dtype=torch.float32)
    if v in (1, 2):
        return {"k0": t(0), "k1" if f != 2 else "old1": t(1), "k2": t(2), "e0": t(3)}
    if v == 3:
        return {"b0": t(0), "b1": t(1)}
    if v == 4:
        return {"c0": t(0), "c1": t(1), "c2": t(2)}
    return {"k1": t(0), "k2": t(1), "x": t(2), "y": t(3)}


def put(f, v):
    # the second file is only found through the model directory
    p = pathlib.Path("dir" if f == 2 else ".", f"m{f}.safetensors")
    p.parent.mkdir(exist_ok=True)
    if v == 0:
        p.unlink(missing_ok=True)
    else:
        st.write(p, content(f, v))


class World:
    """The objects of a session; also what its callers keep: option dictionaries, lists, a defaults object."""
    def __init__(self):
        m = {f: model(f"m{f}.safetensors") for f in (1, 2, 3)}
        hyper = {"k0": 0.25, "k1": 0.5, "k2": 1.0, "e0": 0.0}
        own = {"k0": torch.ones(2), "k1": torch.ones(2), "z": torch.ones(2)}
        conv = convert(model("m3.safetensors", config=B), A)
        self.recipes = {
            1: sd_mecha.weighted_sum(m[1], m[2], alpha=0.5),
            2: m[1] + (m[2] - m[3]),
            3: literal({"k0": m[1], "k1": m[2]}),
            4: m[1] | m[3],
            5: model("m1.safetensors", config="infer"),
            6: sd_mecha.weighted_sum(model("m1.safetensors", config=A), model(own, config=A), alpha=literal(hyper, config=A)),
            7: m[3] + merge_methods.resolve("ties_sum_with_dropout")(m[1] - m[3], m[2] - m[3], probability=0.5, seed=3),
            8: sd_mecha.n_average(conv, conv),
            9: counted(m[2], m[2]),
        }
        self.fallback = m[3]
        self.dirs = [pathlib.Path("dir")]
        self.options = {1: {}, 2: {"omit_extra_keys": False}, 3: {"merge_dtype": None, "output_dtype": None, "threads": 0}, 4: {"check_mandatory_keys": True},
                        5: {"fallback_model": self.fallback}, 6: {"output_dtype": torch.float64, "omit_ema": False, "strict_weight_space": False}}
        self.defaults = sd_mecha.Defaults(model_dirs=self.dirs, threads=2, total_buffer_size=4096, tqdm=lib.quiet)
        self.kept = [self.recipes, m, hyper, own, self.options, self.dirs]

    def description(self):
        def deep(x):
            if isinstance(x, torch.Tensor):
                return ("tensor", str(x.dtype), tuple(x.tolist()))
            if isinstance(x, dict):
                return tuple((k, deep(v)) for k, v in x.items())
            if isinstance(x, sd_mecha.recipe_nodes.RecipeNode):
                own = (type(x).__name__, getattr(x.model_config, "identifier", None), x.merge_space.identifier, getattr(x, "state_dict", None) is None)
                if hasattr(x, "path"):
                    return (*own, str(x.path))
                if hasattr(x, "value"):
                    return (*own, deep(x.value))
                return (*own, x.merge_method.get_identifier(), tuple(map(deep, x.args)), deep(x.kwargs))
            if isinstance(x, (list, tuple)):
                return tuple(map(deep, x))
            return repr(x)
        configs = [model_configs.to_yaml(c) for c in (A, B, C)]
        return deep(self.kept), configs, {k: repr(v) for k, v in vars(self.defaults).items() if "tqdm" not in k}


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.lines = []

    def emit(self, record):
        text = record.getMessage()
        # the keys of a set come in any order
        self.lines.append("".join(sorted(text)) if "{" in text else text)


class Failing(dict):
    def __setitem__(self, k, v):
        raise ZeroDivisionError("output")


def tensors(d):
    return {k: (str(v.dtype), v.tolist()) for k, v in d.items()}


def perform(world, step):
    log = Log()
    root = logging.getLogger()
    root.handlers[:] = [log]
    root.setLevel(logging.WARNING)
    op, r = step["op"], world.recipes[step["recipe"]]
    opts = world.options[step["opt"]]
    out = pathlib.Path("out.safetensors").absolute()
    out.unlink(missing_ok=True)
    try:
        if op == "merge":
            if step["opt"] % 2:
                res = tensors(merge(r, total_buffer_size=4096, tqdm=lib.quiet, model_dirs=world.dirs, **opts))
            else:
                res = tensors(world.defaults.merge(r, **opts))
        elif op == "save":
            merge(r, total_buffer_size=4096, tqdm=lib.quiet, output=out, model_dirs=world.dirs, **opts)
            meta = st.load(out)
            raw = out.read_bytes()
            header = json.loads(raw[8:8 + int.from_bytes(raw[:8], "little")])
            res = tensors(meta), header["__metadata__"]
        elif op == "fail":
            res = merge(r, total_buffer_size=4096, tqdm=lib.quiet, output=Failing(), model_dirs=world.dirs, **opts)
        elif op == "convert as 1":
            res = serialize(convert(r, world.recipes[1], world.dirs))
        elif op.startswith("convert"):
            res = serialize(convert(r, {"a": A, "b": "vt-sess.b"}[op[8:]], world.dirs))
        elif op == "serialize":
            res = serialize(r)
        else:
            node = merge_methods.value_to_node(r)
            with open_input_dicts(node, world.dirs, 4096):
                res = node.model_config.identifier, node.merge_space.identifier
        verdict = "ok"
    except Exception as e:
        verdict, res = "error", type(e).__name__ + ": " + ("".join(sorted(str(e))) if "{" in str(e) else str(e))
    root.handlers[:] = [logging.NullHandler()]
    return verdict, res, sorted(log.lines)


def session(hist, root):
    os.chdir(root)
    for f in (1, 2, 3):
        put(f, 1)
    world = World()
    before = world.description()
    out = []
    for h in hist:
        op = h["step"]["op"]
        if op == "touch":
            put(h["step"]["file"], h["step"]["version"])
            out.append(None)
        elif op in STEP_NAMES:
            out.append(perform(world, h["step"]))
        else:
            register(op)
            out.append(None)
    return out, before == world.description() or (before, world.description())


def alone(step, reads, registered, root):
    os.chdir(root)
    for x in sorted(registered):
        register(x)
    for f in (1, 2, 3):
        put(f, 1)
    world = World()
    versions = dict(map(tuple, reads))
    for f in (1, 2, 3):
        # files that are not read may just as well not be there
        put(f, versions.get(f, 0))
    return perform(world, step)


def forked(jobs):
    """What each of these (function, arguments) gives in a process of its own; up to eight at a time."""
    top = pathlib.Path(tempfile.mkdtemp(prefix="vt-c08-"))
    waiting, running, done = list(enumerate(jobs)), {}, {}
    while waiting or running:
        if waiting and len(running) < 8:
            n, (fn, *args) = waiting.pop(0)
            root = top / str(n)
            root.mkdir()
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ("ok", fn(*args, root))
                    except BaseException:
                        res = ("error", traceback.format_exc())
                    (top / f"{n}.result").write_bytes(pickle.dumps(res))
                finally:
                    os._exit(0)
            running[pid] = n
        else:
            pid, _ = os.wait()
            if pid in running:
                n = running.pop(pid)
                done[n] = pickle.loads((top / f"{n}.result").read_bytes())
                shutil.rmtree(top / str(n))
    shutil.rmtree(top)
    for n, (kind, value) in done.items():
        if kind == "error":
            raise RuntimeError(value)
    return [done[n][1] for n in range(len(jobs))]


FRESH, SESSIONS = {}, {}


def fresh_key(h):
    return json.dumps([h["step"], sorted(h["reads"]), sorted(h["registered"])])


def prepare(cases):
    SESSIONS.update(zip(map(json.dumps, cases), forked([(session, c["hist"]) for c in cases])))
    missing = {fresh_key(h): h for c in cases for h in c["hist"] if h["step"]["op"] in STEP_NAMES and fresh_key(h) not in FRESH}
    FRESH.update(zip(missing, forked([(alone, h["step"], h["reads"], h["registered"]) for h in missing.values()])))


def execute(ctx, case):
    hist = case["hist"]
    if json.dumps(case) not in SESSIONS:
        prepare([case])
    outcomes, same = SESSIONS[json.dumps(case)]
    if same is not True:
        return f"the session changed what its caller keeps: {difference(*same)}"
    for n, (h, got) in enumerate(zip(hist, outcomes)):
        if got is None:
            continue
        want = FRESH[fresh_key(h)]
        ctx.note(f"{h['step']['op']}: {got[0]}")
        told = [x["step"] for x in hist[:n + 1]]
        if got != want:
            return f"step {n + 1} gives {str(got)[:700]}, in a fresh process {str(want)[:700]} [{told}]"
        if h["verdict"] != "any" and want[0] != h["verdict"] and not (h["verdict"] == "ok" and "TypeError" in str(want[1])):
            return f"step {n + 1} ends with {want[0]} ({str(want[1])[:300]}), specified: {h['verdict']} [{told}]"


def difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            s, t = str(x), str(y)
            j = next((j for j, (c, d) in enumerate(zip(s, t)) if c != d), min(len(s), len(t)))
            return f"...{s[max(0, j - 100):j + 200]}... became ...{t[max(0, j - 100):j + 200]}..."


def main(ctx):
    lib.quiet_warm()
    torch.set_num_threads(1)
    setup()
    q = ctx.quick
    extras = '{"config c","converter"}'
    ctx.tlc("Session", label="design", workers=8, consts=dict(Files="{1,2,3}", Versions="{1,3}" if q else "{0,1,4}", Extras="{}" if q else '{"config c"}', MaxSteps=2, Options="{1,5}", Keep="FALSE"))
    sim = dict(Files="{1,2,3}", Versions="{0,1,2,3,4,5}", Extras=extras, Options="{1,2,3,4,5,6}", Keep="FALSE")
    cases = []
    for steps, n in ((6, 40), (14, 40)):
        cases += ctx.tlc("Session", "SessionGen", label="simulated", consts=dict(sim, MaxSteps=steps), simulate=n if q else 20 * n, depth=12 * steps, workers=1).lines
    prepare(cases)
    for c in cases:
        ctx.check(execute, c)
    ctx.note("fresh processes", len(FRESH))


def replay(ctx, case):
    lib.quiet_warm()
    torch.set_num_threads(1)
    setup()
    ctx.check(execute, case)
