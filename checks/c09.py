"""C09: TensorHeap generates recipes of built-in methods over inputs that share buffers. They are merged by the real code without any
conversion (or with one); everything the caller owns is compared bit by bit before and after, and the result with the one of a recipe
where every node has copies of its own."""
import copy, hashlib, os, pathlib, random, shutil, tempfile
import torch
import sd_mecha
from sd_mecha import Parameter, Return, literal, merge_method, model
from sd_mecha.extensions import merge_methods
from sd_mecha.recipe_nodes import RecipeNode
from vh import lib, st

KEYS = ["a.x", "a.y"]
UNARY = ("cast", "copy_distribution", "truncate_rank", "pick_component", "omit_component", "vt_same")
BINARY = ("weighted_sum", "slerp", "add_difference", "subtract", "perpendicular_component", "geometric_sum", "add_cosine_a", "add_cosine_b", "tensor_sum", "top_k_tensor_sum",
          "select_max_delta", "select_max_white_delta", "crossover", "rotate", "fallback")
TERNARY = ("train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask", "multiply_quotient")
NARY = ("n_average", "clamp", "ties_sum", "ties_sum_extended", "ties_sum_with_dropout", "dropout", "model_stock", "geometric_median")


@merge_method(identifier="vt_same")
def same(a: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return a


@merge_method(identifier="vt_to_weight")
def to_weight(a: Parameter(torch.Tensor)) -> Return(torch.Tensor, "weight"):
    return a


@merge_method(identifier="vt_to_delta")
def to_delta(a: Parameter(torch.Tensor)) -> Return(torch.Tensor, "delta"):
    return a


SHAPES = {"scalar": (), "one": (1,), "vector": (6,), "matrix": (4, 3), "square": (3, 3), "conv": (2, 3, 3, 3), "pointwise": (3, 2, 1, 1), "empty": (0, 2)}
HYPER = {
    "alpha": (0.0, 0.25, 0.5, 1.0, -0.5, "tensor", "dict"), "width": (0.0, 0.3, 0.5, 1.0), "offset": (0.0, 0.25, 0.9), "tilt": (0.0, 0.3, 1.0), "alignment": (0.0, 0.5, 1.0, 2.0),
    "k": (0.2, 0.5, 1.0), "vote_sgn": (False, True), "apply_stock": (False, True), "apply_median": (False, True), "probability": (0.0, 0.5, 0.9, 1.0), "no_rescale": (False, True),
    "rescale": (0.0, 1.0), "overlap": (0.0, 0.5, 1.0), "overlap_emphasis": (0.0, 0.5), "stiffness": (0.0, 0.5), "rank_ratio": (0.25, 1.0), "maxiter": (3, 20),
    "seed": (0, 7), "cos_eps": (1e-6,), "eps": (1e-6,), "ftol": (1e-20,),
}


def buffer(rng, shape, dtype, form):
    """A tensor and the storage it is a part of."""
    n = 1
    for s in shape:
        n *= s
    vals = [rng.choice([0.0, 0.5, -0.5, 1.25, -2.0, 3.0, 0.125, -1.5, 2.5]) + rng.randrange(8) / 16 if rng.random() < 0.8 else rng.choice([0.0, -0.0, 1e-8, -3e-7, 1e-4, 90.0, -1000.0])
            for _ in range(n + 4)]
    base = torch.tensor(vals, dtype=dtype)
    if form == "view":
        return base[2:2 + n].reshape(shape), base
    if form == "transposed" and len(shape) > 1:
        return base[:n].reshape(shape[::-1]).permute(*reversed(range(len(shape)))), base
    if form == "expanded" and len(shape) > 0 and n:
        base = base[:max(1, n // shape[0])].clone()
        return base.reshape(1, *shape[1:]).expand(shape), base
    base = base[:n].reshape(shape).clone()
    return base, base


def owned(*objects):
    """Everything reachable from what the caller passed, with all bits."""
    out = []

    def visit(x):
        if isinstance(x, torch.Tensor):
            s = x.untyped_storage()
            out.append((id(x), str(x.dtype), tuple(x.shape), x.stride(), x.storage_offset(), s.data_ptr(), hashlib.sha256(bytes(s.tolist())).hexdigest() if s.nbytes() else ""))
        elif isinstance(x, dict):
            out.append((id(x), tuple((k, id(v)) for k, v in x.items())))
            for v in x.values():
                visit(v)
        elif isinstance(x, pathlib.Path):
            out.append((str(x), hashlib.sha256(x.read_bytes()).hexdigest()))
        elif isinstance(x, (list, tuple)):
            for v in x:
                visit(v)
        elif not isinstance(x, RecipeNode):
            out.append(repr(x))
    visit(objects)
    return out


class Build:
    """The recipe of a case. Shared: nodes that are used several times are one object over the same tensors, otherwise all are copies."""
    def __init__(self, case, root, shared):
        self.case, self.root, self.shared = case, root, shared
        self.memo, self.owned, self.bases = {}, [], []
        self.hypers = {}
        self.cfg = lib.config("vt-heap", {k: (list(SHAPES[case["opts"]["shape"]]), "float32") for k in KEYS}, {"first": KEYS[:1], "second": KEYS[1:]})

    def rng(self, n):
        return random.Random(self.case["seed"] * 1000 + n)

    def input(self, i):
        rng, spec = self.rng(i), self.case["inputs"][i - 1]
        dtype, shape = getattr(torch, spec["dt"]), SHAPES[self.case["opts"]["shape"]]
        layout = rng.choice(["plain", "view", "transposed", "expanded"])
        data = {}
        for k in KEYS:
            data[k], base = buffer(rng, shape, dtype, layout)
            self.bases.append(base)
        if spec["form"] == "one tensor":       # the same tensor under all keys
            data = dict.fromkeys(KEYS, data[KEYS[0]])
        self.owned.append(data)
        space = rng.choice(["weight", "delta"])
        if spec["form"] == "file":
            path = self.root / f"in{i}{'' if self.shared else len(self.bases)}.safetensors"
            st.write(path, {k: v.contiguous() for k, v in data.items()})
            self.owned.append(path)
            return model(path, self.cfg, space)
        if spec["form"] == "raw" and layout == "plain":
            v = data[KEYS[0]]
            return literal(v, merge_space=space)
        if spec["form"] == "of nodes":
            return literal({k: literal({x: v for x in KEYS}, self.cfg, space) for k, v in data.items()}, self.cfg)
        return rng.choice([lambda: literal(data, self.cfg, space), lambda: model(data, self.cfg, space)])()

    def node(self, n):
        if self.shared and n in self.memo:
            return self.memo[n]
        ni = len(self.case["inputs"])
        self.memo[n] = r = self.input(n) if n <= ni else self.method(n, self.case["prog"][n - ni - 1])
        return r

    def hyper(self, rng, name, n):
        v = rng.choice(HYPER[name])
        if v == "tensor":
            v = torch.full([], rng.choice([0.0, 0.5, 1.0]), dtype=torch.float32)
        elif v == "dict":
            v = {k: torch.full([1], 0.5) for k in KEYS}
        self.owned.append(v)
        return literal(v, self.cfg) if isinstance(v, dict) else v

    def method(self, n, p):
        rng = self.rng(n)
        m = merge_methods.resolve(p["m"])
        args = [self.node(a) for a in p["args"]]
        if p["m"] == "clamp" and len(args) == 1:
            args *= 2
        if p["m"] == "model_stock" and len(args) == 1:
            args *= 2
        names = m.get_param_names()
        spaces = m.get_params().as_dict(len(args))
        for j, a in enumerate(args):
            want = spaces[j].merge_space
            allowed = {s.identifier for s in want} if isinstance(want, (set, frozenset)) else None
            if allowed and a.merge_space.identifier not in allowed:
                args[j] = (to_delta if "delta" in allowed else to_weight)(a)
        if p["m"] not in ("vt_same", "cast", "pick_component", "omit_component", "fallback"):
            first = args[0].merge_space.identifier
            if len({a.merge_space.identifier for a in args}) > 1 and not any(isinstance(spaces[j].merge_space, (set, frozenset)) for j in range(len(args))):
                args = [a if a.merge_space.identifier == "weight" else to_weight(a) for a in args]
        elif p["m"] == "fallback" and args[0].merge_space.identifier != args[1].merge_space.identifier:
            args = [to_weight(a) for a in args]
        kw = {}
        if p["m"] in ("pick_component", "omit_component"):
            kw["component"] = rng.choice(["first", "second"])
        elif p["m"] == "cast":
            kw["dtype"] = rng.choice([None, "float32", "float64"])
            kw["device"] = rng.choice([None, "cpu"])
        else:
            for name in (*names.args[len(args):], *names.kwargs):
                if name == "seed" or rng.random() < 0.7:
                    kw[name] = self.hyper(rng, name, n)
        return m(*args, **kw)


def draws(case):
    """These two methods draw from the generator of torch: their results depend on the order of evaluation."""
    return any(p["m"] in ("copy_distribution", "truncate_rank") for p in case["prog"])


def outcome(recipe, case, rng, out=None, **extra):
    dt = case["opts"]["dtype"]
    dt = None if dt == "none" else getattr(torch, dt)
    torch.manual_seed(5)
    try:
        res = sd_mecha.merge(recipe, merge_dtype=dt, output_dtype=rng.choice([None, dt]), merge_device=rng.choice([None, "cpu"]), output_device=rng.choice([None, "cpu"]), check_finite=False,
                             threads=0 if draws(case) else rng.choice([0, 2, 4]), total_buffer_size=4096, strict_weight_space=False, tqdm=lib.quiet,
                             omit_extra_keys=rng.random() < 0.7, output=out, **extra)
        return "ok", {k: (str(v.dtype), list(v.shape), v.flatten().tolist()) if isinstance(v, torch.Tensor) else v for k, v in sorted((res or {}).items())}
    except Exception as e:
        return "error", type(e).__name__


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c09-"))
    try:
        return run(ctx, case, root)
    finally:
        shutil.rmtree(root)


def run(ctx, case, root):
    b = Build(case, root, True)
    last = len(case["inputs"]) + len(case["prog"])
    try:
        recipe = b.node(last)
        if recipe.model_config is None:
            recipe = sd_mecha.fallback(recipe, literal({k: torch.zeros(SHAPES[case["opts"]["shape"]]) for k in KEYS}, b.cfg, recipe.merge_space))
    except ValueError as e:
        ctx.note("not composed")
        return None
    told = f"{[(p['m'], p['args']) for p in case['prog']]}: "
    before = owned(b.owned, b.bases)
    if case["opts"]["target"] != "none":
        return onto_input(ctx, case, root, b, recipe, told, before)
    seed = case["seed"]
    first = outcome(recipe, case, random.Random(seed))
    if owned(b.owned, b.bases) != before:
        return told + "the merge changed what the caller owns"
    again = outcome(recipe, case, random.Random(seed))
    if not draws(case) and repr(first) != repr(again):
        return told + f"the second merge gives {again}, the first one {first}"
    if owned(b.owned, b.bases) != before:
        return told + "the second merge changed what the caller owns"
    if draws(case):
        return None
    other = Build(case, root, False)
    recipe = other.node(last)
    if recipe.model_config is None:
        recipe = sd_mecha.fallback(recipe, literal({k: torch.zeros(SHAPES[case["opts"]["shape"]]) for k in KEYS}, b.cfg, recipe.merge_space))
    separate = outcome(recipe, case, random.Random(seed))
    if repr(first) != repr(separate):
        return told + f"over shared tensors: {first}, over copies: {separate}"
    for p in case["prog"]:
        ctx.note(f"{p['m']}: {first[0]}")


def onto_input(ctx, case, root, b, recipe, told, before):
    """The output is given a name of one of the input files."""
    rng = random.Random(case["seed"])
    files = [x for x in b.owned if isinstance(x, pathlib.Path)]
    if not files:
        return None
    target = rng.choice(files)
    (root / "dir" / "deep").mkdir(parents=True)
    name, dirs = {"the path": lambda: (target, []), "text": lambda: (str(target), []), "dots": lambda: (root / "dir" / ".." / target.name, []), "model dir": lambda: (target.name, [root]),
                  "model dir dots": lambda: (pathlib.Path("..") / target.name, [root / "dir", root])}.get(case["opts"]["target"], lambda: (None, []))()
    if case["opts"]["target"] == "symbolic link":
        name = root / "link.safetensors"
        name.symlink_to(target)
    elif case["opts"]["target"] == "hard link":
        name = root / "hard.safetensors"
        os.link(target, name)
    elif case["opts"]["target"] == "linked directory":
        (root / "dir" / "l").symlink_to(root, target_is_directory=True)
        name = root / "dir" / "l" / target.name
    elif case["opts"]["target"] == "working directory":
        os.chdir(root)
        name = target.name
    elif case["opts"]["target"] == "dangling then dots":
        name = root / "dir" / "deep" / ".." / ".." / target.name
    used = reachable(case)
    i = b.owned.index(target)
    in_use = [n for n in used if n <= len(case["inputs"]) and case["inputs"][n - 1]["form"] == "file"]
    extra = {"model_dirs": dirs}
    result = outcome(recipe, case, rng, out=name, **extra)
    os.chdir("/verif")
    ctx.note(f"onto an input ({case['opts']['target']}): {result[0]}")
    if owned(b.owned, b.bases) != before:
        return told + f"saving to {name} ({result}) changed an input"


def reachable(case):
    ni, seen, todo = len(case["inputs"]), set(), [len(case["inputs"]) + len(case["prog"])]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            if n > ni:
                todo += case["prog"][n - ni - 1]["args"]
    return seen


def tla(names):
    return "{" + ",".join(f'"{n}"' for n in names) + "}"


TARGETS = ("the path", "text", "dots", "model dir", "model dir dots", "symbolic link", "hard link", "linked directory", "working directory", "dangling then dots")


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    base = dict(Unary=tla(UNARY), Binary=tla(BINARY), Ternary=tla(TERNARY), Nary=tla(NARY), Forms=tla(("tensors", "one tensor", "file", "raw", "of nodes")), Dtypes=tla(("float32", "float64")),
                Shapes=tla(SHAPES), Requested=tla(("float32", "float64")), Targets=tla(("none",)), Tasks="{1}", Writes='"own"', NI=3, MaxOps=2)
    ctx.tlc("TensorHeap", label="design", workers=8, timeout=2000, consts=dict(base, Unary="{}", Binary='{"b"}', Ternary="{}", Nary="{}", Forms='{"f"}', Dtypes='{"float32"}', Shapes='{"s"}', Requested="{}",
                                                                              NI=2, MaxOps=2 if q else 3, Tasks="{1,2}"))
    lines = []
    for n, label, consts in ((900, "one method", dict(MaxOps=1)), (2000, "one method, nothing converted", dict(MaxOps=1, Requested="{}", Dtypes='{"float32"}')),
                             (500, "one method of many operands", dict(MaxOps=1, Requested="{}", Dtypes='{"float32"}', NI=4, Unary="{}", Binary="{}", Ternary="{}")),
                             (1000, "two methods", {}), (600, "four methods", dict(MaxOps=4))):
        lines += ctx.tlc("TensorHeap", "TensorHeapGen", label=label, workers=1, simulate=n if q else 12 * n, depth=80, consts={**base, **consts}).lines
    lines += ctx.tlc("TensorHeap", "TensorHeapGen", label="onto an input", workers=1, simulate=400 if q else 3000, depth=60,
                     consts=dict(base, Unary=tla(("pick_component", "vt_same")), Binary=tla(("weighted_sum", "fallback")), Ternary="{}", Nary=tla(("n_average",)), Forms=tla(("file", "tensors", "of nodes")),
                                 Shapes='{"vector"}', Targets=tla(TARGETS), NI=1)).lines
    for g in lines:
        ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 20)})


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
