"""Helpers around the public interface of sd_mecha, shared by the checks."""
import contextlib, sys
import torch
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.extensions import model_configs
from sd_mecha.extensions.model_configs import ModelConfigImpl, KeyMetadata


class quiet:
    """Progress bar that does nothing."""
    def __init__(self, *a, **kw):
        self.it = a[0] if a else None
        self.n = 0

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def update(self, n=1):
        self.n += n

    def set_postfix(self, *a, **kw):
        pass

    def set_description(self, *a, **kw):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def switch_interval(s):
    old = sys.getswitchinterval()
    sys.setswitchinterval(s)
    try:
        yield
    finally:
        sys.setswitchinterval(old)


def config(identifier, keys, components=None):
    """Unregistered config. keys: {name: (shape, dtype) | (shape, dtype, {"aliases":..., "optional":...})}; components: {name: [keys]}."""
    def meta(v):
        kw = v[2] if len(v) > 2 else {}
        return KeyMetadata(v[0], v[1], **kw)

    metas = {k: meta(v) for k, v in keys.items()}
    if components is None:
        components = {"main": list(keys)}
    return ModelConfigImpl(identifier, {c: {k: metas[k] for k in ks} for c, ks in components.items()})


def replace_with(res):
    """A method that ignores its input and returns res[key]."""
    @merge_method(register=False)
    def replace(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
        return res[kwargs["key"]]
    return replace


def quiet_warm():
    """One small merge, so that lazily initialized parts of the libraries do not count."""
    sd_mecha.merge(sd_mecha.literal({"k": torch.ones(1)}, config("vt-warm", {"k": ([1], "float32")}), "weight"), threads=2, tqdm=quiet)
