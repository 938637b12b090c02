"""Saves and restores the global registries of a module, whatever they are called."""
import contextlib, types


def state(modules):
    return [(v, v.copy()) for m in modules for k, v in vars(m).items() if isinstance(v, (dict, list, set)) and not k.startswith("__")]


@contextlib.contextmanager
def restored(*modules):
    saved = state(modules)
    try:
        yield
    finally:
        for v, old in saved:
            v.clear()
            v.update(old) if not isinstance(v, list) else v.extend(old)
