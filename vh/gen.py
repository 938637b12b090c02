"""Concrete tensors for abstract sizes."""
import torch
from vh import st

DTYPES = [d for d, _ in st.DTYPES.values()]
NAMES = ["k", "model.diffusion_model.input_blocks.0.0.weight", 'quo"te', "back\\slash", "uni\u00e9\U0001f600", "tab\tnewline\n", "sp ace", "", "x" * 120]
LAYOUTS = ["contiguous", "transposed", "step", "offset", "column", "expanded", "matrix", "scalar", "grad"]


def tensor(rng, nbytes, dtype, layout):
    size = torch.tensor([], dtype=dtype).element_size()
    n = nbytes // size

    def fill(count):
        return st.from_raw(bytes(rng.randrange(256) if dtype != torch.bool else rng.randrange(2) for _ in range(count * size)), dtype, [count])

    if n == 0:
        return fill(0).reshape(rng.choice([[0], [2, 0], [0, 3], [1, 0, 2]]))
    if layout == "scalar" and n == 1:
        return fill(1).reshape([])
    if layout == "transposed" and n % 2 == 0:
        return fill(n).reshape(2, n // 2).t()
    if layout == "step":
        return fill(2 * n)[::2]
    if layout == "offset":
        return fill(n + 3)[2:2 + n]
    if layout == "column":
        return fill(3 * n).reshape(n, 3)[:, 1]
    if layout == "expanded":
        return fill(1).expand(n)
    if layout == "matrix" and n % 2 == 0:
        return fill(n).reshape(n // 2, 2)
    if layout == "grad" and dtype.is_floating_point and size > 1:
        return fill(n).requires_grad_(True)
    return fill(n)
