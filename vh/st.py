"""Independent safetensors reader and writer, from the definition of the format:
8 bytes little-endian N, N bytes JSON {name: {dtype, shape, data_offsets: [begin, end)}}, data section."""
import json, struct
import torch

DTYPES = {
    "F64": (torch.float64, 8), "F32": (torch.float32, 4), "F16": (torch.float16, 2), "BF16": (torch.bfloat16, 2),
    "I64": (torch.int64, 8), "I32": (torch.int32, 4), "I16": (torch.int16, 2), "I8": (torch.int8, 1),
    "U8": (torch.uint8, 1), "U16": (torch.uint16, 2), "U32": (torch.uint32, 4), "U64": (torch.uint64, 8),
    "BOOL": (torch.bool, 1), "F8_E4M3": (torch.float8_e4m3fn, 1), "F8_E5M2": (torch.float8_e5m2, 1),
}
NAMES = {v[0]: k for k, v in DTYPES.items()}


def raw(t):
    """Elements of a tensor in row-major order, as bytes."""
    t = t.detach().clone(memory_format=torch.contiguous_format).reshape(-1)
    if t.numel() == 0:
        return b""
    return bytes(t.view(torch.uint8).tolist()) if t.numel() * t.element_size() < 4096 else t.view(torch.uint8).numpy().tobytes()


def from_raw(data, dtype, shape):
    if len(data) == 0:
        return torch.zeros(shape, dtype=dtype)
    return torch.frombuffer(bytearray(data), dtype=torch.uint8).view(dtype).reshape(shape)


def write(path, tensors, *, metadata=None, order=None, gap=0, pad_header=0, name_order=None):
    """tensors: {name: tensor}; order: data section order; gap: bytes of filler between tensors."""
    order = list(order or tensors)
    header = {}
    offset = 0
    chunks = []
    spec = {}
    for name in order:
        b = raw(tensors[name])
        spec[name] = {"dtype": NAMES[tensors[name].dtype], "shape": list(tensors[name].shape), "data_offsets": [offset, offset + len(b)]}
        chunks.append(b)
        chunks.append(b"\xAA" * gap)
        offset += len(b) + gap
    for name in (name_order or tensors):
        header[name] = spec[name]
    if metadata is not None:
        header["__metadata__"] = metadata
    h = json.dumps(header).encode() + b" " * pad_header
    with open(path, "wb") as f:
        f.write(struct.pack("<Q", len(h)) + h + b"".join(chunks))
    return 8 + len(h)


class Malformed(Exception):
    pass


def parse(path):
    """-> (header, data start, bytes of the whole file); raises Malformed."""
    data = open(path, "rb").read()
    if len(data) < 8:
        raise Malformed(f"file of {len(data)} bytes")
    n = struct.unpack("<Q", data[:8])[0]
    if 8 + n > len(data):
        raise Malformed(f"header length {n} beyond the end of a file of {len(data)} bytes")
    try:
        pairs = json.loads(data[8:8 + n].decode("utf-8"), object_pairs_hook=list)
    except Exception as e:
        raise Malformed(f"header is not JSON: {e}")
    names = [k for k, _ in pairs]
    if len(set(names)) != len(names):
        raise Malformed("a key is listed twice")
    header = {k: dict(v) for k, v in pairs}
    return header, 8 + n, data


def load(path):
    header, start, data = parse(path)
    out = {}
    for k, v in header.items():
        if k == "__metadata__":
            continue
        b, e = v["data_offsets"]
        dtype, size = DTYPES[v["dtype"]]
        n = size
        for d in v["shape"]:
            n *= d
        if e - b != n or b < 0 or start + e > len(data):
            raise Malformed(f"{k}: offsets {b}..{e} for {n} bytes, data section of {len(data) - start}")
        out[k] = from_raw(data[start + b:start + e], dtype, v["shape"])
    return out


def same(a, b):
    return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and raw(a) == raw(b)


def desc(t):
    if not isinstance(t, torch.Tensor):
        return repr(t)
    return f"{str(t.dtype)[6:]}{list(t.shape)}={t.flatten()[:8].tolist()}"


def write_layout(path, items, *, metadata=None, header_order=None, tail=b"", pad_header=0):
    """items: [(name, tensor, gap bytes before it)] in data order. Returns the position of the data section."""
    spec, chunks, offset = {}, [], 0
    for name, t, gap in items:
        chunks.append(b"\xAA" * gap)
        offset += gap
        b = raw(t)
        spec[name] = {"dtype": NAMES[t.dtype], "shape": list(t.shape), "data_offsets": [offset, offset + len(b)]}
        chunks.append(b)
        offset += len(b)
    header = {}
    names = list(header_order or spec)
    for i, name in enumerate(names):
        if metadata is not None and i == len(names) // 2:
            header["__metadata__"] = metadata
        header[name] = spec[name]
    if metadata is not None:
        header.setdefault("__metadata__", metadata)
    h = json.dumps(header).encode() + b" " * pad_header
    with open(path, "wb") as f:
        f.write(struct.pack("<Q", len(h)) + h + b"".join(chunks) + tail)
    return 8 + len(h)
