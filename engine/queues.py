"""The framework's FIFO queue resource: assumed contract (bounded capacity, first in first out, shared by name)."""
from . import symtf as S
from .env import rtf


class SymQueue:
    def __init__(self, capacity, dtypes, shapes=None, names=None, shared_name=None, name="fifo_queue"):
        table = S.CTX.__dict__.setdefault("queues", {})
        key = shared_name or object()
        self.state = table.setdefault(key, dict(items=[], capacity=int(capacity), dtypes=[rtf.as_dtype(d) for d in dtypes],
                                                shapes=[tuple(rtf.TensorShape(s).as_list()) for s in (shapes or [])]))
        self.device = S.CTX.device

    def size(self):
        return S.wrap(rtf.constant(len(self.state["items"])))

    def enqueue(self, vals, name=None):
        vals = list(vals) if isinstance(vals, (list, tuple)) else [vals]
        if len(self.state["items"]) >= self.state["capacity"]:
            raise S.Unsupported("enqueue would block: queue is full")
        vals = [S.lift(v, dtype=d) for v, d in zip(vals, self.state["dtypes"])]
        for v, d, s in zip(vals, self.state["dtypes"], self.state["shapes"]):
            if v.dtype != d or tuple(v.shape) != s:
                raise ValueError("queue element %s%s, expected %s%s" % (v.dtype, tuple(v.shape), d, s))
        with S.dev(self.device):
            S.use("enqueue", vals)
            self.state["items"].append([v._copy_here() if hasattr(v, "_copy_here") else S.structural("identity", rtf.identity, v) for v in vals])
        return None

    def dequeue(self, name=None):
        if not self.state["items"]:
            raise S.Unsupported("dequeue would block: queue is empty")
        vals = self.state["items"].pop(0)
        out = [S.structural("identity", rtf.identity, v) for v in vals]
        return out[0] if len(out) == 1 else out


def contract(patches, h):
    from tf_encrypted.protocol.pond import pond as P
    from tf_encrypted.protocol.aby3 import aby3 as A
    if h.sym:
        for m in (P, A):
            if hasattr(m, "TFFIFOQueue"):
                patches.stub(m, "TFFIFOQueue", SymQueue)
            if hasattr(m, "FIFOQueue"):
                pass
    return ["TensorFlow FIFO queue: bounded, first in first out, shared by name (assumed)"]
