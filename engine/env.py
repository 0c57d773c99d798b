"""Loads the real tf_encrypted from /repo and switches its modules between the real TensorFlow and the
symbolic facade.  Nothing of /repo is copied: the functions executed are the function objects Python
compiled from /repo's working tree."""
import contextlib
import os
import sys
import types

os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, "/opt/vp/compat"):
    if p not in sys.path:
        sys.path.insert(0, p)
import logging  # noqa: E402
logging.getLogger("tf_encrypted").setLevel(logging.CRITICAL)
import tfe_tf_compat  # noqa: E402,F401
import tensorflow as rtf  # noqa: E402

rtf.get_logger().setLevel("ERROR")
NDEV = 14
rtf.config.set_logical_device_configuration(rtf.config.list_physical_devices("CPU")[0],
                                            [rtf.config.LogicalDeviceConfiguration() for _ in range(NDEV)])
import tf_encrypted as tfe  # noqa: E402
from . import symtf as S  # noqa: E402
from . import term as T  # noqa: E402


def _modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "tf_encrypted" or n.startswith("tf_encrypted.")) and isinstance(m, types.ModuleType)
            and "_test" not in n]


import importlib
import pkgutil
for sub in ("tf_encrypted.protocol.pond.pond", "tf_encrypted.protocol.aby3.aby3", "tf_encrypted.protocol.securenn.securenn",
            "tf_encrypted.tensor.native", "tf_encrypted.tensor.int128", "tf_encrypted.tensor.int100", "tf_encrypted.tensor.boolfactory",
            "tf_encrypted.queue.fifo", "tf_encrypted.player.data_owner"):
    try:
        importlib.import_module(sub)
    except ImportError:
        pass


class Recorder:
    """functions of /repo that were executed under a harness (name -> file:line)"""
    def __init__(self):
        self.seen = {}
        self.on = False

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO + "/tf_encrypted"):
                key = (fn[len(REPO) + 1:], co.co_qualname)
                if key not in self.seen:
                    self.seen[key] = co.co_firstlineno


RECORDER = Recorder()


class PathOracle:
    """python-level nondeterminism (random.random()) explored path by path"""
    def __init__(self):
        self.prefix, self.taken = [], []

    def choose(self, n=2):
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((v, n))
        return v

    def next_prefix(self):
        t = list(self.taken)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return None
        t[-1] = (t[-1][0] + 1, t[-1][1])
        return [v for v, _ in t]


ORACLE = PathOracle()


class SymRandom:
    """stands for the `random` module inside tf_encrypted modules"""
    def __init__(self, real):
        self._real = real

    def random(self):
        return 0.25 if ORACLE.choose(2) == 0 else 0.75

    def __getattr__(self, k):
        return getattr(self._real, k)


class Bone:
    """stands for tf.experimental.ExtensionType records"""


def _bone_class(cls):
    import typing
    ann = {}
    for c in reversed(cls.__mro__):
        ann.update(getattr(c, "__annotations__", {}) if c.__module__.startswith("tf_encrypted") else {})
    fields = list(ann)
    tfe_bases = tuple(b for b in cls.__mro__[1:] if b.__module__.startswith("tf_encrypted") and not issubclass(b, rtf.experimental.ExtensionType))
    defaults = {f: cls.__dict__.get(f) for f in fields if f in cls.__dict__}
    def __init__(self, *a, **k):
        d = dict(zip(fields, a))
        d.update(k)
        unknown = set(d) - set(fields)
        missing = set(fields) - set(d) - set(defaults)
        if unknown or missing:
            raise TypeError("bone fields: unknown %s missing %s" % (unknown, missing))
        for f in fields:
            object.__setattr__(self, f, d.get(f, defaults.get(f)))
    ns = {"__init__": __init__, "__repr__": lambda self: "<bone %s>" % cls.__name__}
    for k, v in cls.__dict__.items():
        if isinstance(v, (property, types.FunctionType)) and not k.startswith("__"):
            ns[k] = v
    return ns, tfe_bases


_patch_log = []


def _set(mod, name, value):
    _patch_log.append((mod, name, getattr(mod, name)))
    setattr(mod, name, value)


def _patch_all():
    import random as _random
    import numpy as _np
    from . import hostnp
    from tf_encrypted.operations.secure_random import secure_random as sr
    from tf_encrypted.operations.aux import aux as ax
    ti = sys.modules["tf_encrypted.operations.tf_i128.tf_i128"]
    S.REAL["aux_module"] = ax.aux_module
    S.REAL["tf_i128"] = ti.tf_i128
    S.REAL["secure_random"] = sr.secure_random_module
    aux_fake = S.module_ns("aux", S.AUX_OPS, ax.aux_module)
    repl = {id(ax.aux_module): aux_fake,
            id(ti.tf_i128): S.module_ns("i128", S.I128_OPS, ti.tf_i128),
            id(sr.secure_random_module): S.module_ns("sr", S.SECURE_RANDOM_OPS, sr.secure_random_module),
            id(rtf): S.FACADE, id(_random): SymRandom(_random), id(_np): hostnp.NpFacade(_np)}
    enc = ti.encode
    repl[id(enc)] = lambda a: hostnp.encode128(a) if isinstance(a, hostnp.HostArray) else enc(a)
    for m in _modules():
        for k, v in list(vars(m).items()):
            r = repl.get(id(v))
            if r is not None and v is not None:
                _set(m, k, r)
            elif v is rtf.Tensor:
                _set(m, k, S.SymTensor)
            elif v is rtf.Variable:
                _set(m, k, S.SymVariable)
    # extension types
    made = {}
    for m in _modules():
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and issubclass(v, rtf.experimental.ExtensionType) and v.__module__.startswith("tf_encrypted"):
                if v not in made:
                    pass
                made.setdefault(v, None)
    def make(cls):
        if made.get(cls) is not None:
            return made[cls]
        ns, bases = _bone_class(cls)
        ext_parents = [b for b in cls.__bases__ if b in made]
        parents = tuple(make(b) for b in ext_parents) or tuple(
            b for b in cls.__bases__ if b.__module__.startswith("tf_encrypted")) or (object,)
        made[cls] = type(cls.__name__, parents, ns)
        return made[cls]
    for cls in list(made):
        make(cls)
    for m in _modules():
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and v in made:
                _set(m, k, made[v])


def _unpatch_all():
    while _patch_log:
        m, k, v = _patch_log.pop()
        setattr(m, k, v)


def nodes_clear():
    import tf_encrypted.protocol.protocol as pp
    for name in ("nodes",):
        d = getattr(pp, name, None)
        if isinstance(d, dict):
            d.clear()
    for m in _modules():
        d = vars(m).get("nodes")
        if isinstance(d, dict):
            d.clear()


class ContractPatches:
    """callee replaced by its contract while a caller is being verified"""
    def __init__(self):
        self.saved = []

    def stub(self, owner, name, fn):
        if name not in vars(owner):
            return False
        self.saved.append((owner, name, vars(owner)[name]))
        setattr(owner, name, fn)
        return True

    def undo(self):
        while self.saved:
            o, n, v = self.saved.pop()
            setattr(o, n, v)


@contextlib.contextmanager
def symbolic():
    """switch to symbolic TensorFlow; fresh context"""
    S.CTX.reset()
    S._seeded.clear()
    S.T.RANGES.clear(); S.T.RESIDUES.clear()
    S.PERMS.clear()
    S.CHOOSE[0] = ORACLE.choose
    nodes_clear()
    _patch_all()
    try:
        yield S.CTX
    finally:
        S.T.RANGES.clear(); S.T.RESIDUES.clear()
        _unpatch_all()
        nodes_clear()


PLAYERS = ("server0", "server1", "server2", "crypto-producer", "input-provider", "result-receiver", "weights-provider", "alice", "bob")


def sym_config():
    from collections import OrderedDict
    cfg = tfe.RemoteConfig(OrderedDict((p, "h%d:1" % i) for i, p in enumerate(PLAYERS)))
    return cfg


def local_config():
    """every player on a logical CPU device of its own, so that placement is real"""
    cfg = tfe.LocalConfig([])
    base = cfg.add_player
    def add_player(name):
        p = base(name)
        i = p.index + 1
        assert i < NDEV
        p.device_name = "/job:localhost/replica:0/task:0/device:CPU:%d" % i
        return p
    cfg.add_player = add_player
    for n in PLAYERS:
        cfg.add_player(n)
    return cfg
