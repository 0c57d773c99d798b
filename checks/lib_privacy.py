"""Views of the three servers (or of the two compute servers and the producer) and their independence from the secrets."""
import numpy as np

from engine import privacy
from engine import symtf as S
from engine import term as T
from checks import lib_aby3 as L3


def track(h):
    if not hasattr(h, "secrets"):
        h.secrets, h.dealing, h.held = set(), set(), {}


def flat(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def own(h, device, backing_tensor):
    h.held.setdefault(device, []).extend(flat(h.val(backing_tensor)))


def private3(h, prot, name, shape, *a, **kw):
    """a secret shared among the three servers"""
    track(h)
    x, X = L3.private(h, prot, name, shape, *a, **kw)
    sec = set().union(*[T.free_vars(t) for t in flat(X)])
    h.secrets |= sec
    for i in range(3):
        for k in range(2):
            own(h, prot.servers[i].device_name, x.unwrapped[i][k])
            for t in flat(h.val(x.unwrapped[i][k])):
                h.dealing |= T.free_vars(t) - sec
    return x, X


def seed_vars():
    return {v for e in S.CTX.rand if e.get("info") == "seed" for v in e["vars"]}


def check_views(h, label, parties):
    """parties: name -> device"""
    sv = seed_vars()
    for name, d in parties.items():
        v = privacy.collect(S.CTX, d, h.secrets, h.dealing, h.held.get(d, []), sv, moduli=getattr(h, "moduli", None))
        h.ensure_independent("%s.view-of-%s" % (label, name), v, h.secrets)


def streams(device=None):
    """(key+nonce) -> set of (dtype, lo, hi) expansions"""
    out = {}
    for e in S.CTX.rand:
        if e.get("info") == "seeded" and (device is None or e["device"] == device):
            out.setdefault(e["key"][0], set()).add(e["key"][1:])
    return out


def check_streams(h, label, parties):
    """one key and nonce never expands two different streams"""
    for name, d in parties.items():
        bad = [k for k, s in streams(d).items() if len(s) > 1]
        h.ensure_true("%s.one-stream-per-nonce-on-%s" % (label, name), not bad, "a key and nonce is expanded into masks of two different rings: %s" % [streams(d)[k] for k in bad][:2])


def check_fresh(h, label, parties, before, allowed=()):
    """no expansion made after the snapshot `before` reuses a key and nonce of that snapshot"""
    for name, d in parties.items():
        n = before.get(d, 0)
        old, new = set(), set()
        i = 0
        for e in S.CTX.rand:
            if e.get("info") == "seeded" and e["device"] == d:
                (old if i < n else new).add(e["key"][0])
                i += 1
        h.ensure_true("%s.fresh-nonces-on-%s" % (label, name), not (old & new), "a later operation reuses a key and nonce of an earlier one")


def snapshot(parties):
    out = {}
    for d in parties.values():
        out[d] = sum(1 for e in S.CTX.rand if e.get("info") == "seeded" and e["device"] == d)
    return out
