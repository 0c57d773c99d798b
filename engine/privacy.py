"""Independence of a party's view from the secrets, proved by a change of variables.

The view of a party is the list of words it holds at the start (its input shares), draws itself, can expand from keys it
knows, or receives.  The joint distribution of the view does not depend on the secrets if the randomness the party does not know can be re-parametrised, for
every fixed value of everything else, by an invertible map after which no view term mentions a secret.  The prover builds such a
map one pivot at a time: a view term that depends on a secret must be invertible in some unknown uniform word r; r is then
replaced by the inverse applied to a new uniform word.  Each step is invertible whatever the choice of pivot, so the
final state (no secret left in any view term) is a proof.  When no pivot exists the statistical search below looks for two secrets whose views
can be told apart."""
import math
import random

from . import symtf as S
from . import term as T


def strip(t):
    """drop injective outer operations with no free part"""
    while True:
        if t.op in ("zext", "sext", "bitrev"):
            t = t.args[0]
        elif t.op in ("lin",) and len(t.args) == 1 and t.w and t.val[1][0] & 1:
            t = t.args[0]
        elif t.op == "xor" and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "xor" and all(a.op == "zext" for a in t.args) and t.args and not t.val >> max(a.args[0].w for a in t.args):
            t = T.trunc(t, max(a.args[0].w for a in t.args))
        elif t.op == "shl" and t.args[0].op in ("zext",) and t.args[0].args[0].w + t.val <= t.w:
            t = t.args[0]
        else:
            return t


def _inv_odd(k, w):
    return pow(k, -1, 1 << w)


def residue(r, p, m=None):
    """declare m (or r) a canonical residue of p"""
    if p >> 62: T.RESIDUES[r if m is None else m] = p
    else: T.RANGES[r if m is None else m] = (0, p - 1)


def invert(t, r, m, full):
    """expression e(m) with t[r := e(m)] == m for every m, or None; full: modulus of which r is a uniform residue, if not of its width"""
    if t is r:
        return m
    if full:
        if t.op != "zp" or t.val[0] != full:
            return None
        p = full
        hit = [(mon, c) for mon, c in t.val[1] if any(r in T.free_vars(t.args[i]) for i in mon)]
        if len(hit) != 1 or len(hit[0][0]) != 1 or t.args[hit[0][0][0]] is not r or math.gcd(hit[0][1], p) != 1:
            return None
        q = T.zp_poly(t, p)
        q.pop((r,))
        k = pow(hit[0][1], -1, p)
        e = {mon: -k * c for mon, c in q.items()}
        e[(m,)] = k
        return T.zp_make(T._zp_reduce(e, p), p, t.w)
    if r not in T.free_vars(t):
        return None
    if t.op == "lin" and t.w:
        hit = [i for i, a in enumerate(t.args) if r in T.free_vars(a)]
        if len(hit) != 1:
            return None
        i = hit[0]
        k = t.val[1][i]
        if not k & 1:
            return None
        rest = T.sub(t, T.scale(t.args[i], k))
        return invert(t.args[i], r, T.scale(T.sub(m, rest), _inv_odd(k, t.w)), full)
    if t.op == "xor":
        hit = [a for a in t.args if r in T.free_vars(a)]
        if len(hit) != 1:
            return None
        rest = T.xor(t, hit[0])
        return invert(hit[0], r, T.xor(m, rest), full)
    if t.op == "bitrev":
        return invert(t.args[0], r, T.bitrev(m), full)
    if t.op == "ite" and r not in T.free_vars(t.args[0]):
        a = invert(t.args[1], r, m, full)
        b = invert(t.args[2], r, m, full)
        if a is None or b is None:
            return None
        return T.ite(t.args[0], a, b)
    if t.op == "mul":
        hit = [i for i, a in enumerate(t.args) if r in T.free_vars(a)]
        if len(hit) == 1 and T.is_const(t.args[1 - hit[0]]) and t.args[1 - hit[0]].val & 1:
            return invert(t.args[hit[0]], r, T.scale(m, _inv_odd(t.args[1 - hit[0]].val, t.w)), full)
    return None


class View:
    def __init__(self):
        self.terms = []       # (label, node)
        self.known = set()    # variables the party knows
        self.hidden = set()   # uniform words it does not know
        self.modulus = {}     # of those, the uniform residues of a modulus other than a power of two
        self.slack = []       # statistical steps used: log2 of the distance of each
        self.assumptions = [] # preconditions (ranges of the secrets)


def collect(ctx, party, secrets, dealing, held, seedvars, public=(), moduli=None):
    """view of `party` after a symbolic run.  dealing: uniform words of the initial sharing, held: its initial words"""
    v = View()
    known_seeds = set()
    streams = []
    for e in ctx.rand:
        if e.get("info") == "seed":
            if e["device"] == party:
                known_seeds |= set(e["vars"])
        elif e.get("info") == "seeded":
            streams.append(e)
        elif e["device"] == party:
            v.known |= set(e["vars"])
    seen_t = set()
    recv = []
    for d, src, t, op in ctx.transfers:
        if d != party or id(t) in seen_t or t.concrete:
            continue
        seen_t.add(id(t))
        a = t.arr
        flat = list(a.reshape(-1))
        if flat and all(T.free_vars(x) and T.free_vars(x) <= seedvars for x in flat):
            for x in flat:
                known_seeds |= T.free_vars(x)
            continue
        if len(a.shape) >= 1 and a.shape[-1] == 2 and t.dtype == S.rtf.int64:
            limbs = list(zip(a[..., 0].reshape(-1), a[..., 1].reshape(-1)))
            if limbs and all(T._unhi(hi, 64) is not None or T.is_const(hi) for lo, hi in limbs):
                flat = [S.join128(lo, hi) for lo, hi in limbs]
        for i, x in enumerate(flat):
            recv.append(("%s->%s:%s[%d]" % (src, party, op, i), x))
    for e in streams:
        sv = set()
        for n in e["seed"].arr.reshape(-1):
            sv |= T.free_vars(n)
        if e["device"] == party or (sv & known_seeds):
            v.known |= set(e["vars"])
    for e in ctx.rand:
        if e.get("info") != "seed":
            for x in e["vars"]:
                if x not in v.known and e_full(e, x):
                    v.hidden.add(x)
                elif x not in v.known and e["lo"] == 0 and (e["hi"] in T.ZP_MODULI or e["hi"] >> 62 and e["hi"] & 1):
                    v.hidden.add(x)
                    v.modulus[x] = e["hi"]
    v.hidden |= set(dealing)
    v.modulus.update({x: p for x, p in (moduli or {}).items() if x in v.hidden})
    # a word drawn from [0, 2^k) is k uniform bits
    sub = {}
    for e in ctx.rand:
        if e.get("info") != "seed" and e["lo"] == 0 and e["hi"] & (e["hi"] - 1) == 0:
            k = e["hi"].bit_length() - 1
            for x in e["vars"]:
                if x not in sub and k < x.w:
                    b = T.var("bits!" + str(x.val), k)
                    sub[x] = T.zext(b, x.w)
                    (v.known if x in v.known else v.hidden).add(b)
    v.terms = [("holds[%d]" % i, x) for i, x in enumerate(held)] + recv
    if sub:
        v.terms = list(zip([l for l, _ in v.terms], T.substitute([x for _, x in v.terms], sub)))
    return v


def e_full(e, x):
    """drawn from the whole ring (the exclusive upper end may leave out the largest word)"""
    if e.get("dtype") == "int128":
        lo, hi = -(1 << 127), (1 << 127) - 1
    else:
        w = S.width(e["dtype"])
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if S.is_signed(e["dtype"]) else (0, (1 << w) - 1)
    return e["lo"] <= lo and e["hi"] >= hi


def _depth(t, memo):
    """variable -> least depth at which it occurs in t"""
    out, level, seen = {}, [t], set()
    d = 0
    while level:
        nxt = []
        for n in level:
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "var":
                out.setdefault(n, d)
            nxt.extend(n.args)
        level, d = nxt, d + 1
    return out


def prove(view, secrets, tries=8):
    """-> (True, pivots, None, None) or (False, pivots, label, term); any order of pivots that succeeds is a proof"""
    first = None
    for k in range(tries):
        rng = random.Random(k)
        if k == 0:
            rank = lambda r, before, dep, occ: (r in before, dep[r], occ[r], str(r.val))
        elif k == 1:
            rank = lambda r, before, dep, occ: (dep[r], r in before, occ[r], str(r.val))
        elif k == 2:
            rank = lambda r, before, dep, occ: (r in before, occ[r], dep[r], str(r.val))
        else:
            rank = lambda r, before, dep, occ: (r in before, rng.random())
        res = _prove(view, secrets, rank, rng if k > 2 else None)
        if res[0]:
            return res
        first = first or res
        if res[1] > 300 and k >= 2:
            break
    return first


def _prove(view, secrets, rank, rng):
    terms, labels, seen = [], [], set()
    for l, t in view.terms:
        t = strip(t)
        if T.is_const(t) or t.id in seen:
            continue
        seen.add(t.id)
        terms.append(t); labels.append(l)
    n0 = 0
    pivots = 0
    view.slack = []
    hidden = set(view.hidden)
    budget = 6 * len(terms) + 50
    while True:
        bad = [i for i, t in enumerate(terms) if T.free_vars(t) & secrets]
        if not bad:
            return True, pivots, None, None
        if pivots > budget:
            return False, pivots, labels[bad[0]], terms[bad[0]]
        done = False
        if rng:
            rng.shuffle(bad)
        for i in bad:
            t = terms[i]
            fv = T.free_vars(t)
            cand = [r for r in fv if r in hidden]
            before = set()
            for j, u in enumerate(terms):
                if j not in bad:
                    before |= T.free_vars(u)
            dep = _depth(t, None)
            occ = {r: sum(1 for u in terms if r in T.free_vars(u)) for r in cand}
            cand.sort(key=lambda r: rank(r, before, dep, occ))
            for r in cand:
                m = T.var("view!%d" % n0, t.w)
                p = view.modulus.get(r)
                if p:
                    residue(m, p)
                e = invert(t, r, m, p)
                if e is None:
                    T.RANGES.pop(m, None); T.RESIDUES.pop(m, None)
                    continue
                if r in before and pivots > len(terms) * 3:
                    continue
                n0 += 1
                pivots += 1
                hidden.discard(r)
                new = T.substitute(terms, {r: e})
                terms = [strip(x) for x in new]
                done = True
                break
            if done:
                break
        if not done:
            stat = _statistical(view, terms, bad, secrets, hidden)
            if stat is not None:
                i, k = stat
                view.slack.append(k)
                terms = terms[:i] + [T.const(0, 1)] + terms[i + 1:]
                pivots += 1
                continue
            c = [strip(x) for x in _under(terms)]
            if not all(a is b for a, b in zip(c, terms)):
                terms = c
                continue
            cut = _split_point([terms[i] for i in bad], hidden - set(view.modulus))
            if cut is not None:
                r, k = cut
                n0 += 1
                hi, lo = T.var("view!%d.hi" % n0, r.w - k), T.var("view!%d.lo" % n0, k)
                hidden.discard(r)
                hidden |= {hi, lo}
                terms = [strip(x) for x in T.substitute(terms, {r: T.concat(hi, lo)})]
                budget += 2
                continue
            # products of sums hide cancellations: multiply out once and retry
            c = [strip(x) for x in T.canon(terms)]
            if all(a is b for a, b in zip(c, terms)):
                return False, pivots, labels[bad[0]], terms[bad[0]]
            terms = c


SIGMA = 20   # statistical masks must exceed the masked range by at least this many bits


def _statistical(view, terms, bad, secrets, hidden):
    """a view term  e + r + known  with r uniform on k bits, in no other term, and 0 <= e <= 2^(k-SIGMA) whatever the secrets:
    within 2^-SIGMA of  r + known,  which does not depend on the secrets.  -> (index, log2 of the distance)"""
    from . import solve
    for i in bad:
        t = terms[i]
        if t.op != "lin" or not t.w:
            continue
        coefs = t.val[1]
        for j, a in enumerate(t.args):
            r = a.args[0] if a.op == "zext" else a
            if r not in hidden or coefs[j] not in (1, T.mask(t.w)) or r.w >= t.w:
                continue
            if any(r in T.free_vars(u) for n, u in enumerate(terms) if n != i) or any(r in T.free_vars(b) for n, b in enumerate(t.args) if n != j):
                continue
            e = T.const(t.val[0], t.w)
            for n, b in enumerate(t.args):
                if n != j and T.free_vars(b) & secrets:
                    e = T.add(e, T.scale(b, coefs[n]))
            lim = T.const(1 << max(r.w - SIGMA, 0), t.w)
            ass = [a for a in view.assumptions if T.free_vars(a) <= T.free_vars(e)]
            if solve.prove(ass, T.ule(e, lim), timeout=20).status == "proved":
                return i, SIGMA
            # the sign of the mask does not matter, the range of e may be shifted by a known amount
    return None


def _under(terms):
    """ite branches simplified under their own condition"""
    memo = {}
    for n in T.topo(terms):
        a = [memo[x.id] for x in n.args]
        m = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if m.op == "ite":
            c, x, y = m.args
            cond, pol = (c.args[0], 0) if c.op == "xor" and len(c.args) == 1 and c.val == 1 else (c, 1)
            x2 = T.substitute([x], {cond: T.const(pol, 1)})[0]
            y2 = T.substitute([y], {cond: T.const(1 - pol, 1)})[0]
            if x2 is not x or y2 is not y:
                m = T.ite(c, x2, y2)
        memo[n.id] = m
    return [memo[t.id] for t in terms]


def _split_point(terms, hidden):
    """an unknown word of which some view term uses only some bits: (word, number of low bits to split off)"""
    for n in T.topo(terms):
        if n.op == "trunc" and n.args[0] in hidden:
            return n.args[0], n.w
        if n.op in ("lshr", "ashr") and n.args[0] in hidden:
            return n.args[0], n.val
        if n.op == "shl" and n.args[0] in hidden:
            return n.args[0], n.w - n.val
    return None


def distinguish(view, secrets, assumptions=(), n=400, seed=1):
    """two assignments of the secrets whose views differ in a simple statistic, or None"""
    rng = random.Random(seed)
    terms, labels, seen = [], [], set()
    for l, t in view.terms + [("own", x) for x in sorted(view.known, key=lambda v: str(v.val))]:
        if T.is_const(t) or t.id in seen or t.w == 0:
            continue
        seen.add(t.id)
        terms.append(t); labels.append(l)
    allv = set()
    for t in terms:
        allv |= T.free_vars(t)
    sec = sorted(allv & secrets, key=lambda v: str(v.val))
    rnd = sorted(allv - secrets, key=lambda v: str(v.val))
    if not sec:
        return None
    pairs = []
    byw = {}
    for i, t in enumerate(terms):
        byw.setdefault(t.w, []).append(i)
    for idx in byw.values():
        for a in range(len(idx)):
            for b in range(a):
                pairs.append((idx[a], idx[b]))
    rng.shuffle(pairs)
    pairs = pairs[:3000]

    def feats(vals):
        out = []
        for t, x in zip(terms, vals):
            out.append(x & 1)
            out.append((x >> 1) & 1)
            out.append((x >> (t.w - 1)) & 1)
            out.append((x >> (t.w // 2)) & 1)
            out.append(int(x == 0))
        for a, b in pairs:
            w = terms[a].w
            x = vals[a] ^ vals[b]
            out += [x & 1, int(x == 0)]
            if w > 1:
                y, s = (vals[a] - vals[b]) & T.mask(w), (vals[a] + vals[b]) & T.mask(w)
                out += [(y >> 1) & 1, (y >> (w - 1)) & 1, (y >> (w // 2)) & 1, (s >> 1) & 1, (s >> (w // 2)) & 1, (x >> (w // 2)) & 1]
        return out

    def name(k):
        if k < 5 * len(terms):
            return "%s statistic %d" % (labels[k // 5], k % 5)
        k -= 5 * len(terms)
        for a, b in pairs:
            s = 2 if terms[a].w == 1 else 8
            if k < s:
                return "%s with %s statistic %d" % (labels[a], labels[b], k)
            k -= s
        return "?"
    for att in range(6):
        envs = []
        for _ in range(2):
            e = {}
            for v in sec:
                e[v] = rng.getrandbits(v.w) if att else (0 if _ == 0 else rng.getrandbits(v.w) | 1)
            envs.append(e)
        if envs[0] == envs[1]:
            continue
        sums = []
        for e in envs:
            acc = None
            for _ in range(n):
                full = dict(e)
                for v in rnd:
                    full[v] = rng.getrandbits(v.w)
                f = feats(T.evaluate(terms, full))
                acc = f if acc is None else [a + b for a, b in zip(acc, f)]
            sums.append(acc)
        for k, (a, b) in enumerate(zip(*sums)):
            p = (a + b) / (2 * n)
            var = 2 * p * (1 - p) / n
            if abs(a - b) / n > 0.12 and (var == 0 or abs(a - b) / n > 6.5 * var ** 0.5):
                return dict(secrets=[{str(v.val): x for v, x in e.items()} for e in envs], statistic=name(k),
                            frequencies=[a / n, b / n], draws=n)
    return None
