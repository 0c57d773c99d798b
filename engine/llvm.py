"""Symbolic execution of LLVM IR: the C++ kernels of /repo/operations, compiled by clang, over words of engine/term.py.

Addresses, sizes and loop counters over shapes are concrete; data are terms.  A branch on data forks the path (env.ORACLE, by
re-execution) unless the path condition decides it.  Every access is checked against the live regions of memory."""
import bisect
import os
import re
import subprocess
from fractions import Fraction

from . import term as T

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class UB(Exception):
    """the kernel did something C++ leaves undefined"""


class CheckFailed(Exception):
    """CHECK: TensorFlow aborts the process"""


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "el", "size", "al", "offs")

    def __init__(self, k, n=0, el=None, size=0, al=1, offs=None):
        self.k, self.n, self.el, self.size, self.al, self.offs = k, n, el, size, al, offs


def _int(n):
    b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    return Ty("i", n, None, b, min(b, 16))


PTR, DBL, FLT, VOID = Ty("p", 64, None, 8, 8), Ty("d", 0, None, 8, 8), Ty("f", 0, None, 4, 4), Ty("v")
TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|%[-\w.$]+|@[-\w.$]+|![-\w.]*|#\d+|"[^"]*"|<\{|\}>|\.\.\.|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-fKMH]+|-?\d+|[A-Za-z_][\w.]*|.)')


class Lex:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %r, found %r in %s" % (x, y, " ".join(self.t)))


ATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "signext", "zeroext", "returned", "noalias", "immarg", "readnone",
        "inbounds", "nuw", "nsw", "exact", "dso_local", "local_unnamed_addr", "unnamed_addr", "linkonce_odr", "internal", "private",
        "weak_odr", "external", "hidden", "volatile", "tail", "musttail", "notail", "fastcc", "mustprogress", "nofree", "allocptr",
        "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "inreg", "noreturn", "swiftself", "dead_on_unwind", "writable", "captures"}


class Module:
    def __init__(self, path):
        self.types, self.glob, self.funcs, self.parsed = {}, {}, {}, {}
        self.typesrc = {}
        cur = None
        for line in open(path):
            if cur is not None:
                if line.startswith("}"):
                    self.funcs[cur[0]] = cur
                    cur = None
                else:
                    cur[2].append(line)
                continue
            if line.startswith("define"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                cur = (m.group(1).strip('"'), line, [])
            elif line.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)', line)
                self.typesrc[m.group(1)] = m.group(2)
            elif line.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', line)
                self.glob[m.group(1).strip('"')] = m.group(2)

    # -- types
    def ty(self, lx):
        t = self._ty(lx)
        while lx.peek() == "*":
            lx.next()
            t = PTR
        return t

    def _ty(self, lx):
        x = lx.next()
        if x == "ptr": return PTR
        if x == "void": return VOID
        if x == "double": return DBL
        if x == "float": return FLT
        if x[0] == "i" and x[1:].isdigit(): return _int(int(x[1:]))
        if x[0] == "%":
            if x not in self.types:
                if self.typesrc.get(x) in (None, "opaque"):
                    return Ty("s", 0, [], 0, 1, [])
                self.types[x] = self.ty(Lex(self.typesrc[x]))
            return self.types[x]
        if x == "[":
            n = int(lx.next()); lx.expect("x"); e = self.ty(lx); lx.expect("]")
            return Ty("a", n, e, n * e.size, e.al)
        if x in ("{", "<{"):
            packed, els = x == "<{", []
            end = "}>" if packed else "}"
            while lx.peek() != end:
                els.append(self.ty(lx)); lx.accept(",")
            lx.next()
            off, offs, al = 0, [], 1
            for e in els:
                a = 1 if packed else e.al
                off = -(-off // a) * a
                offs.append(off); off += e.size; al = max(al, a)
            return Ty("s", len(els), els, -(-off // al) * al, al, offs)
        raise Unsupported("type " + x)

    # -- functions
    def func(self, name):
        f = self.parsed.get(name)
        if f is None:
            if name not in self.funcs:
                return None
            _, head, lines = self.funcs[name]
            f = self.parsed[name] = _Func(self, name, head, lines)
        return f


class _Func:
    def __init__(self, mod, name, head, lines):
        self.name = name
        lx = Lex(head[head.index("("):] if not head.startswith("define") else re.sub(r'^define[^@]*@("[^"]*"|[-\w.$]+)', "", head))
        lx.expect("(")
        self.params, k = [], 0
        depth = 0
        while lx.peek() != ")":
            if lx.peek() == "...":
                lx.next(); continue
            t = mod.ty(lx)
            n = None
            while lx.peek() not in (",", ")") or depth:
                x = lx.next()
                if x == "(": depth += 1
                elif x == ")": depth -= 1
                elif x[0] == "%" and not depth: n = x
            lx.accept(",")
            self.params.append((t, n if n is not None else "%%%d" % k))
            k += 1
        self.blocks, lab = {}, "%" + str(len(self.params))
        self.entry = None
        cur = []
        for line in _join(lines):
            m = re.match(r'^("[^"]*"|[-\w.$]+):', line)
            if m:
                if cur or self.entry is None and not m:
                    self.blocks[lab] = cur
                if self.entry is None and cur: self.entry = lab
                lab, cur = "%" + m.group(1), []
                if self.entry is None: self.entry = lab
                continue
            s = line.strip()
            if not s or s.startswith(";"):
                continue
            if self.entry is None: self.entry = lab
            cur.append(s)
        self.blocks[lab] = cur
        self.code = {}
        self.mod = mod

    def block(self, lab):
        b = self.code.get(lab)
        if b is None:
            b = self.code[lab] = [_parse(self.mod, s) for s in self.blocks[lab]]
        return b


def _join(lines):
    out, acc = [], None
    for l in lines:
        if acc is not None:
            acc += " " + l.strip()
            if l.strip() == "]" or l.strip().startswith("], !"):
                out.append(acc); acc = None
        elif l.lstrip().startswith("switch ") and l.rstrip().endswith("["):
            acc = l.rstrip()
        else:
            out.append(l)
    return out


def _skip(lx):
    while True:
        x = lx.peek()
        if x in ATTR:
            lx.next()
        elif x in ("align",):
            lx.next(); lx.next()
        elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "memory", "range", "inrange", "captures", "allocsize", "elementtype"):
            lx.next()
            if lx.peek() == "(":
                d = 0
                while True:
                    y = lx.next()
                    d += y == "("
                    d -= y == ")"
                    if not d: break
        else:
            return


BIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "fadd", "fsub", "fmul", "fdiv"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "freeze", "fpext", "fptrunc"}


def _operand(mod, lx, ty):
    """-> ('r', name) | ('c', value) | ('g', name) | ('e', ...) | ('u',)"""
    _skip(lx)
    x = lx.next()
    if x[0] == "%": return ("r", x)
    if x[0] == "@": return ("g", x[1:].strip('"'))
    if x in ("null", "zeroinitializer"): return ("c", 0)
    if x == "true": return ("c", 1)
    if x == "false": return ("c", 0)
    if x in ("undef", "poison"): return ("u",)
    if x == "getelementptr":
        _skip(lx); lx.expect("(")
        t = mod.ty(lx); lx.expect(",")
        args = []
        while True:
            _skip(lx)
            if lx.peek() == "inrange": lx.next()
            at = mod.ty(lx)
            args.append((at, _operand(mod, lx, at)))
            if not lx.accept(","): break
        lx.expect(")")
        return ("e", t, args)
    if ty.k in "df":
        if x.startswith("0x"):
            import struct
            return ("c", Fraction(struct.unpack(">d", int(x[2:], 16).to_bytes(8, "big"))[0]))
        return ("c", Fraction(float(x)))
    if re.fullmatch(r"-?\d+", x): return ("c", int(x) & ((1 << ty.n) - 1))
    raise Unsupported("operand %s in %s" % (x, " ".join(lx.t)))


def _parse(mod, s):
    s = re.sub(r", ![-\w.]+ ![-\w.]+", "", s)
    lx = Lex(s)
    dst = None
    if lx.peek(1) == "=":
        dst = lx.next(); lx.next()
    _skip(lx)
    op = lx.next()
    if op == "call":
        while True:
            n = lx.i
            _skip(lx)
            if lx.i == n: break
        rt = mod.ty(lx)
        if lx.peek() == "(":      # function type of a variadic or indirect call
            d = 0
            while True:
                y = lx.next()
                d += y == "("
                d -= y == ")"
                if not d: break
        if lx.peek() == "asm":
            return ("asm", dst, rt)
        callee = _operand(mod, lx, PTR)
        lx.expect("(")
        args = []
        while lx.peek() != ")":
            if lx.peek() == "metadata":
                return ("nop",)
            t = mod.ty(lx)
            args.append((t, _operand(mod, lx, t)))
            lx.accept(",")
        return ("call", dst, rt, callee, args)
    if op in BIN:
        while lx.peek() in ATTR: lx.next()
        t = mod.ty(lx); a = _operand(mod, lx, t); lx.expect(",")
        return ("bin", dst, op, t, a, _operand(mod, lx, t))
    if op in ("icmp", "fcmp"):
        while lx.peek() in ATTR: lx.next()
        p = lx.next(); t = mod.ty(lx); a = _operand(mod, lx, t); lx.expect(",")
        return (op, dst, p, t, a, _operand(mod, lx, t))
    if op in CAST:
        while lx.peek() in ATTR: lx.next()
        t = mod.ty(lx); a = _operand(mod, lx, t)
        if op == "freeze": return ("cast", dst, op, t, a, t)
        lx.expect("to")
        return ("cast", dst, op, t, a, mod.ty(lx))
    if op == "br":
        if lx.accept("label"): return ("jmp", lx.next())
        mod.ty(lx); c = _operand(mod, lx, _int(1)); lx.expect(","); lx.expect("label"); a = lx.next(); lx.expect(","); lx.expect("label")
        return ("br", c, a, lx.next())
    if op == "switch":
        t = mod.ty(lx); v = _operand(mod, lx, t); lx.expect(","); lx.expect("label"); d = lx.next(); lx.expect("[")
        cs = []
        while lx.peek() != "]":
            mod.ty(lx); k = int(lx.next()) & ((1 << t.n) - 1); lx.expect(","); lx.expect("label"); cs.append((k, lx.next()))
        return ("switch", v, t, d, cs)
    if op == "phi":
        t = mod.ty(lx)
        inc = {}
        while True:
            lx.expect("["); v = _operand(mod, lx, t); lx.expect(","); inc[lx.next()] = v; lx.expect("]")
            if not lx.accept(","): break
        return ("phi", dst, t, inc)
    if op == "select":
        mod.ty(lx); c = _operand(mod, lx, _int(1)); lx.expect(","); t = mod.ty(lx); a = _operand(mod, lx, t); lx.expect(","); mod.ty(lx)
        return ("select", dst, t, c, a, _operand(mod, lx, t))
    if op == "load":
        while lx.peek() in ATTR or lx.peek() == "atomic": lx.next()
        t = mod.ty(lx); lx.expect(","); mod.ty(lx)
        return ("load", dst, t, _operand(mod, lx, PTR))
    if op == "store":
        while lx.peek() in ATTR or lx.peek() == "atomic": lx.next()
        t = mod.ty(lx); v = _operand(mod, lx, t); lx.expect(","); mod.ty(lx)
        return ("store", t, v, _operand(mod, lx, PTR))
    if op == "alloca":
        t = mod.ty(lx)
        n = ("c", 1)
        if lx.accept(","):
            if lx.peek() != "align":
                nt = mod.ty(lx); n = _operand(mod, lx, nt)
        return ("alloca", dst, t, n)
    if op == "getelementptr":
        while lx.peek() in ATTR: lx.next()
        t = mod.ty(lx); lx.expect(",")
        args = []
        while True:
            at = mod.ty(lx); args.append((at, _operand(mod, lx, at)))
            if not lx.accept(","): break
        return ("gep", dst, t, args)
    if op == "ret":
        t = mod.ty(lx)
        return ("ret", None if t.k == "v" else _operand(mod, lx, t), t)
    if op == "unreachable": return ("unreachable",)
    if op == "atomicrmw":
        lx.accept("volatile")
        o = lx.next(); mod.ty(lx); p = _operand(mod, lx, PTR); lx.expect(","); t = mod.ty(lx)
        return ("rmw", dst, o, p, t, _operand(mod, lx, t))
    if op in ("extractvalue", "insertvalue"):
        t = mod.ty(lx); a = _operand(mod, lx, t); lx.expect(",")
        if op == "extractvalue": return (op, dst, t, a, int(lx.next()))
        vt = mod.ty(lx); v = _operand(mod, lx, vt); lx.expect(",")
        return (op, dst, t, a, v, int(lx.next()))
    if op == "fence": return ("nop",)
    raise Unsupported("instruction " + s)


# ------------------------------------------------------------------ values: int (concrete) | Fraction (concrete real) | Node | None (undefined)
def _n(v, w):
    if isinstance(v, T.Node): return v
    if isinstance(v, Fraction): return T.const(v, 0)
    if v is None: raise UB("an uninitialised value is used")
    return T.const(v & T.mask(w), w) if w else T.const(v, 0)


def _v(n):
    return n.val if T.is_const(n) and n.w else (Fraction(n.val) if T.is_const(n) else n)


def _sg(v, w): return v - (1 << w) if v >> (w - 1) else v


def _limbs(op, a, b):
    """128-bit words taken apart into two limbs and put together again, in sums: (hi << 64) + lo with hi << 64 = x - (x mod 2^64)
    for hi the upper limb of x; None where the operands are not of that form"""
    if op == "and":
        if T.is_const(a): a, b = b, a
        return T.zext(T.trunc(a, 64), 128) if T.is_const(b) and b.val == M64 else None
    if b.op == "shl": a, b = b, a
    if not (a.op == "shl" and a.val == 64 and a.args[0].op == "zext" and a.args[0].args[0].w == 64): return None
    if b.op != "zext" and not (b.op == "and" and T.is_const(b.args[1]) and b.args[1].val <= M64): return None
    c, d = T.lin_parts(a.args[0].args[0])
    out = [T.const(c << 64, 128)]
    for t, k in d.items():
        x = T._unhi(t, 64)
        if x is None or x.w != 128: return None
        out += [T.scale(x, k), T.scale(T.zext(T.trunc(x, 64), 128), -k)]
    return T.add(*out, b)


class Machine:
    def __init__(self, mod, decide, external, budget=3000000):
        self.mod, self.decide, self.external = mod, decide, external
        self.mem, self.starts, self.sizes = {}, [], {}
        self.top, self.gaddr, self.fadr, self.addrf = 1 << 20, {}, {}, {}
        self.steps, self.budget = 0, budget
        self.entered = set()

    # -- memory
    def alloc(self, n, al=16):
        a = self.top
        self.top = (a + max(n, 1) + 64 + 15) // 16 * 16
        self.starts.append(a); self.sizes[a] = n
        return a

    def _region(self, a, n):
        if isinstance(a, T.Node) or a is None: raise Unsupported("a data-dependent address")
        i = bisect.bisect_right(self.starts, a) - 1
        if i < 0 or a + n > self.starts[i] + self.sizes[self.starts[i]]:
            raise UB("memory access of %d bytes outside every object" % n)

    def store(self, a, v, n):
        self._region(a, n)
        cell = (v, n)
        for k in range(n): self.mem[a + k] = (cell, k)

    def load(self, a, n, real=False):
        self._region(a, n)
        mem = self.mem
        first = mem.get(a)
        if first is not None and first[1] == 0 and first[0][1] == n:
            c = first[0]
            if all(mem.get(a + k, (None,))[0] is c for k in range(1, n)):
                v = c[0]
                if isinstance(v, (Fraction,)) and not real or isinstance(v, T.Node) and v.w == 0 and not real:
                    raise Unsupported("the bits of a floating-point number")
                return v
        parts, conc = [], 0
        for k in range(n):
            c = mem.get(a + k)
            if c is None: return None
            (v, m), o = c
            if v is None: return None
            if isinstance(v, Fraction): raise Unsupported("the bits of a floating-point number")
            if isinstance(v, T.Node):
                if v.w == 0: raise Unsupported("the bits of a floating-point number")
                if v.w < 8 * m: v = T.zext(v, 8 * m)
                if parts is not None and parts and parts[-1][0] is v and parts[-1][2] == o: parts[-1] = (v, parts[-1][1], o + 1)
                else: parts.append((v, o, o + 1))
            else:
                b = T.const(v >> (8 * o) & 255, 8)
                parts.append((b, 0, 1))
        r = None
        for v, o, e in parts:
            x = T.trunc(T.lshr(v, 8 * o), 8 * (e - o)) if 8 * (e - o) < v.w else v
            r = x if r is None else T.concat(x, r)
        return _v(r)

    def copy(self, d, s, n):
        if n == 0: return
        self._region(d, n); self._region(s, n)
        got = [self.mem.get(s + k) for k in range(n)]
        cells = {}
        for k, c in enumerate(got):
            if c is None: self.mem.pop(d + k, None)
            else: self.mem[d + k] = (cells.setdefault((id(c[0]), k - c[1]), c[0]), c[1])

    # -- globals and functions as addresses
    def gaddr_of(self, g):
        if g in self.gaddr: return self.gaddr[g]
        if g in self.mod.funcs or g not in self.mod.glob:
            a = self.alloc(1)
            self.gaddr[g] = a; self.addrf[a] = g
            return a
        src = self.mod.glob[g]
        lx = Lex(src)
        while lx.peek() not in ("global", "constant"):
            lx.next()
        ext = "external" in src.split("global")[0].split("constant")[0]
        lx.next()
        t = self.mod.ty(lx)
        a = self.gaddr[g] = self.alloc(t.size)
        if not ext: self._init(a, t, lx)
        return a

    def _init(self, a, t, lx):
        x = lx.peek()
        if x == "zeroinitializer":
            lx.next()
            for k in range(t.size): self.mem[a + k] = ((0, 1), 0)
            return
        if x in ("undef", "poison"):
            lx.next(); return
        if t.k == "a":
            if x.startswith('c"'):
                raw = lx.next()[2:-1]
                b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), raw)
                for k, c in enumerate(b): self.mem[a + k] = ((ord(c), 1), 0)
                return
            lx.expect("[")
            for k in range(t.n):
                self.mod.ty(lx); self._init(a + k * t.el.size, t.el, lx); lx.accept(",")
            lx.expect("]")
            return
        if t.k == "s":
            e = lx.next()
            for k in range(t.n):
                self.mod.ty(lx); self._init(a + t.offs[k], t.el[k], lx); lx.accept(",")
            lx.next()
            return
        self.store(a, self.val(_operand(self.mod, lx, t), {}), t.size)

    def val(self, o, env):
        k = o[0]
        if k == "r": return env[o[1]]
        if k == "c": return o[1]
        if k == "g": return self.gaddr_of(o[1])
        if k == "u": return None
        return self.gep(o[1], [(t, self.val(x, env)) for t, x in o[2]])

    def gep(self, t, args):
        a = args[0][1]
        if not isinstance(a, int): raise Unsupported("a data-dependent address")
        for j, (it, i) in enumerate(args[1:]):
            if isinstance(i, T.Node) or i is None: raise Unsupported("a data-dependent index")
            i = _sg(i, it.n)
            if j == 0: a += i * t.size
            elif t.k == "a": t = t.el; a += i * t.size
            elif t.k == "s": a += t.offs[i]; t = t.el[i]
            else: raise Unsupported("getelementptr")
        return a & M64

    # -- arithmetic
    def binop(self, op, t, a, b):
        if op[0] == "f":
            a, b = _n(a, 0), _n(b, 0)
            return _v({"fadd": T.add, "fsub": T.sub, "fmul": T.mul, "fdiv": T.rdiv}[op](a, b))
        w = t.n
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w: raise UB("shift by %d of a %d-bit word" % (b, w))
                if isinstance(a, int):
                    return (a << b) & T.mask(w) if op == "shl" else a >> b if op == "lshr" else (_sg(a, w) >> b) & T.mask(w)
                return _v({"shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}[op](_n(a, w), b))
            self.poison = getattr(self, "poison", 0) + 1     # shifting by the width or more: no defined value
            return _v(T.ite(T.ult(_n(b, w), T.const(w, w)), T.vshift(op, _n(a, w), _n(b, w)), T.var("undefined%d" % self.poison, w)))
        if isinstance(a, int) and isinstance(b, int):
            m = T.mask(w)
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return (a * b) & m
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if b == 0: raise UB("division by zero")
            if op == "udiv": return a // b
            if op == "urem": return a % b
            x, y = _sg(a, w), _sg(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q & m if op == "sdiv" else (x - q * y) & m
        a, b = _n(a, w), _n(b, w)
        if w == 128 and op in ("or", "and"):
            r = _limbs(op, a, b)
            if r is not None: return _v(r)
        if op in ("udiv", "urem", "sdiv", "srem") and not T.is_const(b) and self.decide(T.eq(b, T.const(0, w))): raise UB("division by zero")
        if op in ("udiv", "urem"): return _v(T.divop(op, a, b))
        if op == "sdiv": return _v(T.divop("truncdiv", a, b))
        if op == "srem": return _v(T.sub(a, T.mul(b, T.divop("truncdiv", a, b))))
        return _v({"add": T.add, "sub": T.sub, "mul": T.mul, "and": T.band, "or": T.bor, "xor": T.xor}[op](a, b))

    def icmp(self, p, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s": a, b = _sg(a, w), _sg(b, w)
            r = {"eq": a == b, "ne": a != b}.get(p)
            if r is None: r = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]
            return int(r)
        a, b = _n(a, w), _n(b, w)
        if p == "eq": return _v(T.eq(a, b))
        if p == "ne": return _v(T.bnot(T.eq(a, b)))
        lt, le = (T.slt, T.sle) if p[0] == "s" else (T.ult, T.ule)
        return _v({"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[p[1:]])

    def cast(self, op, t, a, u):
        if op in ("freeze", "bitcast", "fpext", "fptrunc"): return a
        if op == "ptrtoint" or op == "inttoptr":
            return a if a is None else a & T.mask(u.n)
        if op == "sitofp" or op == "uitofp":
            if isinstance(a, int): return Fraction(_sg(a, t.n) if op[0] == "s" else a)
            return _v(T.i2r(_n(a, t.n), op[0] == "s"))
        if op == "fptosi" or op == "fptoui":
            return _v(T.r2i(_n(a, 0), u.n))
        if a is None: return None
        if isinstance(a, int):
            if op == "sext": return _sg(a, t.n) & T.mask(u.n)
            return a & T.mask(u.n)
        return _v({"zext": T.zext, "sext": T.sext, "trunc": T.trunc}[op](a, u.n))

    # -- execution
    def call(self, name, args):
        if name.startswith("llvm."):
            return self.intrinsic(name, args)
        f = self.mod.func(name)
        if f is None:
            return self.external(self, name, args)
        self.entered.add(name)
        env = dict(zip((n for _, n in f.params), args))
        lab, prev = f.entry, None
        val = self.val
        while True:
            code = f.block(lab)
            i = 0
            if code[0][0] == "phi":
                new = []
                while code[i][0] == "phi":
                    new.append((code[i][1], val(code[i][3][prev], env))); i += 1
                for d, v in new: env[d] = v
            nxt = None
            self.steps += len(code)
            if self.steps > self.budget: raise Unsupported("the kernel does not finish within %d steps" % self.budget)
            for ins in code[i:]:
                k = ins[0]
                if k == "bin": env[ins[1]] = self.binop(ins[2], ins[3], val(ins[4], env), val(ins[5], env))
                elif k == "load":
                    t = ins[2]
                    v = self.load(val(ins[3], env), t.size, t.k in "df") if t.k not in "as" else self.load_agg(val(ins[3], env), t)
                    if t.k == "i" and t.n < 8 * t.size and v is not None: v = v & T.mask(t.n) if isinstance(v, int) else _v(T.trunc(v, t.n))
                    env[ins[1]] = v
                elif k == "store":
                    t, v = ins[1], val(ins[2], env)
                    if t.k in "as": self.store_agg(val(ins[3], env), t, v)
                    else:
                        if isinstance(v, T.Node) and v.w and v.w < 8 * t.size: v = T.zext(v, 8 * t.size)
                        self.store(val(ins[3], env), v, t.size)
                elif k == "gep": env[ins[1]] = self.gep(ins[2], [(t, val(x, env)) for t, x in ins[3]])
                elif k == "icmp": env[ins[1]] = self.icmp(ins[2], ins[3].n, val(ins[4], env), val(ins[5], env))
                elif k == "cast": env[ins[1]] = self.cast(ins[2], ins[3], val(ins[4], env), ins[5])
                elif k == "br":
                    c = val(ins[1], env)
                    if c is None: raise UB("a branch on an uninitialised value")
                    if isinstance(c, T.Node): c = self.decide(c)
                    nxt = ins[2] if c else ins[3]
                elif k == "jmp": nxt = ins[1]
                elif k == "select":
                    c = val(ins[3], env)
                    a, b = val(ins[4], env), val(ins[5], env)
                    if isinstance(c, T.Node):
                        w = ins[2].n if ins[2].k == "i" else 0
                        if ins[2].k == "p": env[ins[1]] = a if self.decide(c) else b
                        else: env[ins[1]] = _v(T.ite(c, _n(a, w), _n(b, w)))
                    else: env[ins[1]] = a if c else b
                elif k == "call":
                    o = ins[3]
                    a = [val(x, env) for _, x in ins[4]]
                    if o[0] == "g": r = self.call(o[1], a)
                    else:
                        p = val(o, env)
                        if p not in self.addrf: raise UB("a call through a bad pointer")
                        r = self.call(self.addrf[p], a)
                    if ins[1] is not None: env[ins[1]] = r
                elif k == "alloca":
                    n = val(ins[3], env)
                    env[ins[1]] = self.alloc(ins[2].size * n)
                elif k == "ret": return None if ins[1] is None else val(ins[1], env)
                elif k == "switch":
                    v = val(ins[1], env)
                    nxt = ins[3]
                    for c, l in ins[4]:
                        e = self.icmp("eq", ins[2].n, v, c)
                        if isinstance(e, T.Node): e = self.decide(e)
                        if e:
                            nxt = l
                            break
                elif k == "rmw":
                    p = val(ins[3], env)
                    old = self.load(p, ins[4].size)
                    env[ins[1]] = old
                    self.store(p, val(ins[5], env) if ins[2] == "xchg" else self.binop(ins[2], ins[4], old, val(ins[5], env)), ins[4].size)
                elif k == "extractvalue":
                    v = val(ins[3], env)
                    env[ins[1]] = None if v is None else v[ins[4]]
                elif k == "insertvalue":
                    v = val(ins[3], env)
                    v = [None] * ins[2].n if v is None else list(v)
                    v[ins[5]] = val(ins[4], env)
                    env[ins[1]] = v
                elif k == "unreachable": raise UB("unreachable code is reached")
                elif k == "nop": pass
                elif k == "asm":     # Eigen: scheduling markers and cpuid (cache sizes, which decide blocking only)
                    if ins[1] is not None: env[ins[1]] = [0] * ins[2].n
                else: raise Unsupported(k)
            prev, lab = lab, nxt

    def load_agg(self, a, t):
        if t.k == "a": return [self.load(a + k * t.el.size, t.el.size) for k in range(t.n)]
        return [self.load(a + o, e.size, e.k in "df") for o, e in zip(t.offs, t.el)]

    def store_agg(self, a, t, v):
        for k in range(t.n):
            e = t.el if t.k == "a" else t.el[k]
            x = 0 if v == 0 else None if v is None else v[k]
            self.store(a + (k * e.size if t.k == "a" else t.offs[k]), x, e.size)

    def intrinsic(self, name, a):
        p = name.split(".")
        k = p[1]
        if k in ("lifetime", "assume", "prefetch", "experimental", "dbg", "noalias"): return None
        if k in ("memcpy", "memmove"): return self.copy(a[0], a[1], a[2])
        if k == "memset":
            if a[2]: self._region(a[0], a[2])
            for j in range(a[2]): self.mem[a[0] + j] = ((a[1], 1), 0)
            return None
        if k in ("smax", "smin", "umax", "umin"):
            w = int(p[-1][1:])
            lt = self.icmp(k[0] + "lt", w, a[0], a[1])
            if k[1:] == "max": a = [a[1], a[0]]
            if isinstance(lt, T.Node): return _v(T.ite(lt, _n(a[0], w), _n(a[1], w)))
            return a[0] if lt else a[1]
        if k == "abs":
            w = int(p[-1][1:])
            if isinstance(a[0], int): return abs(_sg(a[0], w)) & T.mask(w)
            return _v(T.ite(T.slt(a[0], T.const(0, w)), T.neg(a[0]), a[0]))
        if k == "bitreverse": return _v(T.bitrev(_n(a[0], int(p[-1][1:]))))
        if k == "bswap":
            w = int(p[-1][1:])
            return _v(T.bits_select(_n(a[0], w), [8 * (w // 8 - 1 - i // 8) + i % 8 for i in range(w)], w))
        if k in ("fshl", "fshr"):
            w = int(p[-1][1:])
            if not isinstance(a[2], int): raise Unsupported(name)
            s = a[2] % w
            x, y = _n(a[0], w), _n(a[1], w)
            if k == "fshl": return _v(T.bor(T.shl(x, s), T.lshr(y, w - s)) if s else x)
            return _v(T.bor(T.shl(x, w - s), T.lshr(y, s)) if s else y)
        if k == "ctlz" and isinstance(a[0], int):
            return int(p[-1][1:]) - a[0].bit_length()
        if k in ("cttz", "ctpop") and isinstance(a[0], int):
            return bin(a[0]).count("1") if k == "ctpop" else (a[0] & -a[0]).bit_length() - 1 if a[0] else int(p[-1][1:])
        if k in ("umul", "smul", "uadd", "sadd", "usub", "ssub") and all(isinstance(x, int) for x in a[:2]):
            w = int(p[-1][1:])
            x, y = a[0], a[1]
            if k[0] == "s": x, y = _sg(x, w), _sg(y, w)
            r = {"mul": x * y, "add": x + y, "sub": x - y}[k[1:]]
            ok = -(1 << (w - 1)) <= r < 1 << (w - 1) if k[0] == "s" else 0 <= r <= T.mask(w)
            return [r & T.mask(w), int(not ok)]
        if k == "trap": raise UB("trap")
        raise Unsupported(name)


# ------------------------------------------------------------------ compilation of /repo's kernels
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = {"aux": ["aux/aux_kernels.cc"], "secure_random": ["secure_random/secure_random.cc"],
           "tf_i128": ["tf_i128/int128_tensor.cc", "tf_i128/int128_kernels.cc"]}
FLAGS = ["-std=gnu++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-exceptions", "-fno-rtti",
         "-fno-threadsafe-statics", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-w"]


def compile_ir(name, scratch, include, repo="/repo"):
    src = os.path.join(scratch, name + ".cc")
    out = os.path.join(scratch, name + ".ll")
    os.makedirs(os.path.join(scratch, "inc", "unsupported"), exist_ok=True)
    for d in ("Eigen", "unsupported/Eigen"):
        link = os.path.join(scratch, "inc", d)
        if not os.path.islink(link):
            os.symlink(os.path.join(include, d), link)
    with open(src, "w") as f:
        f.write("#include <new>\n#include \"vf_tf.h\"\n")
        if name == "tf_i128":
            # clang rejects the mode attribute in the alias the sources use for gcc; their own __APPLE__ alias names the same 128-bit type
            f.write('#include <mutex>\n#include <exception>\n#include "unsupported/Eigen/CXX11/Tensor"\n#include "Eigen/Core"\n#include "Eigen/Dense"\n'
                    '#define __APPLE__ 1\n#include "%s/operations/tf_i128/int128_tensor.h"\n#undef __APPLE__\n' % repo)
        for s in SOURCES[name]:
            f.write('#include "%s/operations/%s"\n' % (repo, s))
    r = subprocess.run(["clang++-18"] + FLAGS + ["-I" + os.path.join(VERIF, "native", "stub"), "-isystem", os.path.join(scratch, "inc"),
                                                "-S", "-emit-llvm", src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[:1500])
    return out
