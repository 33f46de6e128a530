"""Symbolic values shared by the two VC generators.

V   : machine integer of width w, kept in linear normal form  c + sum(k_i * atom_i)  (mod 2^w)
B   : symbolic boolean (python bools are used when concrete)
Atom: an opaque bit-vector term; non-linear operations produce (interned) atoms whose z3 term is the
      defining expression, so nothing is approximated.
"""
import z3


class ToolLimit(Exception):
    """Something outside the supported subset: never a violation, never a proof."""


class Atom:
    __slots__ = ("id", "name", "w", "z", "roots", "region", "op", "args", "align", "maxv")
    _n = 0

    def __init__(self, name, w, z, roots=None, op=None, args=None, region=None, align=1):
        Atom._n += 1
        self.id = Atom._n
        self.name = name
        self.w = w
        self.z = z
        self.roots = roots if roots is not None else frozenset([self])
        self.region = region
        self.op = op
        self.args = args
        self.align = align
        self.maxv = None

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id


class V:
    __slots__ = ("w", "c", "t", "_z")

    def __init__(self, w, c=0, t=()):
        self.w = w
        self.c = c & ((1 << w) - 1)
        self.t = t
        self._z = None

    @property
    def conc(self):
        return not self.t

    def key(self):
        return (self.w, self.c, tuple((a.id, k) for a, k in self.t))

    def z(self):
        if self._z is None:
            if not self.t:
                self._z = z3.BitVecVal(self.c, self.w)
            else:
                e = None
                for a, k in self.t:
                    m = a.z if k == 1 else a.z * z3.BitVecVal(k, self.w)
                    e = m if e is None else e + m
                if self.c:
                    e = e + z3.BitVecVal(self.c, self.w)
                self._z = e
        return self._z

    def roots(self):
        r = frozenset()
        for a, _ in self.t:
            r |= a.roots
        return r

    def signed(self):
        return self.c - (1 << self.w) if self.c >> (self.w - 1) else self.c

    def __repr__(self):
        if not self.t:
            return str(self.signed() if self.w > 8 and self.c >> (self.w - 1) else self.c)
        s = "+".join((a.name if k == 1 else "%d*%s" % (sgn(k, self.w), a.name)) for a, k in self.t)
        if self.c:
            s += "%+d" % sgn(self.c, self.w)
        return s


def sgn(k, w):
    return k - (1 << w) if k >> (w - 1) else k


class B:
    __slots__ = ("e", "roots")

    def __init__(self, e, roots):
        self.e = e
        self.roots = roots

    def __repr__(self):
        return str(self.e)


def bnot(b):
    if isinstance(b, bool):
        return not b
    return B(z3.Not(b.e), b.roots)


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return B(z3.And(a.e, b.e), a.roots | b.roots)


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return B(z3.Or(a.e, b.e), a.roots | b.roots)


def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return bnot(b)
    if b is True:
        return bnot(a)
    return B(z3.Xor(a.e, b.e), a.roots | b.roots)


def bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b.e


def broots(b):
    return frozenset() if isinstance(b, bool) else b.roots


_names = {}
_intern = {}


def reset():
    _names.clear()
    _intern.clear()
    Atom._n = 0


def fresh_name(base):
    n = _names.get(base, 0)
    _names[base] = n + 1
    return base if n == 0 else "%s.%d" % (base, n)


def fresh(base, w, region=None, align=1):
    n = fresh_name(base)
    a = Atom(n, w, z3.BitVec(n, w), region=region, align=align)
    return V(w, 0, ((a, 1),))


def const(w, c):
    return V(w, c)


def atom_of(v):
    """the atom if v is exactly one atom"""
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return v.t[0][0]
    return None


def _mk(op, w, args, z, region=None, align=1):
    k = (op, w) + tuple(a.key() if isinstance(a, V) else (a.e.get_id() if isinstance(a, B) else a) for a in args)
    a = _intern.get(k)
    if a is None:
        roots = frozenset()
        for x in args:
            if isinstance(x, V):
                roots |= x.roots()
            elif isinstance(x, B):
                roots |= x.roots
        a = Atom(fresh_name(op), w, z, roots=roots, op=op, args=args, region=region, align=align)
        _intern[k] = a
    return V(w, 0, ((a, 1),))


def add(x, y):
    w = x.w
    if not y.t:
        return V(w, x.c + y.c, x.t)
    if not x.t:
        return V(w, x.c + y.c, y.t)
    d = dict(x.t)
    m = (1 << w) - 1
    for a, k in y.t:
        n = (d.get(a, 0) + k) & m
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return V(w, x.c + y.c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


def neg(x):
    return mulc(x, -1)


def mulc(x, k):
    m = (1 << x.w) - 1
    k &= m
    if k == 0:
        return V(x.w, 0)
    return V(x.w, x.c * k, tuple((a, n) for a, n in ((a, (q * k) & m) for a, q in x.t) if n))


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if not y.t:
        return mulc(x, y.c)
    if not x.t:
        return mulc(y, x.c)
    if x.key() > y.key():
        x, y = y, x
    return _mk("mul", x.w, (x, y), x.z() * y.z())


def region_of(v):
    """regions whose base (or a pointer derived from it) occurs with coefficient 1"""
    rs = [a.region for a, k in v.t if a.region is not None and k == 1]
    return rs


def lowalign(v):
    """largest power of two (<=4096) that divides v for sure"""
    al = 4096
    for a, k in v.t:
        g = a.align
        while k % 2 == 0 and g < 4096:
            g *= 2
            k //= 2
        al = min(al, g)
    c = v.c
    while al > 1 and c % al:
        al //= 2
    return al


def and_(x, y):
    w = x.w
    full = (1 << w) - 1
    if not x.t and not y.t:
        return V(w, x.c & y.c)
    if not x.t:
        x, y = y, x
    if not y.t:
        m = y.c
        if m == 0:
            return V(w, 0)
        if m == full:
            return x
        # low-bit clearing mask
        lowz = (~m & full)
        if lowz & (lowz + 1) == 0:  # m = 11..100..0
            n = lowz + 1
            if n <= 4096:
                # split constant: alignment of the symbolic part
                sym = V(w, 0, x.t)
                if lowalign(sym) >= n:
                    return V(w, x.c & m, x.t)
            reg = region_of(x)
            return _mk("and", w, (x, y), x.z() & y.z(), region=reg[0] if len(reg) == 1 else None,
                       align=min(n, 4096))
        if m & (m + 1) == 0:  # low mask: x & (2^k-1)
            n = m + 1
            if n <= 4096 and lowalign(V(w, 0, x.t)) >= n:
                return V(w, x.c & m)
            a = atom_of(x)
            if a is not None and a.maxv is not None and a.maxv <= m:
                return x
    elif x.key() > y.key():
        x, y = y, x
    return _mk("and", w, (x, y), x.z() & y.z())


def or_(x, y):
    if not x.t and not y.t:
        return V(x.w, x.c | y.c)
    if not x.t:
        x, y = y, x
    if not y.t and y.c == 0:
        return x
    if x.key() == y.key():
        return x
    return _mk("or", x.w, (x, y), x.z() | y.z())


def xor(x, y):
    if not x.t and not y.t:
        return V(x.w, x.c ^ y.c)
    if x.key() == y.key():
        return V(x.w, 0)
    if not x.t:
        x, y = y, x
    if not y.t and y.c == 0:
        return x
    if not y.t and y.c == (1 << x.w) - 1:
        return sub(V(x.w, -1), x)
    return _mk("xor", x.w, (x, y), x.z() ^ y.z())


def udiv(x, y):
    if not x.t and not y.t and y.c:
        return V(x.w, x.c // y.c)
    if not y.t and y.c and y.c & (y.c - 1) == 0:
        return lshr(x, V(x.w, y.c.bit_length() - 1))
    return _mk("udiv", x.w, (x, y), z3.UDiv(x.z(), y.z()))


def urem(x, y):
    if not x.t and not y.t and y.c:
        return V(x.w, x.c % y.c)
    if not y.t and y.c and y.c & (y.c - 1) == 0:
        return and_(x, V(x.w, y.c - 1))
    return _mk("urem", x.w, (x, y), z3.URem(x.z(), y.z()))


def sdiv(x, y):
    if not x.t and not y.t and y.c:
        a, b = x.signed(), y.signed()
        q = abs(a) // abs(b)
        return V(x.w, q if (a < 0) == (b < 0) else -q)
    return _mk("sdiv", x.w, (x, y), x.z() / y.z())


def srem(x, y):
    if not x.t and not y.t and y.c:
        a, b = x.signed(), y.signed()
        r = abs(a) % abs(b)
        return V(x.w, -r if a < 0 else r)
    return _mk("srem", x.w, (x, y), z3.SRem(x.z(), y.z()))


def shl(x, y):
    if not y.t:
        if y.c >= x.w:
            return V(x.w, 0)
        return mulc(x, 1 << y.c)
    return _mk("shl", x.w, (x, y), x.z() << y.z())


def lshr(x, y):
    if not y.t:
        if y.c == 0:
            return x
        if not x.t:
            return V(x.w, x.c >> y.c if y.c < x.w else 0)
        a = atom_of(x)
        if a is not None and a.op == "mk_lshr_done":
            pass
    r = _mk("lshr", x.w, (x, y), z3.LShR(x.z(), y.z()))
    return r


def ashr(x, y):
    if not y.t and not x.t:
        return V(x.w, x.signed() >> min(y.c, x.w - 1))
    return _mk("ashr", x.w, (x, y), x.z() >> y.z())


def zext(x, w):
    if w == x.w:
        return x
    if not x.t:
        return V(w, x.c)
    v = _mk("zext%d" % w, w, (x,), z3.ZeroExt(w - x.w, x.z()))
    v.t[0][0].maxv = (1 << x.w) - 1
    return v


def sext(x, w):
    if w == x.w:
        return x
    if not x.t:
        return V(w, x.signed())
    return _mk("sext%d" % w, w, (x,), z3.SignExt(w - x.w, x.z()))


def trunc(x, w):
    return extract(x, 0, w)


def extract(x, lo, w):
    """bits [lo, lo+w)"""
    if lo == 0 and w == x.w:
        return x
    if not x.t:
        return V(w, x.c >> lo)
    a = atom_of(x)
    if a is not None and a.op:
        if a.op.startswith("zext") or a.op.startswith("sext"):
            src = a.args[0]
            if lo + w <= src.w:
                return extract(src, lo, w)
        if a.op == "concat":
            # args low..high
            pos = 0
            for p in a.args:
                if lo >= pos and lo + w <= pos + p.w:
                    return extract(p, lo - pos, w)
                pos += p.w
        if a.op == "extract":
            src, l0 = a.args
            return extract(src, l0 + lo, w)
        if a.op == "b2v" and lo == 0:
            return b2v(a.args[0], w)
    return _mk("extract", w, (x, lo), z3.Extract(lo + w - 1, lo, x.z()))


def concat(parts):
    """parts: low to high"""
    if len(parts) == 1:
        return parts[0]
    # merge adjacent extracts of the same value
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if not p.t and not q.t:
                out[-1] = V(p.w + q.w, q.c | (p.c << q.w))
                continue
            a, b = atom_of(q), atom_of(p)
            if a is not None and b is not None and a.op == "extract" and b.op == "extract":
                if a.args[0].key() == b.args[0].key() and a.args[1] + q.w == b.args[1]:
                    out[-1] = extract(a.args[0], a.args[1], q.w + p.w)
                    continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    return _mk("concat", w, tuple(out), z3.Concat(*[p.z() for p in reversed(out)]))


def b2v(b, w):
    if isinstance(b, bool):
        return V(w, int(b))
    v = _mk("b2v", w, (b, w), z3.If(b.e, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    v.t[0][0].maxv = 1
    return v


def v2b(v):
    """lowest bit as boolean"""
    if not v.t:
        return bool(v.c & 1)
    a = atom_of(v)
    if a is not None and a.op == "b2v":
        return a.args[0]
    return B(z3.Extract(0, 0, v.z()) == z3.BitVecVal(1, 1), v.roots())


def ite(b, x, y):
    if isinstance(b, bool):
        return x if b else y
    if x.key() == y.key():
        return x
    return _mk("ite", x.w, (b, x, y), z3.If(b.e, x.z(), y.z()))


def eq(x, y):
    if x.t == y.t:
        return x.c == y.c
    d = sub(x, y)
    if not d.t:
        return d.c == 0
    # b2v compared with constant
    a = atom_of(x)
    if a is not None and a.op == "b2v" and not y.t:
        if y.c == 0:
            return bnot(a.args[0])
        if y.c == 1:
            return a.args[0]
        return False
    if a is not None and a.op and a.op.startswith("zext") and not y.t:
        s = a.args[0]
        if y.c >> s.w:
            return False
        return eq(s, V(s.w, y.c))
    return B(x.z() == y.z(), x.roots() | y.roots())


def ult(x, y):
    if not x.t and not y.t:
        return x.c < y.c
    if x.t == y.t and x.c == y.c:
        return False
    if not y.t and y.c == 0:
        return False
    return B(z3.ULT(x.z(), y.z()), x.roots() | y.roots())


def ule(x, y):
    return bnot(ult(y, x)) if not (not x.t and not y.t) else x.c <= y.c


def slt(x, y):
    if not x.t and not y.t:
        return x.signed() < y.signed()
    if x.t == y.t and x.c == y.c:
        return False
    return B(x.z() < y.z(), x.roots() | y.roots())


def sle(x, y):
    return bnot(slt(y, x)) if not (not x.t and not y.t) else x.signed() <= y.signed()
