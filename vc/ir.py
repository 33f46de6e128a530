"""Parser for the textual LLVM IR emitted by clang 18 (-O0).  Function bodies are parsed on first use."""
import os
import re
from .values import ToolLimit

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 | [%@$!\#]"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@!\#$][-a-zA-Z$._0-9]+
 | \.\.\.
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+
 | [a-zA-Z_][\w.]*
 | [=,()\[\]{}<>*!|:]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


I1 = ("i", 1)
PTR = ("ptr",)
VOID = ("void",)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise ToolLimit("IR parse: expected %s got %s in %s" % (x, self.peek(), " ".join(self.t)[:200]))

    def done(self):
        return self.i >= len(self.t)


FPT = {"half", "bfloat", "float", "double", "x86_fp80", "fp128", "ppc_fp128"}


def parse_type(p):
    t = p.next()
    if t == "ptr":
        if p.peek() == "addrspace":
            p.next(); p.next(); p.next(); p.next()
        ty = PTR
    elif re.match(r"^i\d+$", t):
        ty = ("i", int(t[1:]))
    elif t == "void":
        ty = VOID
    elif t in FPT:
        ty = ("fp", t)
    elif t == "[":
        n = int(p.next())
        p.expect("x")
        e = parse_type(p)
        p.expect("]")
        ty = ("arr", n, e)
    elif t == "{":
        ty = ("struct", tuple(_tylist(p, "}")), False)
    elif t == "<":
        if p.peek() == "{":
            p.next()
            l = _tylist(p, "}")
            p.expect(">")
            ty = ("struct", tuple(l), True)
        else:
            n = int(p.next())
            p.expect("x")
            e = parse_type(p)
            p.expect(">")
            ty = ("vec", n, e)
    elif t[0] == "%":
        ty = ("named", unq(t))
    elif t in ("label", "metadata", "token", "opaque"):
        ty = (t,)
    else:
        raise ToolLimit("IR type %s" % t)
    # function type suffix
    while p.peek() == "(" and ty[0] != "label":
        # only in call instructions with explicit function type
        save = p.i
        p.next()
        args = []
        va = False
        ok = True
        while not p.eat(")"):
            if p.eat("..."):
                va = True
            elif p.eat(","):
                pass
            else:
                try:
                    args.append(parse_type(p))
                except ToolLimit:
                    ok = False
                    break
                if p.peek() not in (",", ")"):
                    ok = False
                    break
        if not ok:
            p.i = save
            break
        ty = ("func", ty, tuple(args), va)
    return ty


def _tylist(p, close):
    out = []
    while not p.eat(close):
        if p.eat(","):
            continue
        out.append(parse_type(p))
    return out


def unq(n):
    """strip sigil and quotes"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), n)
    return n


def cstr(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


CASTS = {"bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"}
BINS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}


def parse_val(p, ty):
    t = p.next()
    c = t[0]
    if c == "%":
        return ("loc", unq(t))
    if c == "@":
        return ("glob", unq(t))
    if t == "null" or t == "none":
        return ("int", 0)
    if t == "true":
        return ("int", 1)
    if t == "false":
        return ("int", 0)
    if t in ("undef", "poison"):
        return ("undef",)
    if t == "zeroinitializer":
        return ("zero",)
    if t.startswith('c"'):
        return ("str", cstr(t))
    if ty[0] == "fp":
        return ("fp", t)
    if re.match(r"^-?\d+$", t):
        return ("int", int(t))
    if t == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            p.next()
            if p.peek() == "(" and p.t[p.i - 1] == "inrange":
                while p.next() != ")":
                    pass
        p.expect("(")
        bt = parse_type(p)
        ops = []
        while not p.eat(")"):
            if p.eat(","):
                continue
            p.eat("inrange")
            et = parse_type(p)
            ops.append((et, parse_val(p, et)))
        return ("gep", bt, ops)
    if t in CASTS:
        p.expect("(")
        ft = parse_type(p)
        v = parse_val(p, ft)
        p.expect("to")
        tt = parse_type(p)
        p.expect(")")
        return ("cast", t, ft, v, tt)
    if t in BINS:
        while p.peek() in ("nuw", "nsw", "exact"):
            p.next()
        p.expect("(")
        at = parse_type(p)
        a = parse_val(p, at)
        p.expect(",")
        bt = parse_type(p)
        b = parse_val(p, bt)
        p.expect(")")
        return ("bin", t, at, a, b)
    if t in ("{", "[", "<"):
        packed = False
        if t == "<" and p.peek() == "{":
            p.next()
            packed = True
            close = "}"
        else:
            close = {"{": "}", "[": "]", "<": ">"}[t]
        out = []
        while not p.eat(close):
            if p.eat(","):
                continue
            et = parse_type(p)
            out.append((et, parse_val(p, et)))
        if packed:
            p.expect(">")
        return ("agg", out)
    if t in ("dso_local_equivalent", "no_cfi"):
        return parse_val(p, ty)
    raise ToolLimit("IR value %s" % t)


PATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "preallocated", "inalloca",
               "captures", "range", "elementtype", "initializes", "nofpclass", "allocsize", "memory", "allockind",
               "vscale_range", "uwtable"}


def parse_pattrs(p):
    """parameter/return attributes; returns dict with sret/byval types"""
    d = {}
    while True:
        t = p.peek()
        if t is None:
            break
        if t == "align":
            p.next()
            if p.peek() == "(":
                p.next(); d["align"] = int(p.next()); p.expect(")")
            else:
                d["align"] = int(p.next())
        elif t in ("sret", "byval") and p.peek(1) == "(":
            p.next(); p.next()
            d[t] = parse_type(p)
            p.expect(")")
        elif t in PATTR_PAREN and p.peek(1) == "(":
            p.next(); p.next()
            depth = 1
            while depth:
                x = p.next()
                depth += (x == "(") - (x == ")")
        elif re.match(r"^[a-z_]+$", t) and t not in ("void", "ptr", "null", "true", "false", "undef", "poison", "none",
                                                     "zeroinitializer", "getelementptr", "label", "float", "double",
                                                     "metadata", "half") \
                and t not in CASTS and t not in BINS and not re.match(r"^i\d+$", t):
            p.next()
        else:
            break
    return d


class Instr:
    __slots__ = ("op", "res", "a", "dbg", "text")

    def __init__(self, op, res, a, dbg, text):
        self.op, self.res, self.a, self.dbg, self.text = op, res, a, dbg, text


class Func:
    def __init__(self, name, ret, params, va, defined, attrs):
        self.name, self.ret, self.params, self.va, self.defined = name, ret, params, va, defined
        self.attrs = attrs
        self.lines = []
        self.blocks = None
        self.entry = None
        self.dbg = None


class Global:
    def __init__(self, name, ty, init, const, tls, ext):
        self.name, self.ty, self.init, self.const, self.tls, self.ext = name, ty, init, const, tls, ext


LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
        "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default", "hidden", "protected",
        "dllimport", "dllexport", "unnamed_addr", "local_unnamed_addr", "externally_initialized", "thread_local"}
CC = {"ccc", "fastcc", "coldcc", "cxx_fast_tlscc", "swiftcc"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.meta = {}
        self._size = {}
        self._loc = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ";":
                i += 1
                continue
            if ln[0] == "%" and " = type " in ln:
                nm, _, rest = ln.partition(" = type ")
                self.types[unq(nm)] = None if rest.strip() == "opaque" else rest
            elif ln[0] == "@":
                self._global(ln)
            elif ln.startswith("define "):
                f = self._header(ln, True)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif ln.startswith("declare "):
                f = self._header(ln, False)
                self.funcs.setdefault(f.name, f)
            elif ln[0] == "!":
                m = re.match(r"^!(\d+) = (.*)$", ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1
        for k, v in list(self.types.items()):
            if isinstance(v, str):
                self.types[k] = parse_type(P(tokenize(v)))

    def _global(self, ln):
        ln = re.sub(r", !dbg !\d+", "", ln)
        if " alias " in ln:
            m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = .*?alias .*, ptr (@(?:"[^"]*"|[-\w$.]+))', ln)
            if not m:
                raise ToolLimit("alias: " + ln[:200])
            self.aliases[unq(m.group(1))] = unq(m.group(2))
            return
        nm, _, rest = ln.partition(" = ")
        name = unq(nm)
        m = re.match(r"^((?:[a-z_]+(?:\([a-z]*\))? )*?)(global|constant) ", rest)
        if not m:
            return
        quals = m.group(1)
        const = m.group(2) == "constant"
        self.globals[name] = Global(name, None, rest[m.end():], const, "thread_local" in quals,
                                    "external" in quals.split() or "extern_weak" in quals.split())

    def gparse(self, g):
        if g.ty is None:
            p = P(tokenize(g.init))
            g.ty = parse_type(p)
            g.init = None if g.ext else parse_val(p, g.ty)
        return g

    def _header(self, ln, defined):
        body = ln.split(" ", 1)[1]
        if not defined:
            body = re.sub(r"^!dbg !\d+ ", "", body)
        m = re.search(r" (#\d+)", body)
        attrs = m.group(1) if m else ""
        dbg = re.search(r"!dbg !(\d+)", body)
        p = P(tokenize(body.rstrip("{").rstrip()))
        while True:
            t = p.peek()
            if t in LINK or t in CC:
                p.next()
                if t == "thread_local" and p.peek() == "(":
                    while p.next() != ")":
                        pass
            else:
                break
        parse_pattrs(p)
        ret = parse_type(p)
        name = unq(p.next())
        p.expect("(")
        params = []
        va = False
        k = 0
        while not p.eat(")"):
            if p.eat(","):
                continue
            if p.eat("..."):
                va = True
                continue
            ty = parse_type(p)
            at = parse_pattrs(p)
            if p.peek() and p.peek()[0] == "%":
                pn = unq(p.next())
            else:
                pn = str(k)
            k += 1
            params.append((ty, pn, at))
        f = Func(name, ret, params, va, defined, attrs)
        f.dbg = int(dbg.group(1)) if dbg else None
        return f

    # ---- types
    def resolve(self, ty):
        while ty[0] == "named":
            t = self.types.get(ty[1])
            if t is None:
                raise ToolLimit("opaque type " + ty[1])
            ty = t
        return ty

    def sizeal(self, ty):
        r = self._size.get(ty)
        if r is None:
            r = self._size[ty] = self._sizeal(ty)
        return r

    def _sizeal(self, ty):
        k = ty[0]
        if k == "i":
            n = ty[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return (b if n <= 64 else 16 * ((n + 127) // 128), min(b, 16))
        if k == "ptr":
            return (8, 8)
        if k == "fp":
            return {"half": (2, 2), "bfloat": (2, 2), "float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16), "fp128": (16, 16)}[ty[1]]
        if k == "arr":
            s, a = self.sizeal(ty[2])
            return (s * ty[1], a)
        if k == "vec":
            s, a = self.sizeal(ty[2])
            return (s * ty[1], s * ty[1])
        if k == "named":
            return self.sizeal(self.resolve(ty))
        if k == "struct":
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.sizeal(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise ToolLimit("sizeof %s" % (ty,))

    def field(self, ty, i):
        """offset and type of element i of an aggregate"""
        ty = self.resolve(ty)
        if ty[0] == "struct":
            off = 0
            for j, e in enumerate(ty[1]):
                s, a = self.sizeal(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, e
                off += s
            raise ToolLimit("field index")
        if ty[0] in ("arr", "vec"):
            return self.sizeal(ty[2])[0] * i, ty[2]
        raise ToolLimit("field of %s" % (ty,))

    def nfields(self, ty):
        ty = self.resolve(ty)
        return len(ty[1]) if ty[0] == "struct" else ty[1]

    # ---- bodies
    def body(self, f):
        if f.blocks is not None:
            return f
        blocks = {}
        cur = None
        order = []
        lines = f.lines
        i = 0
        np = sum(1 for _ in f.params)
        while i < len(lines):
            ln = lines[i]
            if not ln.strip() or ln.lstrip()[0] == ";":
                i += 1
                continue
            if ln[0] != " ":
                m = re.match(r'^("(?:[^"])*"|[-\w$.]+):', ln)
                if not m:
                    raise ToolLimit("IR label: " + ln)
                nm = m.group(1)
                cur = nm[1:-1] if nm[0] == '"' else nm
                blocks[cur] = []
                order.append(cur)
                i += 1
                continue
            if cur is None:
                cur = str(np) if all(pn.isdigit() for _, pn, _ in f.params) else "entry"
                blocks[cur] = []
                order.append(cur)
            s = ln.strip()
            core = s
            if " invoke " in " " + s or s.startswith("invoke ") or re.match(r"^%\S+ = invoke ", s):
                while "unwind label" not in core:
                    i += 1
                    core += " " + lines[i].strip()
            elif re.match(r"^switch ", s):
                while "]" not in core:
                    i += 1
                    core += " " + lines[i].strip()
            elif "= landingpad" in s:
                while i + 1 < len(lines) and re.match(r"^\s+(catch|cleanup|filter)\b", lines[i + 1]):
                    i += 1
                    core += " " + lines[i].strip()
            if s.startswith("#dbg_"):
                i += 1
                continue
            blocks[cur].append(self.instr(core))
            i += 1
        f.blocks = blocks
        f.entry = order[0]
        return f

    def instr(self, s):
        dbg = None
        m = re.search(r"!dbg !(\d+)", s)
        if m:
            dbg = int(m.group(1))
        core = re.sub(r",? !(?!\d)[\w.]+ ![\w.]+", "", s)
        p = P(tokenize(core))
        res = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            res = unq(p.next())
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        fn = getattr(self, "i_" + op, None)
        if fn is None:
            if op in BINS:
                while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                    p.next()
                ty = parse_type(p)
                a = parse_val(p, ty)
                p.expect(",")
                b = parse_val(p, ty)
                return Instr("bin", res, (op, ty, a, b), dbg, s)
            if op in CASTS or op in ("fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc"):
                while p.peek() in ("nneg", "nuw", "nsw"):
                    p.next()
                ty = parse_type(p)
                a = parse_val(p, ty)
                p.expect("to")
                return Instr("cast", res, (op, ty, a, parse_type(p)), dbg, s)
            return Instr("unsupported", res, (op,), dbg, s)
        return Instr(op, res, fn(p), dbg, s)

    def i_alloca(self, p):
        p.eat("inalloca")
        ty = parse_type(p)
        n = None
        al = None
        while p.eat(","):
            if p.peek() == "align":
                p.next()
                al = int(p.next())
            else:
                t = parse_type(p)
                n = (t, parse_val(p, t))
        return (ty, n, al)

    def i_load(self, p):
        p.eat("atomic")
        p.eat("volatile")
        ty = parse_type(p)
        p.expect(",")
        pt = parse_type(p)
        return (ty, parse_val(p, pt))

    def i_store(self, p):
        p.eat("atomic")
        p.eat("volatile")
        ty = parse_type(p)
        v = parse_val(p, ty)
        p.expect(",")
        pt = parse_type(p)
        return (ty, v, parse_val(p, pt))

    def i_getelementptr(self, p):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = parse_type(p)
        ops = []
        while p.eat(","):
            t = parse_type(p)
            ops.append((t, parse_val(p, t)))
        return (bt, ops)

    def _call(self, p):
        while p.peek() in CC or p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        parse_pattrs(p)
        ty = parse_type(p)
        if ty[0] == "func":
            ret = ty[1]
        else:
            ret = ty
        if p.peek() == "asm":
            toks = p.t[p.i:]
            return (ret, ("asm", " ".join(toks)), [])
        callee = parse_val(p, PTR)
        p.expect("(")
        args = []
        while not p.eat(")"):
            if p.eat(","):
                continue
            t = parse_type(p)
            at = parse_pattrs(p)
            if t == ("metadata",):
                depth = 0
                while True:
                    x = p.peek()
                    if depth == 0 and x in (",", ")"):
                        break
                    depth += (x == "(") - (x == ")")
                    p.next()
                args.append((t, ("undef",), at))
                continue
            args.append((t, parse_val(p, t), at))
        return (ret, callee, args)

    def i_call(self, p):
        return self._call(p) + (None, None)

    def i_invoke(self, p):
        r = self._call(p)
        while p.peek() != "to":
            p.next()
        p.next()
        p.expect("label")
        n = unq(p.next())
        p.expect("unwind")
        p.expect("label")
        return r + (n, unq(p.next()))

    def i_br(self, p):
        if p.eat("label"):
            return (None, unq(p.next()))
        t = parse_type(p)
        c = parse_val(p, t)
        p.expect(",")
        p.expect("label")
        a = unq(p.next())
        p.expect(",")
        p.expect("label")
        return (c, a, unq(p.next()))

    def i_switch(self, p):
        ty = parse_type(p)
        v = parse_val(p, ty)
        p.expect(",")
        p.expect("label")
        d = unq(p.next())
        p.expect("[")
        cs = []
        while not p.eat("]"):
            t = parse_type(p)
            c = parse_val(p, t)
            p.expect(",")
            p.expect("label")
            cs.append((c[1], unq(p.next())))
        return (ty, v, d, cs)

    def i_ret(self, p):
        ty = parse_type(p)
        if ty == VOID:
            return (ty, None)
        return (ty, parse_val(p, ty))

    def i_unreachable(self, p):
        return ()

    def i_icmp(self, p):
        p.eat("samesign")
        pred = p.next()
        ty = parse_type(p)
        a = parse_val(p, ty)
        p.expect(",")
        return (pred, ty, a, parse_val(p, ty))

    def i_phi(self, p):
        ty = parse_type(p)
        inc = []
        while True:
            p.expect("[")
            v = parse_val(p, ty)
            p.expect(",")
            inc.append((v, unq(p.next())))
            p.expect("]")
            if not p.eat(","):
                break
        return (ty, inc)

    def i_select(self, p):
        t = parse_type(p)
        c = parse_val(p, t)
        p.expect(",")
        ty = parse_type(p)
        a = parse_val(p, ty)
        p.expect(",")
        ty2 = parse_type(p)
        return (c, ty, a, parse_val(p, ty2))

    def i_extractvalue(self, p):
        ty = parse_type(p)
        v = parse_val(p, ty)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return (ty, v, idx)

    def i_insertvalue(self, p):
        ty = parse_type(p)
        v = parse_val(p, ty)
        p.expect(",")
        et = parse_type(p)
        e = parse_val(p, et)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return (ty, v, et, e, idx)

    def i_landingpad(self, p):
        ty = parse_type(p)
        cleanup = False
        clauses = []
        while not p.done():
            t = p.next()
            if t == "cleanup":
                cleanup = True
            elif t == "catch":
                ct = parse_type(p)
                clauses.append(("catch", parse_val(p, ct)))
            elif t == "filter":
                ct = parse_type(p)
                clauses.append(("filter", parse_val(p, ct)))
        return (ty, cleanup, clauses)

    def i_resume(self, p):
        ty = parse_type(p)
        return (ty, parse_val(p, ty))

    def i_freeze(self, p):
        ty = parse_type(p)
        return (ty, parse_val(p, ty))

    def i_fence(self, p):
        return ()

    def i_atomicrmw(self, p):
        p.eat("volatile")
        op = p.next()
        pt = parse_type(p)
        ptr = parse_val(p, pt)
        p.expect(",")
        ty = parse_type(p)
        return (op, ptr, ty, parse_val(p, ty))

    def i_cmpxchg(self, p):
        p.eat("weak")
        p.eat("volatile")
        pt = parse_type(p)
        ptr = parse_val(p, pt)
        p.expect(",")
        ty = parse_type(p)
        a = parse_val(p, ty)
        p.expect(",")
        ty = parse_type(p)
        return (ptr, ty, a, parse_val(p, ty))

    # ---- debug locations
    def loc(self, n):
        if n is None:
            return ""
        r = self._loc.get(n)
        if r is None:
            m = self.meta.get(n, "")
            l = re.search(r"line: (\d+)", m)
            sc = re.search(r"scope: !(\d+)", m)
            fn = self._file(int(sc.group(1))) if sc else "?"
            r = self._loc[n] = "%s:%s" % (fn, l.group(1) if l else "?")
        return r

    def _file(self, n, depth=0):
        m = self.meta.get(n, "")
        f = re.search(r"\bfile: !(\d+)", m)
        if f:
            t = self.meta.get(int(f.group(1)), "")
            q = re.search(r'filename: "([^"]*)"', t)
            if not q:
                return "?"
            d = re.search(r'directory: "([^"]*)"', t)
            return os.path.join(d.group(1), q.group(1)) if d else q.group(1)
        sc = re.search(r"scope: !(\d+)", m)
        return self._file(int(sc.group(1)), depth + 1) if sc and depth < 20 else "?"
