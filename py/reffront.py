"""Reference front end for C16: what the language admits, written down again.

parse() is a PEG matcher for the published grammar (ordered choice, no
backtracking into a choice already made, comments only where the grammar lets
implicit white space be).  refusals() names the reasons for which a file set
may not be accepted; it demands nothing where the documents are silent.
"""
import math
import os
import re

NEWLINE = r"(?:\n|\r\n|\r)"
WS = r"(?: |\t|%s)" % NEWLINE
SKIP = re.compile(r"(?:%s|//(?:(?!%s)[\s\S])*|/\*(?:(?!\*/)[\s\S])*\*/)*" % (WS, NEWLINE))
IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_]*")
PRIM = re.compile(r"u?int(?:8|16|32|64)|float(?:32|64)")
VALUE = re.compile(r"-?0x[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+)?")
DIGITS = re.compile(r"[0-9]+")
INCLUDE = re.compile(r'include(?:%s)+"((?:(?!\.idl)[\s\S])+\.idl)"' % WS)
METHOD = re.compile(r"((?:(?:%s)*#\[optional\](?:%s))*)(?:%s)*method(?:%s)" % (WS, WS, WS, WS))
KEYWORD = {k: re.compile("%s%s" % (k, WS)) for k in ("struct", "const", "interface", "error")}
SIZES = {"8": 1, "16": 2, "32": 4, "64": 8}


NOT_IN_MIR = ("more than 15 arguments of a kind", "object array beside objects", "unbounded object array", "bounded array of data", "array of structs with objects", "duplicate method", "duplicate constant or error")


class No(Exception):
    pass


class Parser:
    def __init__(self, text):
        self.t, self.i, self.far = text, 0, 0

    def skip(self):
        self.i = SKIP.match(self.t, self.i).end()

    def re(self, rx):
        m = rx.match(self.t, self.i)
        if not m:
            self.far = max(self.far, self.i)
            raise No()
        self.i = m.end()
        return m

    def lit(self, s):
        if not self.t.startswith(s, self.i):
            self.far = max(self.far, self.i)
            raise No()
        self.i += len(s)

    def choice(self, *alts):
        at = self.i
        for a in alts:
            try:
                return a()
            except No:
                self.i = at
        raise No()

    def opt(self, rule):
        """rule with the white space before it, or nothing."""
        at = self.i
        try:
            self.skip()
            return rule()
        except No:
            self.i = at
            return None

    def many(self, rule):
        """a ~ (rule)* ~ b: white space between the repetitions."""
        out = []
        while True:
            at = self.i
            try:
                self.skip()
                out.append(rule())
            except No:
                self.i = at
                return out

    def seq(self, *rules):
        out = []
        for n, r in enumerate(rules):
            if n:
                self.skip()
            out.append(r())
        return out

    # terminals
    def ident(self):
        return self.re(IDENT).group()

    def prim(self):
        return self.re(PRIM).group()

    def not_interface(self):
        if self.t.startswith("interface", self.i):
            raise No()
        return self.ident()

    def L(self, s):
        return lambda: self.lit(s)

    # rules
    def bounded(self):
        return self.seq(self.L("["), lambda: self.re(DIGITS).group(), self.L("]"))[1]

    def unbounded(self):
        self.seq(self.L("["), self.L("]"))

    def field(self):
        ty = self.choice(self.prim, self.ident)
        n = self.opt(self.bounded)
        self.skip()
        name = self.ident()
        self.skip()
        self.lit(";")
        return ty, n, name

    def struct(self):
        self.re(KEYWORD["struct"])
        self.skip()
        name = self.not_interface()
        self.skip()
        self.lit("{")
        fs = self.many(self.field)
        if not fs:
            raise No()
        self.skip()
        self.lit("};")
        return "struct", name, fs

    def const(self):
        self.re(KEYWORD["const"])
        _, ty, name, _, v, _ = self.seq(lambda: None, self.prim, self.ident, self.L("="), lambda: self.re(VALUE).group(), self.L(";"))
        return "const", name, ty, v

    def error(self):
        self.re(KEYWORD["error"])
        self.skip()
        name = self.ident()
        self.skip()
        self.lit(";")
        return "error", name

    def param_type(self):
        def a():
            t = self.ident()
            self.skip()
            return t, self.bounded()

        def b():
            t = self.choice(self.prim, self.not_interface)
            self.skip()
            self.unbounded()
            return t, "*"
        return self.choice(a, b, lambda: (self.prim(), None), lambda: (self.ident(), None))

    def param(self):
        d = self.choice(lambda: (self.lit("in"), "in")[1], lambda: (self.lit("out"), "out")[1])
        self.skip()
        t = self.param_type()
        self.skip()
        return d, t[0], t[1], self.ident()

    def function(self):
        attrs = self.re(METHOD).group(1).count("#[")
        self.skip()
        name = self.ident()
        self.skip()
        self.lit("(")
        first = self.opt(self.param)

        def more():
            self.lit(",")
            self.skip()
            return self.param()
        rest = self.many(more)
        self.skip()
        self.lit(");")
        return "method", name, attrs, ([first] if first else []) + rest

    def interface(self):
        self.re(KEYWORD["interface"])
        self.skip()
        name = self.ident()

        def base():
            self.lit(":")
            self.skip()
            return self.ident()
        b = self.opt(base)
        self.skip()
        self.lit("{")
        nodes = self.many(lambda: self.choice(self.function, self.const, self.error))
        self.skip()
        self.lit("};")
        return "interface", name, b, nodes

    def idl(self):
        self.skip()
        incs = self.many(lambda: self.re(INCLUDE).group(1))
        ds = self.many(lambda: self.choice(self.const, self.struct, self.interface))
        self.skip()
        if self.i != len(self.t):
            self.far = max(self.far, self.i)
            raise No()
        return incs, ds


def parse(data):
    """(includes, declarations), or None and why not."""
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return None, "invalid UTF-8"
    p = Parser(t)
    try:
        return p.idl(), None
    except No:
        return None, "not in the grammar near %r" % t[p.far:p.far + 40]


def prim_size(t):
    m = re.fullmatch(r"(?:u?int|float)(8|16|32|64)", t)
    return SIZES[m.group(1)] if m and not (t.startswith("float") and m.group(1) in ("8", "16")) else None


def const_problem(ty, v):
    if ty.startswith("float"):
        if "0x" in v:
            return None  # the documents do not say
        x = float(v)
        if not math.isfinite(x) or (ty == "float32" and abs(x) > 3.5e38):
            return "constant out of range"
        return None
    if "." in v:
        return "fractional literal for an integer"
    x = int(v, 16) if "0x" in v else int(v)
    n = int(re.search(r"\d+", ty).group())
    lo, hi = (0, 2**n - 1) if ty[0] == "u" else (-2**(n - 1), 2**(n - 1) - 1)
    if not lo <= x <= hi or (ty[0] == "u" and v.startswith("-")):
        return "constant out of range"
    return None


def array_problem(n):
    return "array size %s" % n[:12] if n not in (None, "*") and not 1 <= int(n) <= 65535 else None


def refusals(read, main, search, allow_ub=False):
    """Reasons to refuse. read(path) gives bytes; main and search are real paths."""
    files, todo, why = {}, [os.path.realpath(main)], []
    edges = {}
    while todo:
        f = todo.pop()
        if f in files:
            continue
        p, bad = parse(read(f))
        files[f] = p or ([], [])
        edges[f] = []
        if bad:
            why.append("%s: %s" % (os.path.basename(f), bad))
            continue
        for inc in p[0]:
            if "/" in inc:
                hit = os.path.join(os.path.dirname(f), inc)
                hit = hit if os.path.isfile(hit) else None
            else:
                hit = next((os.path.join(d, inc) for d in search if os.path.isfile(os.path.join(d, inc))), None)
            if hit is None:
                why.append("include %r cannot be resolved" % inc[:40])
                continue
            edges[f].append(os.path.realpath(hit))
            todo.append(edges[f][-1])
    if cyclic(edges):
        why.append("include cycle")
    decls = [(f, d) for f, p in files.items() for d in p[1]]
    structs = {d[1]: d for _, d in decls if d[0] == "struct"}
    ifaces = {d[1]: d for _, d in decls if d[0] == "interface"}
    mine = [d for f, d in decls if f == os.path.realpath(main)]
    # what is decided while a file is read holds for every file
    for _, d in decls:
        members = [d] + (d[3] if d[0] == "interface" else [])
        for m in members:
            if m[0] == "const" and not allow_ub:
                why.append(const_problem(m[2], m[3]))
            elif m[0] == "struct":
                why += [array_problem(n) for _, n, _ in m[2]]
            elif m[0] == "method":
                why += [array_problem(p[2]) for p in m[3] if p[1] != "buffer"]  # buffer[N] is read as buffer
                if m[2] > 1:
                    why.append("repeated attribute")
    names = [d[1] for _, d in decls if d[0] in ("struct", "interface")]
    top = [d[1] for _, d in decls if d[0] == "const"]
    if len(set(names)) != len(names) or len(set(top)) != len(top):
        why.append("duplicate symbol")
    if any(prim_size(n) or n in ("buffer", "interface") for n in names):
        return [w for w in why if w]  # which of the two a use means is not documented
    # structs of the main file and everything they contain
    sizes = {}

    def layout(n, path):
        if n in path:
            why.append("struct cycle")
            return None
        if n in sizes:
            return sizes[n]
        off, al = 0, 1
        seen = set()
        for ty, c, fname in structs[n][2]:
            if fname in seen:
                why.append("duplicate field")
            seen.add(fname)
            s = prim_size(ty)
            if s:
                sz = a = s
            elif ty == "interface" or ty in ifaces:
                sz, a = 16, 8
            elif ty in structs:
                x = layout(ty, path | {n})
                if x is None:
                    sizes[n] = None
                    return None
                sz, a = x
            else:
                why.append("unknown type")
                sizes[n] = None
                return None
            if off % a:
                why.append("misaligned field")
            off += sz * (int(c) if c else 1)
            al = max(al, a)
        if off % al:
            why.append("struct size is no multiple of its alignment")
        if off >= 2**64:
            why.append("struct size overflows")
        sizes[n] = (off, al)
        return sizes[n]

    holds = {}

    def objects(n, path=frozenset()):
        if n in path or n not in structs:
            return 0
        if n not in holds:
            k = 0
            for ty, c, _ in structs[n][2]:
                k += (1 if ty == "interface" or ty in ifaces else 0 if prim_size(ty) else objects(ty, path | {n})) * (int(c) if c and len(c) < 9 else 1)
            holds[n] = k
        return holds[n]

    for d in mine:
        if d[0] == "struct":
            layout(d[1], frozenset())
    for d in mine:
        if d[0] != "interface":
            continue
        chain, x = [], d
        while x is not None:
            if x in chain:
                why.append("inheritance cycle")
                break
            chain.append(x)
            if x[2] is not None and x[2] not in ifaces:
                why.append("unknown base")
                break
            x = ifaces[x[2]] if x[2] is not None else None
        meths, consts = [], []
        for c in chain:
            for m in c[3]:
                (meths if m[0] == "method" else consts).append(m[1])
                if m[0] != "method":
                    continue
                ps = [p[3] for p in m[3]]
                if c is d and len(set(ps)) != len(ps):
                    why.append("duplicate parameter")
                kinds = {"in": [0, 0, 0], "out": [0, 0, 0]}  # buffers, objects, bundled
                forms = {"in": [], "out": []}
                for dr, ty, arr, _ in m[3]:
                    obj = ty == "interface" or ty in ifaces
                    if ty == "buffer" and arr is None:
                        kinds[dr][0] += 1
                    elif obj:
                        forms[dr].append("array" if arr else "single")
                        if arr == "*":
                            why.append("unbounded object array")
                        else:
                            kinds[dr][1] += int(arr) if arr and len(arr) < 9 else 1
                    elif prim_size(ty) is None and ty not in structs:
                        if ty != "buffer":
                            why.append("unknown type")
                    else:
                        if arr not in (None, "*"):
                            why.append("bounded array of data")
                        if arr and objects(ty):
                            why.append("array of structs with objects", "duplicate method", "duplicate constant or error")
                        s = prim_size(ty)
                        if arr:
                            kinds[dr][0] += 1
                        else:
                            if not s:
                                x = layout(ty, frozenset())
                                s = x[0] if x else 1
                                kinds[dr][1] += objects(ty)
                            kinds[dr][2 if s <= 16 else 0] += 1
                for dr in ("in", "out"):
                    if "array" in forms[dr] and "single" in forms[dr]:
                        why.append("object array beside objects")
                    if kinds[dr][0] + bool(kinds[dr][2]) > 15 or kinds[dr][1] > 15:
                        why.append("more than 15 arguments of a kind")
        if len(set(meths)) != len(meths):
            why.append("duplicate method")
        if len(set(consts)) != len(consts):
            why.append("duplicate constant or error")
    return [w for w in why if w]


def cyclic(edges):
    left = {f: set(v) for f, v in edges.items()}
    while True:
        free = [f for f, v in left.items() if not v]
        if not free:
            return bool(left)
        for f in free:
            del left[f]
        for v in left.values():
            v.difference_update(free)
