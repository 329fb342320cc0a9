"""Seeded generator of IDL programs together with the reference model.

The model is derived from the text of the properties only (never from the
compiler): op-codes, error values, argument counts, the bundling rule and the
byte images of data parameters.
"""
import random

PRIMS = {
    # name: (size, C type, Rust type, Java type)
    "uint8": (1, "uint8_t", "u8", "byte"),
    "uint16": (2, "uint16_t", "u16", "short"),
    "uint32": (4, "uint32_t", "u32", "int"),
    "uint64": (8, "uint64_t", "u64", "long"),
    "int8": (1, "int8_t", "i8", "byte"),
    "int16": (2, "int16_t", "i16", "short"),
    "int32": (4, "int32_t", "i32", "int"),
    "int64": (8, "int64_t", "i64", "long"),
    "float32": (4, "float", "f32", "float"),
    "float64": (8, "double", "f64", "double"),
}
BY_SIZE = {1: ["uint8", "int8"], 2: ["uint16", "int16"],
           4: ["uint32", "int32", "float32"], 8: ["uint64", "int64", "float64"]}
OBJ = 16
MAXCLASS = 15


# Names a user may well choose: keywords of Rust that are plain identifiers in
# C, C++ and Java, names a generator of code is tempted to use itself, and
# everyday ones.
KEYWORDS = "as dyn fn let loop match move mut pub ref type unsafe use where async await become box override priv yield gen".split()
TEMPTING = ("a b c d e f g h i k m n o p q r s t v x y z me cx op ctx obj arg args arg_idx result ret res ptr len idx in_buf out_buf "
            "counts bundle object inner guard slice context func prefix self_ val err ok").split()
EVERYDAY = ("id name key data size count value flags status code offset length message text from to mode state index "
            "input output src dst start end width height Handle Size maxLen x1 v2 a_b").split()
METHODS = ("open read write start stop send recv load store push pop query match move loop type where async register_cb "
           "process compute a f do_it echo Ping getValue set_value init func fn use").split()
NOT_NAMES = set("i8 i16 i32 i64 u8 u16 u32 u64 f16 f32 f64 i128 u128 f128".split()) | set("int8 int16 int32 int64 uint8 uint16 uint32 uint64 float32 float64".split())
STRUCTS = "Config Point Header Info Entry Blob Pair Stats item_t rec_t trait impl mod Vec2 Buffer_t Keys Range macro".split()


class Struct:
    def __init__(self, name, fields, file):
        # fields: [(name, kind, type, count)], kind in prim/struct/obj
        self.name, self.fields, self.file = name, fields, file
        off, align, objs = 0, 1, []
        for (_, kind, ty, count) in fields:
            for i in range(count):
                if kind == "prim":
                    sz, al = PRIMS[ty][0], PRIMS[ty][0]
                elif kind == "obj":
                    sz, al = OBJ, OBJ
                    objs.append(off)
                else:
                    sz, al = ty.size, ty.align
                    objs += [off + o for o in ty.objs]
                assert off % al == 0, (name, off, al)
                off += sz
                align = max(align, al)
        assert off % align == 0, (name, off, align)
        self.size, self.align, self.objs = off, align, objs

    def leaves(self, base=0, path=()):
        """(offset, path, primitive name or 'obj') for every scalar."""
        off = base
        for (n, kind, ty, count) in self.fields:
            for i in range(count):
                p = path + ((n, i if count > 1 else None),)
                if kind == "prim":
                    yield off, p, ty
                    off += PRIMS[ty][0]
                elif kind == "obj":
                    yield off, p, "obj"
                    off += OBJ
                else:
                    yield from ty.leaves(off, p)
                    off += ty.size

    def emit(self):
        out = ["struct %s {" % self.name]
        for (n, kind, ty, count) in self.fields:
            t = ty if kind == "prim" else (ty.name if kind == "struct" else (ty or "interface"))
            out.append("    %s%s %s;" % (t, "[%d]" % count if count > 1 else "", n))
        out.append("};")
        return "\n".join(out)


class Param:
    """kind: prim, struct, obj, buffer, prims, structs, objs"""

    def __init__(self, name, out, kind, ty, count=1):
        self.name, self.out, self.kind, self.ty, self.count = name, out, kind, ty, count

    @property
    def fixed(self):
        return self.kind in ("prim", "struct")

    @property
    def size(self):  # element size
        if self.kind in ("prim", "prims"):
            return PRIMS[self.ty][0]
        if self.kind in ("struct", "structs"):
            return self.ty.size
        if self.kind == "buffer":
            return 1
        return OBJ

    @property
    def objs(self):
        return self.ty.objs if self.kind == "struct" else []

    def emit(self):
        d = "out" if self.out else "in"
        if self.kind == "prim":
            t = self.ty
        elif self.kind == "struct":
            t = self.ty.name
        elif self.kind == "obj":
            t = self.ty or "interface"
        elif self.kind == "buffer":
            t = "buffer"
        elif self.kind == "prims":
            t = self.ty + "[]"
        elif self.kind == "structs":
            t = self.ty.name + "[]"
        else:
            t = "%s[%d]" % (self.ty or "interface", self.count)
        return "%s %s %s" % (d, t, self.name)


class Method:
    def __init__(self, name, params, optional=False, doc=None):
        self.name, self.params, self.optional, self.doc = name, params, optional, doc

    def bundle(self, out):
        """Indices of the bundled parameters in wire order, [] if no bundle."""
        small = [i for i, p in enumerate(self.params)
                 if p.out == out and p.fixed and p.size <= 16]
        if len(small) < 2:
            return []
        return sorted(small, key=lambda i: -self.params[i].size)

    def counts(self):
        c = {}
        for out in (False, True):
            b = self.bundle(out)
            data = (1 if b else 0) + sum(
                1 for i, p in enumerate(self.params)
                if p.out == out and p.kind not in ("obj", "objs") and i not in b)
            objs = sum((p.count if p.kind in ("obj", "objs") else len(p.objs))
                       for p in self.params if p.out == out)
            c[out] = (data, objs)
        return c[False][0], c[True][0], c[False][1], c[True][1]

    def emit(self):
        s = ""
        if self.doc:
            s += "    /**\n     * %s\n     */\n" % self.doc
        if self.optional:
            s += "    #[optional]\n"
        return s + "    method %s(%s);" % (self.name, ", ".join(p.emit() for p in self.params))


class Interface:
    def __init__(self, name, base, items, file):
        # items: [("method", Method) | ("error", name) | ("const", type, name, literal)]
        self.name, self.base, self.items, self.file = name, base, items, file

    def chain(self):
        return (self.base.chain() if self.base else []) + [self]

    @property
    def own_methods(self):
        return [x[1] for x in self.items if x[0] == "method"]

    @property
    def own_errors(self):
        return [x[1] for x in self.items if x[0] == "error"]

    def methods(self):
        """[(declaring interface, method)], index is the op-code."""
        return [(i, m) for i in self.chain() for m in i.own_methods]

    def errors(self):
        """[(declaring interface, name, value)]"""
        names = [(i, e) for i in self.chain() for e in i.own_errors]
        return [(i, e, 10 + n) for n, (i, e) in enumerate(names)]

    def emit(self):
        out = ["interface %s%s {" % (self.name, " : " + self.base.name if self.base else "")]
        for it in self.items:
            if it[0] == "method":
                out.append(it[1].emit())
            elif it[0] == "error":
                out.append("    error %s;" % it[1])
            else:
                out.append("    const %s %s = %s;" % it[1:])
        out.append("};")
        return "\n".join(out)


class Program:
    def __init__(self):
        self.files = []      # stems, in dependency order; the last one is the main file
        self.includes = {}   # stem -> [stems]
        self.decls = {}      # stem -> ["raw text" | Struct | Interface]

    def interfaces(self):
        return [d for f in self.files for d in self.decls[f] if isinstance(d, Interface)]

    def structs(self):
        return [d for f in self.files for d in self.decls[f] if isinstance(d, Struct)]

    def text(self, stem):
        out = ['include "%s.idl"' % i for i in self.includes[stem]]
        for d in self.decls[stem]:
            out.append(d if isinstance(d, str) else d.emit())
        return "\n".join(out) + "\n"

    def write(self, directory):
        import os
        for f in self.files:
            with open(os.path.join(directory, f + ".idl"), "w") as fh:
                fh.write(self.text(f))


PROFILES = {
    # weights of the parameter kinds and shape of the program
    "mixed":   dict(kinds=dict(prim=6, struct=4, obj=3, buffer=2, prims=2, structs=1, objs=2), nparams=(0, 9), methods=(3, 7), ifaces=(3, 6), structs=(4, 8)),
    "data":    dict(kinds=dict(prim=9, struct=7, obj=1, buffer=2, prims=2, structs=2, objs=0), nparams=(1, 12), methods=(4, 9), ifaces=(2, 4), structs=(5, 9)),
    "bundles": dict(kinds=dict(prim=12, struct=6, obj=1, buffer=1, prims=1, structs=1, objs=0), nparams=(2, 14), methods=(5, 9), ifaces=(2, 3), structs=(5, 8)),
    "objects": dict(kinds=dict(prim=2, struct=6, obj=6, buffer=1, prims=1, structs=1, objs=5), nparams=(1, 8), methods=(4, 8), ifaces=(3, 6), structs=(5, 9)),
    "wide":    dict(kinds=dict(prim=2, struct=4, obj=6, buffer=6, prims=4, structs=3, objs=4), nparams=(10, 40), methods=(3, 6), ifaces=(2, 4), structs=(3, 6)),
    "deep":    dict(kinds=dict(prim=5, struct=2, obj=2, buffer=1, prims=1, structs=0, objs=1), nparams=(0, 4), methods=(1, 6), ifaces=(5, 9), structs=(2, 3)),
    "java":    dict(kinds=dict(prim=8, struct=5, obj=3, buffer=2, prims=3, structs=2, objs=2), nparams=(0, 8), methods=(4, 8), ifaces=(2, 4), structs=(4, 7)),
}


MAXMETHODS = 0x4000


def giant(seed, total, heavy_base=False):
    """A chain of interfaces with exactly `total` methods in all, most of them
    in the last one or, with `heavy_base`, in the first one."""
    r = random.Random("giant-%s" % seed)
    prog = Program()
    depth = r.choice([1, 2, 2, 3])
    cuts = sorted(r.sample(range(1, 1500), depth - 1))
    ns = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    if heavy_base:
        ns.reverse()
    nfiles = r.choice([1, 2]) if depth > 1 else 1
    prog.files = ["ga", "gb"][:nfiles]
    prog.includes = {"ga": [], "gb": ["ga"]}
    prog.decls = {f: [] for f in prog.files}
    base, n = None, 0
    for i, c in enumerate(ns):
        f = prog.files[0] if i < depth - 1 else prog.files[-1]
        items = []
        for _ in range(c):
            ps = [Param("x", False, "prim", "uint32")] if r.random() < .05 else []
            if r.random() < .05:
                ps.append(Param("y", True, "prim", "uint64"))
            if r.random() < .02:
                ps.append(Param("z", False, "prim", "uint16"))
            items.append(("method", Method("m%d" % n, ps)))
            n += 1
        base = Interface("IG%d" % i, base, items, f)
        prog.decls[f].append(base)
    return prog


class Gen:
    def __init__(self, seed, profile="mixed", tag="", java=False):
        self.profile, self.seed0 = profile, seed
        self.r = random.Random("idl-%s-%s-%s" % (seed, profile, tag))
        self.p = PROFILES.get(profile)
        self.java = java
        self.deep = profile == "deep"
        self.n = 0
        self.tag = tag

    def name(self, prefix=""):
        self.n += 1
        return "%s%s%d%s" % (prefix, self.r.choice("bcdfgjlmnpqstvwxyz"), self.n,
                             self.r.choice(["", "", "_", "q", "Xy", "_v"]))

    # -- structs -------------------------------------------------------------
    def struct(self, file, avail, ifaces, want=None):
        r = self.r
        fields, off, align = [], 0, 1
        want = want or r.choice(["tiny", "tiny", "small", "small", "small", "big", "big", "nested", "nested", "objs", "objs", "one_obj"])
        if self.java and want in ("objs", "one_obj"):
            want = "nested"
        nobjs = 0

        def add(kind, ty, count, size, al):
            nonlocal off, align, nobjs
            fields.append((self.name(), kind, ty, count))
            off += size * count
            align = max(align, al)
            if kind == "obj":
                nobjs += count
            elif kind == "struct":
                nobjs += count * len(ty.objs)

        def prim(maxsize=8):
            fit = [s for s in (1, 2, 4, 8) if off % s == 0 and s <= maxsize]
            s = r.choice(fit)
            add("prim", r.choice(BY_SIZE[s]), 1, s, s)

        def padto(a):
            while off % a:
                s = max(s for s in (1, 2, 4, 8) if off % s == 0 and off + s <= off + (a - off % a))
                add("prim", r.choice(BY_SIZE[s]), 1, s, s)

        def obj_ty():
            return r.choice([None] + [i.name for i in ifaces]) if ifaces else None

        if want == "tiny":
            prim()
            if r.random() < .5:
                prim(4)
        elif want == "small":
            target = r.choice([4, 6, 8, 12, 12, 16, 16])
            while off < target:
                s = [s for s in (1, 2, 4, 8) if off % s == 0 and off + s <= target]
                s = r.choice(s)
                c = r.choice([1, 1, 1, 2]) if off + 2 * s <= target else 1
                add("prim", r.choice(BY_SIZE[s]), c, s, s)
        elif want == "big":
            for _ in range(r.randint(3, 8)):
                fit = [s for s in (1, 2, 4, 8) if off % s == 0]
                s = r.choice(fit)
                add("prim", r.choice(BY_SIZE[s]), r.choice([1, 1, 1, 2, 3, 5, 17]), s, s)
        elif want == "nested":
            cands = [s for s in avail if not (self.java and s.objs)]
            for _ in range(r.randint(1, 4)):
                if cands and r.random() < .65:
                    s = r.choice(cands)
                    c = r.choice([1, 1, 2, 3])
                    if nobjs + c * len(s.objs) > 6:
                        prim()
                        continue
                    padto(s.align)
                    add("struct", s, c, s.size, s.align)
                else:
                    fit = [s for s in (1, 2, 4, 8) if off % s == 0]
                    s = r.choice(fit)
                    add("prim", r.choice(BY_SIZE[s]), r.choice([1, 1, 4]), s, s)
        elif want == "one_obj":
            if r.random() < .3 and [s for s in avail if s.size == 16 and s.objs]:
                s = r.choice([s for s in avail if s.size == 16 and s.objs])
                add("struct", s, 1, s.size, s.align)
            else:
                add("obj", obj_ty(), 1, OBJ, OBJ)
        else:
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < .5 and nobjs < 5:
                    padto(16)
                    add("obj", obj_ty(), r.choice([1, 1, 1, 2]), OBJ, OBJ)
                elif x < .65 and [s for s in avail if s.objs and len(s.objs) <= 2]:
                    s = r.choice([s for s in avail if s.objs and len(s.objs) <= 2])
                    c = r.choice([1, 1, 2])
                    if nobjs + c * len(s.objs) <= 6:
                        padto(s.align)
                        add("struct", s, c, s.size, s.align)
                else:
                    prim()
        if not fields:
            prim()
        padto(align)
        return Struct(self.name(r.choice(["S", "T", "St"])), fields, file)

    # -- methods -------------------------------------------------------------
    def method(self, structs, ifaces, name=None):
        r = self.r
        lo, hi = self.p["nparams"]
        n = r.randint(lo, hi)
        only = r.random()
        kinds = dict(self.p["kinds"])
        if only < .12:
            kinds = {k: v for k, v in kinds.items() if k in ("prim", "struct")}
        elif only < .2:
            kinds = {k: v for k, v in kinds.items() if k in ("obj", "objs", "struct")}
        pool = [k for k, v in kinds.items() for _ in range(v)]
        bias = r.choice([.5, .5, .5, .85, .15])
        params = []
        for _ in range(n):
            out = r.random() > bias
            kind = r.choice(pool)
            if kind in ("struct", "structs") and not structs:
                kind = "prim"
            if kind == "prim":
                p = Param(self.name(), out, "prim", r.choice(list(PRIMS)))
            elif kind == "prims":
                p = Param(self.name(), out, "prims", r.choice(list(PRIMS)))
            elif kind == "buffer":
                p = Param(self.name(), out, "buffer", None)
            elif kind == "struct":
                p = Param(self.name(), out, "struct", r.choice(structs))
            elif kind == "structs":
                c = [s for s in structs if not s.objs]
                if not c:
                    continue
                p = Param(self.name(), out, "structs", r.choice(c))
            else:
                have = [q.kind for q in params if q.out == out and q.kind in ("obj", "objs")]
                if "objs" in have:
                    continue
                if have:
                    kind = "obj"
                ty = r.choice([None] + [i.name for i in ifaces] * 2) if ifaces else None
                p = Param(self.name(), out, kind, ty, 1)
                if kind == "objs":
                    p.count = r.choice([1, 2, 2, 3, 3, 4, 7, 15])
            params.append(p)
            if max(Method("x", params).counts()) > MAXCLASS:
                params.pop()
        m = Method(name or self.name("m"), params, optional=r.random() < .15)
        if r.random() < .15:
            m.doc = r.choice(["Does things.", "@param[in] x a value", "a // b", "interface I { }"])
        return m

    def const(self):
        ty = self.r.choice(["uint8", "uint32", "int32", "uint64", "int16"])
        lit = self.r.choice(["0", "1", "7", "0x1f", "100"] + (["-5"] if ty.startswith("int") and not (self.java and ty == "int16") else []))
        return ("const", ty, self.name("K").upper(), lit)

    def iface(self, file, base, structs, ifaces):
        r = self.r
        nm = self.name("I" + r.choice(["", "a", "Z"]))
        me = Interface(nm, base, [], file)
        items = []
        bare = base is not None and r.random() < .18  # only inherits
        for _ in range(0 if bare else r.randint(*self.p["methods"])):
            items.append(("method", self.method(structs, ifaces)))
        for _ in range(r.choice([0, 1, 1, 2, 3] if not self.deep else [0, 1, 2, 4])):
            items.append(("error", self.name("E")))
        for _ in range(r.choice([0, 0, 1])):
            items.append(self.const())
        if not self.deep or r.random() < .7:
            r.shuffle(items)
        me.items = items
        return me

    def program(self):
        if self.profile == "giant":
            return giant(self.seed0, MAXMETHODS)
        r = self.r
        prog = Program()
        nfiles = r.choice([1, 1, 2, 2, 3])
        nstructs = r.randint(*self.p["structs"])
        nifaces = r.randint(*self.p["ifaces"])
        stems = []
        for i in range(nfiles):
            stems.append(self.name("f").lower())
        prog.files = stems
        for i, st in enumerate(stems):
            prog.includes[st] = []
            prog.decls[st] = []
            if i:
                # the main file reaches every file
                prog.includes[st] = [s for s in stems[:i] if i == nfiles - 1 or r.random() < .6]
        plan = ["s"] * nstructs + ["i"] * nifaces
        # always some structs first
        head = plan[:min(3, nstructs)]
        rest = plan[len(head):]
        r.shuffle(rest)
        plan = head + rest
        structs, ifaces = [], []
        for k, what in enumerate(plan):
            fi = min(nfiles - 1, k * nfiles // len(plan))
            st = stems[fi]
            reach = self.reach(prog, st)
            vs = [s for s in structs if s.file in reach]
            vi = [i for i in ifaces if i.file in reach]
            if what == "s":
                want = None
                if len(structs) == 0:
                    want = "small"
                s = self.struct(st, vs, vi, want)
                structs.append(s)
                prog.decls[st].append(s)
            else:
                base = None
                if vi and r.random() < (.85 if self.deep else .6):
                    base = vi[-1] if r.random() < (.8 if self.deep else .5) else r.choice(vi)
                it = self.iface(st, base, vs, vi)
                ifaces.append(it)
                prog.decls[st].append(it)
            if r.random() < .15:
                c = self.const()
                prog.decls[st].append("const %s %s = %s;" % c[1:])
        if not any(isinstance(d, Interface) for d in prog.decls[stems[-1]]):
            it = self.iface(stems[-1], None, [s for s in structs], [i for i in ifaces])
            prog.decls[stems[-1]].append(it)
        return self.rename(self.grow(prog))

    def grow(self, prog):
        """Some programs get something unusually large (its own random stream):
        more members of a bundle, methods, errors, fields or bytes than the
        thresholds of sorting algorithms and small integer types."""
        r = self.r = random.Random("grow-%s-%s-%s" % (self.seed0, self.profile, self.tag))
        x = r.random()
        main = [d for d in prog.decls[prog.files[-1]] if isinstance(d, Interface)]
        ifs = [i for i in prog.interfaces() if i.own_methods] or main
        if x < .09:      # bundles of more than 20 members
            for m in r.sample([m for i in ifs for m in i.own_methods] or [None], 1):
                if m:
                    outs = r.choice([.1, .5, .9])
                    new = list(m.params)
                    prims = r.choice([list(PRIMS), ["uint8", "int8", "uint16"], ["uint32", "uint64", "float32"]])
                    for _ in range(r.randint(22, 60)):
                        new.insert(r.randint(0, len(new)), Param(self.name(), r.random() < outs, "prim", r.choice(prims)))
                    if max(Method("x", new).counts()) <= MAXCLASS:
                        m.params = new
        elif x < .16:    # many methods, constants and errors
            it = r.choice(ifs)
            items = list(it.items)
            for _ in range(r.randint(20, 70)):
                ps = [Param(self.name(), r.random() < .4, "prim", r.choice(list(PRIMS))) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                items.insert(r.randint(0, len(items)), ("method", Method(self.name("m"), ps, optional=r.random() < .2)))
            for _ in range(r.randint(0, 40)):
                items.insert(r.randint(0, len(items)), ("error", self.name("E")))
            it.items = items
        elif x < .21:    # many errors
            it = r.choice(ifs)
            for _ in range(r.randint(30, 300)):
                it.items.insert(r.randint(0, len(it.items)), ("error", self.name("E")))
        elif x < .29:    # large structs: sizes beyond 8 and 16 bits, many fields
            f = main[-1].file if main else prog.files[-1]
            if r.random() < .5 and not self.java:
                fields = [(self.name(), "prim", r.choice(["uint8", "int8"]), r.choice([256, 300, 1000, 4096])),
                          (self.name(), "prim", r.choice(["uint16", "int16"]), r.choice([128, 257, 2000, 2000, 40000]))]
                if r.random() < .5:
                    fields.reverse()
            else:
                fields = [(self.name(), "prim", r.choice(["uint32", "int32", "float32"]), r.choice([1, 1, 1, 2])) for _ in range(r.randint(22, 40 if self.java else 150))]
            s = Struct(self.name("Lg"), fields, f)
            ds = prog.decls[f]
            at = min(k for k, d in enumerate(ds) if d in main) if main else len(ds)
            ds.insert(at, s)
            it = r.choice(main)
            for out in r.choice([[False], [True], [False, True], [True, False, False]]):
                ps = [Param(self.name(), out, "struct", s)]
                for _ in range(r.randint(0, 3)):
                    ps.insert(r.randint(0, len(ps)), Param(self.name(), r.random() < .5, r.choice(["prim", "prims"]), r.choice(list(PRIMS))))
                it.items.insert(r.randint(0, len(it.items)), ("method", Method(self.name("m"), ps)))
        return prog

    def rename(self, prog):
        """Give part of the program the names people choose (its own random
        stream: the shapes are the ones the seed always had)."""
        r = random.Random("names-%s-%s-%s" % (self.seed0, self.profile, self.tag))
        share = r.choice([0, .3, .6, .9])
        pool = r.choice([KEYWORDS + TEMPTING + EVERYDAY, KEYWORDS * 2 + EVERYDAY, TEMPTING, TEMPTING + EVERYDAY])

        def fresh(old, names, taken):
            c = [n for n in names if n not in taken]
            if not c or r.random() >= share:
                return old
            n = r.choice(c)
            taken.add(n)
            return n
        meths, structs = set(), set()
        for d in prog.structs() + prog.interfaces():
            if isinstance(d, Struct):
                d.name = fresh(d.name, STRUCTS, structs)
                taken = set()
                d.fields = [(fresh(n, pool, taken), kind, ty, count) for n, kind, ty, count in d.fields]
            else:
                for m in d.own_methods:
                    m.name = fresh(m.name, METHODS, meths)
                    taken = set()
                    for p in m.params:
                        p.name = fresh(p.name, pool, taken)
        self.resemble(prog)
        return prog

    def resemble(self, prog):
        """Names that differ in case, or by a character at either end, only."""
        r = random.Random("alike-%s-%s-%s" % (self.seed0, self.profile, self.tag))
        if r.random() >= .25:
            return

        def alike(name, others, taken):
            c = [o for o in others if any(x.isdigit() for x in o) and o.swapcase() != o]
            if not c or r.random() < .5:
                return name
            o = r.choice(c)
            n = r.choice([o.swapcase(), o.swapcase(), o + "2", o + o[-1], o[0] + o, o[:-1]])
            if n in taken or n in NOT_NAMES or not n[:1].isalpha() or n[-1] == "_" or not any(x.isdigit() for x in n):
                return name
            taken.add(n)
            return n
        taken, before = {d.name for d in prog.structs() + prog.interfaces()}, []
        meths = {m.name for i in prog.interfaces() for m in i.own_methods}
        mbefore = []
        for d in prog.structs() + prog.interfaces():
            if isinstance(d, Struct):
                d.name = alike(d.name, before, taken)
                before.append(d.name)
                names = {f[0] for f in d.fields}
                fields = []
                for n, kind, ty, count in d.fields:
                    fields.append((alike(n, [f[0] for f in fields], names), kind, ty, count))
                d.fields = fields
            else:
                for m in d.own_methods:
                    m.name = alike(m.name, mbefore, meths)
                    mbefore.append(m.name)
                    names = {p.name for p in m.params}
                    for k, p in enumerate(m.params):
                        p.name = alike(p.name, [q.name for q in m.params[:k]], names)

    @staticmethod
    def reach(prog, st):
        seen, todo = set(), [st]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += prog.includes[x]
        return seen


def extend(prog, seed):
    """A later revision of `prog`: only appends to its (leaf) interfaces and files."""
    import copy
    g = Gen(seed, "mixed", "ext")
    g.n = 5000
    new = copy.deepcopy(prog)
    r = g.r
    y = random.Random("extend-%s" % seed)
    if y.random() < .5:
        # names that resemble those which the program has already
        old = {k: [] for k in "msIE"}
        for d in new.structs():
            old["s"].append(d.name)
        for d in new.interfaces():
            old["I"].append(d.name)
            old["m"] += [k[1].name for k in d.items if k[0] == "method"]
            old["E"] += [k[1] for k in d.items if k[0] == "error"]
        plain, used = g.name, {n for v in old.values() for n in v}

        def alike(prefix=""):
            n = plain(prefix)
            c = old.get("s" if prefix[:1] in ("S", "T") else prefix[:1] or "-", [])
            if not c or y.random() < .3:
                return n
            c = y.choice(c)
            other = c.swapcase()
            if prefix[:1] in "STm" and prefix and other.lower() != other.upper() and other not in used and y.random() < .4:
                used.add(other)
                return other
            return y.choice(["%sV%d" % (c, g.n), "%s%d" % (c[0], g.n) + c[1:], "%s%s%d" % (c, c[-1], g.n)])
        g.name = alike
    many = y.choice([258, 300, 515]) if y.random() < .08 else 0
    bases = {i.base.name for i in new.interfaces() if i.base}
    changed = 0
    for st in new.files:
        reach = Gen.reach(new, st)
        seen_s, seen_i = [], []
        # everything declared in files this one includes
        for f in new.files:
            if f in reach and f != st:
                seen_s += [d for d in new.decls[f] if isinstance(d, Struct)]
                seen_i += [d for d in new.decls[f] if isinstance(d, Interface)]
        out = []
        for d in new.decls[st]:
            if r.random() < .2:
                s = g.struct(st, seen_s, seen_i)
                seen_s.append(s)
                out.append(s)
            if r.random() < .15:
                c = g.const()
                out.append("const %s %s = %s;" % c[1:])
            if isinstance(d, Interface) and r.random() < .2:
                i = g.iface(st, r.choice([None] + seen_i), seen_s, seen_i)
                seen_i.append(i)
                out.append(i)
            if isinstance(d, Interface) and d.name not in bases and (r.random() < .85 or not changed):
                changed += 1
                for _ in range(r.randint(1, 4)):
                    x = r.random()
                    if x < .6:
                        d.items.append(("method", g.method(seen_s, seen_i)))
                    elif x < .85:
                        d.items.append(("error", g.name("E")))
                    else:
                        d.items.append(g.const())
                if not any(k[0] == "method" for k in d.items[-4:]):
                    d.items.append(("method", g.method(seen_s, seen_i)))
                if many:
                    # op-codes that differ from older ones by a multiple of 256
                    for _ in range(many):
                        ms = d.methods()
                        ps = [Param(g.name(), y.random() < .4, "prim", y.choice(list(PRIMS)))] if y.random() < .1 else []
                        if len(ms) >= 256:
                            ps = [copy.copy(q) for q in ms[len(ms) % 256][1].params]
                        d.items.append(("method", Method(g.name("m"), ps)))
                    many = 0
            if isinstance(d, Struct):
                seen_s.append(d)
            elif isinstance(d, Interface):
                seen_i.append(d)
            out.append(d)
        if r.random() < .5:
            out.append(g.struct(st, seen_s, seen_i))
        new.decls[st] = out
    return new


def overfull(seed):
    """A program with one method that needs more than 15 arguments of a class."""
    r = random.Random("overfull-%s" % seed)
    g = Gen(seed, r.choice(["mixed", "data", "objects"]), "over")
    prog = g.program()
    structs = [s for s in prog.structs()]
    ifs = prog.interfaces()
    while True:
        cls = r.randrange(4)
        want = r.choice([16, 16, 16, 17, 18, 24, 31, 32, 33, 40])
        out = cls % 2 == 1
        params = []
        c = lambda: Method("x", params).counts()[cls]
        objtype = lambda: r.choice([None] + [i.name for i in ifs])
        arrays = r.random() < .4
        guard = 0
        while c() < want and guard < 300:
            guard += 1
            if cls < 2:
                k = r.choice(["buffer", "prims", "structs", "struct", "prim"])
                if k in ("structs",):
                    ok = [s for s in structs if not s.objs]
                    if not ok:
                        continue
                    p = Param(g.name(), out, k, r.choice(ok))
                elif k == "struct":
                    ok = [s for s in structs if s.size > 16]
                    if not ok:
                        continue
                    p = Param(g.name(), out, k, r.choice(ok))
                elif k == "buffer":
                    p = Param(g.name(), out, k, None)
                else:
                    p = Param(g.name(), out, k, r.choice(list(PRIMS)))
            else:
                ok = [s for s in structs if s.objs]
                if arrays and not any(q.kind == "objs" for q in params if q.out == out):
                    p = Param(g.name(), out, "objs", objtype(), r.choice([15, 12, 9, 3]))
                elif ok and r.random() < .5:
                    p = Param(g.name(), out, "struct", r.choice(ok))
                elif not arrays:
                    p = Param(g.name(), out, "obj", objtype(), 1)
                elif not ok:
                    arrays = False
                    params = []
                    continue
                else:
                    p = Param(g.name(), out, "struct", r.choice(ok))
            params.append(p)
        m = Method(g.name("over"), params, optional=r.random() < .2)
        if max(m.counts()) <= MAXCLASS:
            continue
        # some parameters of the other classes around it
        for _ in range(r.randint(0, 3)):
            params.insert(r.randrange(len(params) + 1), Param(g.name(), r.random() < .5, "prim", r.choice(list(PRIMS))))
        if any(not (p.kind == "struct" and p.ty.file not in Gen.reach(prog, prog.files[-1])) for p in params):
            break
    base = r.choice([None] + ifs)
    it = Interface(g.name("IOver"), base, [("method", m)], prog.files[-1])
    if r.random() < .5:
        it.items.insert(0, ("method", Method(g.name("m"), [])))
    prog.decls[prog.files[-1]].append(it)
    r2 = random.Random("overfull-inherited-%s" % seed)
    if r2.random() < .4:
        # the main file only inherits the method, from one of its includes
        for k in range(r2.choice([1, 1, 2])):
            st = "ov%d" % k
            prog.includes[st] = [prog.files[-1]]
            prog.files.append(st)
            prog.decls[st] = []
            for j in range(r2.choice([1, 1, 2])):
                it = Interface("IHeir%d%d" % (k, j), it, [("method", Method("heir%d%d" % (k, j), []))] if r2.random() < .7 else [], st)
                prog.decls[st].append(it)
    return prog, m
