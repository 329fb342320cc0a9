"""Seeded IDL file sets for the compiler-process simulations (C12, C13, C16, C19).

A file set is plain data: [{"path", "includes": [...], "decls": [{"k", "name",
"names", "text"}]}], the main file last.  Texts are derived from the rules of
the language as the properties state them, never from the compiler.
"""
PRIM = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "float32": 4, "float64": 8}
BITS = {"uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1), "int8": (-128, 127), "int16": (-2**15, 2**15 - 1),
        "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1)}


class Scope:
    """What the declarations of a file may refer to."""

    def __init__(self):
        self.structs, self.ifaces, self.members = [], [], {}

    def merge(self, o):
        for s in o.structs:
            if s not in self.structs:
                self.structs.append(s)
        for i in o.ifaces:
            if i not in self.ifaces:
                self.ifaces.append(i)
        self.members.update(o.members)


class Gen:
    def __init__(self, r, rich=1.0, objects_in_structs=False):
        self.r, self.n, self.rich, self.objs = r, 0, rich, objects_in_structs

    def name(self, p):
        self.n += 1
        return "%s%s%d" % (p, self.r.choice(("", "a", "Xy", "_z", "Long_name")), self.n)

    def const(self, ind=""):
        r = self.r
        ty = r.choice(list(PRIM))
        n = self.name(r.choice(("K", "MAX_", "k")))
        if ty.startswith("float"):
            v = r.choice(("1.5", "0", "-2.25", "1000000.125", "3"))
        else:
            lo, hi = BITS[ty]
            x = r.choice((lo, hi, 0, 1, r.randint(lo, hi)))
            v = r.choice(("%d" % x, ("-" if x < 0 else "") + "0x%X" % abs(x)))
        return {"k": "const", "name": n, "names": [n], "text": "%sconst %s %s = %s;" % (ind, ty, n, v)}

    def struct(self, sc):
        r, fs = self.r, []
        for _ in range(r.choice((1, 2, 2, 3, 5))):
            if sc.structs and r.random() < 0.3:
                n, sz, al = r.choice(sc.structs)
                if sz < 4000:
                    fs.append((al, sz, n, r.choice((1, 1, 2, 3))))
            else:
                p = r.choice(list(PRIM))
                fs.append((PRIM[p], PRIM[p], p, r.choice((1, 1, 1, 2, 4, 16))))
        if not fs:
            fs.append((1, 1, "uint8", 3))
        fs.sort(key=lambda f: -f[0])
        align, size = max(f[0] for f in fs), sum(f[1] * f[3] for f in fs)
        lines, names = [], []
        for al, sz, ty, c in fs:
            f = self.name("f")
            names.append(f)
            lines.append("  %s%s %s;" % (ty, "[%d]" % c if c > 1 else "", f))
        if size % align:
            pad = align - size % align
            f = self.name("pad")
            names.append(f)
            lines.append("  uint8%s %s;" % ("[%d]" % pad if pad > 1 else "", f))
            size += pad
        n = self.name("S")
        sc.structs.append((n, size, align))
        return {"k": "struct", "name": n, "names": [n], "fields": names, "text": "struct %s {\n%s\n};" % (n, "\n".join(lines))}

    def param(self, sc, cnt, mode):
        """One parameter, None if it does not fit the 15 arguments of a kind."""
        r = self.r
        d = r.choice(("in", "out"))
        k = r.choice(("prim", "prim", "struct", "buffer", "prims", "structs", "obj", "objs"))
        n = self.name(r.choice(("p", "arg", "value_")))
        if k in ("struct", "structs") and not sc.structs:
            k = "prim"
        if k in ("obj", "objs"):
            m = mode.setdefault(d, k)
            if m != k:
                return None
            if k == "objs" and mode.get(d + "done"):
                return None
            mode[d + "done"] = True
            c = 1 if k == "obj" else r.choice((2, 3, 5))
            if cnt[d, "o"] + c > 15:
                return None
            cnt[d, "o"] += c
            t = r.choice(sc.ifaces)[0] if sc.ifaces and r.random() < 0.6 else "interface"
            return d, "%s %s%s %s" % (d, t, "" if k == "obj" else "[%d]" % c, n), n
        if cnt[d, "b"] >= 14:
            return None
        cnt[d, "b"] += 1
        t = {"prim": lambda: r.choice(list(PRIM)), "struct": lambda: r.choice(sc.structs)[0], "buffer": lambda: "buffer",
             "prims": lambda: r.choice(list(PRIM)) + "[]", "structs": lambda: r.choice(sc.structs)[0] + "[]"}[k]()
        return d, "%s %s %s" % (d, t, n), n

    def method(self, sc):
        r = self.r
        cnt, mode, ps = {(d, k): 0 for d in ("in", "out") for k in "bo"}, {}, []
        for _ in range(r.choice((0, 1, 2, 3, 4, 7))):
            p = self.param(sc, cnt, mode)
            if p:
                ps.append(p[1])
        n = self.name(r.choice(("get", "do", "m")))
        doc = "  /**\n    %s of %s\n  */\n" % (r.choice(("Doc", "@brief what", "two\n    lines")), n) if r.random() < 0.25 else ""
        opt = "  #[optional]\n" if r.random() < 0.15 else ""
        return n, "%s%s  method %s(%s);" % (doc, opt, n, ", ".join(ps))

    def iface(self, sc, nmeth=None):
        r = self.r
        n = self.name("I")
        base = r.choice(sc.ifaces) if sc.ifaces and r.random() < 0.45 else None
        lines, names, errs = [], [], []
        for _ in range(nmeth if nmeth is not None else r.choice((0, 1, 2, 3, 5))):
            x = r.random()
            if x < 0.2 * self.rich:
                c = self.const("  ")
                lines.append(c["text"])
                names += c["names"]
            elif x < 0.4 * self.rich:
                e = self.name(r.choice(("E", "ERR_")))
                lines.append("  error %s;" % e)
                errs.append(e)
            else:
                m, t = self.method(sc)
                lines.append(t)
                names.append(m)
        sc.ifaces.append((n, base[0] if base else None))
        sc.members[n] = names + (sc.members.get(base[0], []) if base else [])
        return {"k": "iface", "name": n, "names": [n] + names, "errors": errs, "base": base[0] if base else None,
                "text": "interface %s%s {\n%s\n};" % (n, " : " + base[0] if base else "", "\n".join(lines))}

    def decls(self, sc, n):
        r, out = self.r, []
        for _ in range(n):
            x = r.random()
            out.append(self.const() if x < 0.25 else self.struct(sc) if x < 0.55 else self.iface(sc))
        return out


STEMS = ("main", "Types", "IThing", "x-y", "my.api", "z_9", "Ünï", "sp ace", "AbC")


def file_set(r, layout=True, max_files=4):
    """An accepted file set with its search path: (files, include dirs)."""
    g = Gen(r)
    n = r.choice(range(1, max_files + 1))
    stems = r.sample(STEMS, n)
    idirs = r.sample(("inc1", "inc2", "Inc 3/deep", "usr/include"), r.choice((1, 2, 3)))
    files, scopes = [], []
    main_dir = r.choice(("src", "src", "", "a/b"))
    for i in range(n):
        last = i == n - 1
        where = main_dir if last else r.choice(idirs + [main_dir])
        path = os_join(where, stems[i] + ".idl")
        sc, inc = Scope(), []
        for j in range(i):
            if r.random() < 0.65 or (last and j == i - 1):
                # bare names are found in the search path, everything else is relative to this file
                inc.append(os_base(files[j]["path"]) if r.random() < 0.6 else relative(os_dir(path), files[j]["path"]))
                sc.merge(scopes[j])
        ds = g.decls(sc, r.choice((1, 2, 4, 7)) if not last else r.choice((1, 3, 5, 8, 12)))
        r.shuffle(inc)
        scopes.append(sc)
        files.append({"path": path, "includes": inc, "decls": ds})
    return files, idirs


def os_join(d, f):
    return d + "/" + f if d else f


def os_base(p):
    return p.rsplit("/", 1)[-1]


def os_dir(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""


def relative(d, p):
    a, b = [x for x in d.split("/") if x], p.split("/")
    while a and len(b) > 1 and a[0] == b[0]:
        a.pop(0)
        b.pop(0)
    s = "../" * len(a) + "/".join(b)
    return s if "/" in s else "./" + s


def text(f):
    if "raw" in f:
        return f["raw"]
    return "".join('include "%s"\n' % i for i in f["includes"]) + "\n".join(d["text"] for d in f["decls"]) + "\n"
