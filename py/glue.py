"""Glue between generated code and the simulator, for C, C++ and Rust.

Every client function and every implementation method exchanges its parameters
with the simulator as an array of SimArg (one per parameter): a pointer to the
in-memory image of the parameter, the number of elements and the number of
elements produced.
"""
import zlib

from idlgen import PRIMS, Interface

C_PRE = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct SimArg { void *p; uint64_t n; uint64_t nout; } SimArg;
typedef struct SimCb {
    int32_t (*impl)(uint64_t id, uint32_t iface, uint32_t meth, SimArg *a);
    void (*drop)(uint64_t id);
} SimCb;
'''


def ctype(p):
    if p.kind in ("prim", "prims"):
        return PRIMS[p.ty][1]
    if p.kind in ("struct", "structs"):
        return p.ty.name
    return "Object"


def includes(prog, ext):
    """The headers of a program in one of the ways a user may include them: every
    header pulls in what it needs."""
    heads, invs = ["%s.%s" % (f, ext) for f in prog.files], ["%s_invoke.%s" % (f, ext) for f in prog.files]
    how = zlib.crc32(" ".join(prog.files).encode() + ext.encode()) % 4
    if how == 1:
        heads, invs = heads[::-1], invs[::-1]
    elif how == 2:
        heads = heads[-1:]
    elif how == 3:
        heads, invs = [], invs[::-1]
    return ['#include "%s"' % f for f in heads + invs]


# ---------------------------------------------------------------------- C --
def c_glue(prog):
    o = [C_PRE] + includes(prog, "h")
    o.append("static const SimCb *sim_cb; void sim_c_init(const SimCb *cb) { sim_cb = cb; }")
    o.append("typedef struct { uint64_t id; uint32_t refs; } CImp;")
    cls, mks = [], []
    for ii, it in enumerate(prog.interfaces()):
        ms = it.methods()
        # client
        for mi, (decl, m) in enumerate(ms):
            args = ["self"]
            for k, p in enumerate(m.params):
                a = "a[%d]" % k
                T = ctype(p)
                if p.kind == "prim" or p.kind == "obj":
                    args.append("(%s*)%s.p" % (T, a) if p.out else "*(const %s*)%s.p" % (T, a))
                elif p.kind == "struct":
                    args.append("(%s*)%s.p" % (T, a) if p.out else "(const %s*)%s.p" % (T, a))
                elif p.kind == "objs":
                    args.append("(%sObject (*)[%d])%s.p" % ("" if p.out else "const ", p.count, a))
                else:
                    T = "void" if p.kind == "buffer" else T
                    args.append("(%s%s*)%s.p" % ("" if p.out else "const ", T, a))
                    args.append("%s.n" % a)
                    if p.out:
                        args.append("&%s.nout" % a)
            fn = "cl_c_%d_%d" % (ii, mi)
            o.append("static int32_t %s(Object self, SimArg *a) { (void)a; return %s_%s(%s); }"
                     % (fn, it.name, m.name, ", ".join(args)))
            cls.append((ii, mi, fn))
        # implementation; variant 1 leaves the optional methods out
        for var in (0, 1):
            if var and not any(m.optional for _, m in ms):
                mks.append((ii, 1, "mk_c_%d_0" % ii))
                continue
            pre = "ci_%d_%d_" % (ii, var)
            o.append("static int32_t %sretain(CImp *me) { me->refs++; return Object_OK; }" % pre)
            o.append("static int32_t %srelease(CImp *me) { if (--me->refs == 0) { sim_cb->drop(me->id); free(me); } return Object_OK; }" % pre)
            for mi, (decl, m) in enumerate(ms):
                if var and m.optional:
                    continue
                sig, body = ["CImp *me"], ["SimArg A[%d];" % max(1, len(m.params)), "memset(A, 0, sizeof A);"]
                post = []
                for k, p in enumerate(m.params):
                    T = ctype(p)
                    v = "x%d" % k
                    c = "" if p.out else "const "
                    if p.kind in ("prim", "obj"):
                        sig.append("%s *%s" % (T, v) if p.out else "%s %s" % (T, v))
                        body.append("A[%d].p = (void*)%s%s; A[%d].n = 1;" % (k, "" if p.out else "&", v, k))
                    elif p.kind == "struct":
                        sig.append("%s%s *%s" % (c, T, v))
                        body.append("A[%d].p = (void*)%s; A[%d].n = 1;" % (k, v, k))
                    elif p.kind == "objs":
                        sig.append("%sObject (*%s)[%d]" % (c, v, p.count))
                        body.append("A[%d].p = (void*)%s; A[%d].n = %d;" % (k, v, k, p.count))
                    else:
                        sig.append("%s%s *%s, size_t %s_len" % (c, "void" if p.kind == "buffer" else T, v, v))
                        body.append("A[%d].p = (void*)%s; A[%d].n = %s_len;" % (k, v, k, v))
                        if p.out:
                            sig.append("size_t *%s_lenout" % v)
                            body.append("A[%d].nout = %s_len;" % (k, v))
                            post.append("*%s_lenout = A[%d].nout;" % (v, k))
                o.append("%sint32_t %s%s(%s) { %s int32_t r = sim_cb->impl(me->id, %d, %d, A); %s return r; }"
                         % ("" if m.optional else "static ", pre, m.name, ", ".join(sig), " ".join(body), ii, mi, " ".join(post)))
            o.append("static %s_DEFINE_INVOKE(inv_c_%d_%d, %s, CImp*)" % (it.name, ii, var, pre))
            o.append("static Object mk_c_%d_%d(uint64_t id) { CImp *me = malloc(sizeof *me); me->id = id; me->refs = 1;"
                     " return (Object){ inv_c_%d_%d, me }; }" % (ii, var, ii, var))
            mks.append((ii, var, "mk_c_%d_%d" % (ii, var)))
    o.append("static uint32_t c_refs(Object o) { return ((CImp*)o.context)->refs; }")
    o.append(tables("c", cls, mks, [(ii, e, "%s_%s" % (it.name, e)) for ii, it in enumerate(prog.interfaces())
                                    for _, e, _ in it.errors()], "c_refs"))
    return "\n".join(o) + "\n"


def tables(lang, cls, mks, errs, refs="0"):
    o = ["typedef struct { uint32_t iface, meth; int32_t (*fn)(Object, SimArg*); } ClEnt%s;" % lang,
         "typedef struct { uint32_t iface, var; Object (*fn)(uint64_t); } MkEnt%s;" % lang,
         "typedef struct { uint32_t iface; int32_t value; const char *name; } ErEnt%s;" % lang]
    o.append("static const ClEnt%s cls_%s[] = { %s };" % (lang, lang, ", ".join(["{%d,%d,%s}" % c for c in cls] + ["{0xffffffffu,0,0}"])))
    o.append("static const MkEnt%s mks_%s[] = { %s };" % (lang, lang, ", ".join(["{%d,%d,%s}" % c for c in mks] + ["{0xffffffffu,0,0}"])))
    o.append("static const ErEnt%s ers_%s[] = { %s };" % (lang, lang, ", ".join(['{%d,%s,"%s"}' % (i, v, n) for i, n, v in errs] + ["{0xffffffffu,0,0}"])))
    ext = 'extern "C" ' if lang == "cpp" else ""
    o.append("%s__attribute__((visibility(\"default\"))) void sim_tab_%s(const void **cl, const void **mk, const void **er, void **refs) "
             "{ *cl = cls_%s; *mk = mks_%s; *er = ers_%s; *refs = (void*)%s; }" % (ext, lang, lang, lang, lang, refs))
    return "\n".join(o)


# -------------------------------------------------------------------- C++ --
def cpp_glue(prog):
    o = [C_PRE] + includes(prog, "hpp")
    o.append('static const SimCb *sim_cb; extern "C" void sim_cpp_init(const SimCb *cb) { sim_cb = cb; }')
    o.append("static inline Object O(void *p) { return *(Object*)p; }")
    cls, mks = [], []
    for ii, it in enumerate(prog.interfaces()):
        ms = it.methods()
        for mi, (decl, m) in enumerate(ms):
            pre, args, post = [], [], []
            for k, p in enumerate(m.params):
                a = "a[%d]" % k
                T = ctype(p)
                c = "" if p.out else "const "
                if p.kind == "prim":
                    args.append("(%s*)%s.p" % (T, a) if p.out else "*(const %s*)%s.p" % (T, a))
                elif p.kind == "struct":
                    args.append("*(%s%s*)%s.p" % (c, T, a))
                elif p.kind == "obj":
                    P = p.ty or "ProxyBase"
                    pre.append("%s x%d(O(%s.p));" % (P, k, a))
                    args.append("x%d" % k)
                    post.append("*(Object*)%s.p = x%d.extract();" % (a, k) if p.out else "x%d.extract();" % k)
                elif p.kind == "objs":
                    P = p.ty or "ProxyBase"
                    pre.append("%s x%d[%d] = { %s };" % (P, k, p.count, ", ".join("%s(((Object*)%s.p)[%d])" % (P, a, j) for j in range(p.count))))
                    args.append("x%d" % k)
                    post.append("for (int j = 0; j < %d; j++) { %s x%d[j].extract(); }" % (p.count, "((Object*)%s.p)[j] =" % a if p.out else "", k))
                else:
                    args.append("(%s%s*)%s.p" % (c, "void" if p.kind == "buffer" else T, a))
                    args.append("%s.n" % a)
                    if p.out:
                        args.append("&%s.nout" % a)
            fn = "cl_cpp_%d_%d" % (ii, mi)
            # through the abstract interface half of the time: same entry point for users
            o.append("static int32_t %s(Object self, SimArg *a) { (void)a; %s me(self); %s int32_t r = me.%s(%s); %s me.extract(); return r; }"
                     % (fn, it.name, " ".join(pre), m.name, ", ".join(args), " ".join(post)))
            cls.append((ii, mi, fn))
        for var in (0, 1):
            if var and not any(m.optional for _, m in ms):
                mks.append((ii, 1, "mk_cpp_%d_0" % ii))
                continue
            C = "CxI_%d_%d" % (ii, var)
            o.append("class %s : public %sImplBase { public: uint64_t id; %s(uint64_t i) : id(i) {} virtual ~%s() { sim_cb->drop(id); }" % (C, it.name, C, C))
            for mi, (decl, m) in enumerate(ms):
                if var and m.optional:
                    continue
                sig, body, post, fail = [], ["SimArg A[%d];" % max(1, len(m.params)), "memset(A, 0, sizeof A);"], [], []
                for k, p in enumerate(m.params):
                    T = ctype(p)
                    v = "x%d" % k
                    c = "" if p.out else "const "
                    if p.kind == "prim":
                        sig.append("%s *%s" % (T, v) if p.out else "%s %s" % (T, v))
                        body.append("A[%d].p = (void*)%s%s; A[%d].n = 1;" % (k, "" if p.out else "&", v, k))
                    elif p.kind == "struct":
                        sig.append("%s%s &%s" % (c, T, v))
                        body.append("A[%d].p = (void*)&%s; A[%d].n = 1;" % (k, v, k))
                    elif p.kind == "obj":
                        sig.append("%s%s &%s" % (c, p.ty or "ProxyBase", v))
                        body.append("Object t%d = %s; A[%d].p = &t%d; A[%d].n = 1;" % (k, "Object_NULL" if p.out else v + ".get()", k, k, k))
                        if p.out:
                            post.append("%s.consume(t%d);" % (v, k))
                    elif p.kind == "objs":
                        sig.append("%s%s (&%s)[%d]" % (c, p.ty or "ProxyBase", v, p.count))
                        body.append("Object t%d[%d]; for (int j = 0; j < %d; j++) t%d[j] = %s; A[%d].p = t%d; A[%d].n = %d;"
                                    % (k, p.count, p.count, k, "Object_NULL" if p.out else v + "[j].get()", k, k, k, p.count))
                        if p.out:
                            post.append("for (int j = 0; j < %d; j++) %s[j].consume(t%d[j]);" % (p.count, v, k))
                    else:
                        sig.append("%s%s *%s, size_t %s_len" % (c, "void" if p.kind == "buffer" else T, v, v))
                        body.append("A[%d].p = (void*)%s; A[%d].n = %s_len;" % (k, v, k, v))
                        if p.out:
                            sig.append("size_t *%s_lenout" % v)
                            body.append("A[%d].nout = %s_len;" % (k, v))
                            post.append("*%s_lenout = A[%d].nout;" % (v, k))
                o.append("  int32_t %s(%s) { %s int32_t r = sim_cb->impl(id, %d, %d, A); %s return r; }"
                         % (m.name, ", ".join(sig), " ".join(body), ii, mi, " ".join(post)))
            o.append("  static Object mk(uint64_t id) { %s *p = new %s(id); return (Object){ &ImplBase::invoke, (ImplBase*)p }; }" % (C, C))
            o.append("};")
            o.append("static Object mk_cpp_%d_%d(uint64_t id) { return %s::mk(id); }" % (ii, var, C))
            mks.append((ii, var, "mk_cpp_%d_%d" % (ii, var)))
    o.append(tables("cpp", cls, mks, [(ii, e, "I%s::%s" % (it.name, e)) for ii, it in enumerate(prog.interfaces())
                                      for _, e, _ in it.errors()]))
    return "\n".join(o) + "\n"


# ------------------------------------------------------------------- Rust --
def rs_type(prog, p, files):
    if p.kind in ("prim", "prims"):
        return PRIMS[p.ty][2]
    if p.kind in ("struct", "structs"):
        return "crate::interfaces::%s::r#%s" % (p.ty.file, p.ty.name)
    if p.kind == "buffer":
        return "u8"
    if p.ty is None:
        return "crate::object::Object"
    return "crate::interfaces::%s::%s" % (p.ty.lower(), p.ty)


RS_PRE = r'''#![allow(warnings)]
#[path = "%s/mod.rs"] pub mod object;
#[allow(unused, nonstandard_style)]
pub mod interfaces {
%s
}
use std::mem::{ManuallyDrop, MaybeUninit, transmute_copy};
#[repr(C)] #[derive(Clone, Copy)] pub struct RawObj { i: *const (), c: *mut () }
#[repr(C)] #[derive(Clone, Copy)] pub struct SimArg { p: *mut u8, n: u64, nout: u64 }
#[repr(C)] pub struct SimCb { imp: unsafe extern "C" fn(u64, u32, u32, *mut SimArg) -> i32, drop: unsafe extern "C" fn(u64) }
static mut CB: *const SimCb = std::ptr::null();
extern "C" { fn sim_c_init(cb: *const SimCb); fn sim_cpp_init(cb: *const SimCb);
  fn sim_tab_c(a: *mut *const u8, b: *mut *const u8, c: *mut *const u8, d: *mut *mut u8);
  fn sim_tab_cpp(a: *mut *const u8, b: *mut *const u8, c: *mut *const u8, d: *mut *mut u8); }
unsafe fn sl<'a, T>(a: &SimArg) -> &'a [T] { if a.n == 0 { &[] } else { std::slice::from_raw_parts(a.p as *const T, a.n as usize) } }
unsafe fn slm<'a, T>(a: &SimArg) -> &'a mut [T] { if a.n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(a.p as *mut T, a.n as usize) } }
unsafe fn call(id: u64, i: u32, m: u32, a: &mut [SimArg]) -> i32 { ((*CB).imp)(id, i, m, a.as_mut_ptr()) }
const Z: SimArg = SimArg { p: std::ptr::null_mut(), n: 0, nout: 0 };
'''


def rs_glue(prog, objdir, have):
    """have: set of languages ('c', 'cpp') linked in."""
    mods = []
    for f in prog.files:
        mods.append('    #[cfg(have_%s)] pub mod %s { include!("rs/%s.rs"); }' % (f, f, f))
    for it in prog.interfaces():
        n = it.name.lower()
        mods.append('    pub mod %s { include!("rs/%s.rs"); }' % (n, n))
    o = [RS_PRE % (objdir, "\n".join(mods))]
    cls, mks, ers = [], [], []
    for ii, it in enumerate(prog.interfaces()):
        ms = it.methods()
        IF = "crate::interfaces::%s" % it.name.lower()
        for mi, (decl, m) in enumerate(ms):
            args, outs, lens = [], [], []
            for k, p in enumerate(m.params):
                T = rs_type(prog, p, prog.files)
                a = "a[%d]" % k
                if not p.out:
                    args.append({
                        "prim": "*(%s.p as *const %s)" % (a, T),
                        "struct": "&*(%s.p as *const %s)" % (a, T),
                        "obj": "(*(%s.p as *const Option<%s>)).as_ref()" % (a, T),
                        "objs": "&*(%s.p as *const [Option<%s>; %d])" % (a, T, p.count),
                    }.get(p.kind, "sl::<%s>(&%s)" % (T, a)))
                elif p.kind in ("buffer", "prims", "structs"):
                    args.append("slm::<%s>(&%s)" % (T, a))
                    lens.append("let mut l%d = 0usize;" % k)
                    args.append("&mut l%d" % k)
                else:
                    outs.append((k, {"obj": "Option<%s>" % T, "objs": "[Option<%s>; %d]" % (T, p.count)}.get(p.kind, T)))
            pat = "()" if not outs else ("v%d" % outs[0][0] if len(outs) == 1 else "(%s)" % ", ".join("v%d" % k for k, _ in outs))
            wr = "".join("std::ptr::write(a[%d].p as *mut %s, v%d);" % (k, t, k) for k, t in outs)
            wl = "".join("a[%d].nout = l%d as u64;" % (k, k) for k, p in enumerate(m.params) if p.out and p.kind in ("buffer", "prims", "structs"))
            fn = "cl_rs_%d_%d" % (ii, mi)
            o.append("unsafe extern \"C\" fn %s(o: RawObj, a: *mut SimArg) -> i32 { let a = std::slice::from_raw_parts_mut(a, %d);"
                     " let me: ManuallyDrop<%s::%s> = ManuallyDrop::new(transmute_copy(&o)); %s"
                     " match me.r#%s(%s) { Ok(%s) => { %s %s 0 } Err(e) => i32::from(crate::object::Error::from(e)) } }"
                     % (fn, len(m.params), IF, it.name, " ".join(lens), m.name, ", ".join(args), pat, wr, wl))
            cls.append((ii, mi, fn))
        for var in (0, 1):
            if var and not any(m.optional for _, m in ms):
                mks.append((ii, 1, "mk_rs_%d_0" % ii))
                continue
            S = "Rs_%d_%d" % (ii, var)
            o.append("struct %s { id: u64 } impl Drop for %s { fn drop(&mut self) { unsafe { ((*CB).drop)(self.id) } } }" % (S, S))
            mi = 0
            for anc in it.chain():
                M = "crate::interfaces::%s" % anc.name.lower()
                o.append("impl %s::I%s for %s {" % (M, anc.name, S))
                for m in anc.own_methods:
                    me = mi
                    mi += 1
                    if var and m.optional:
                        continue
                    sig, body, outs, post = ["&mut self"], ["let mut A = [Z; %d];" % max(1, len(m.params))], [], []
                    for k, p in enumerate(m.params):
                        T = rs_type(prog, p, prog.files)
                        v = "x%d" % k
                        if not p.out:
                            sig.append("%s: %s" % (v, {"prim": T, "struct": "&" + T, "obj": "Option<&%s>" % T,
                                                       "objs": "&[Option<%s>; %d]" % (T, p.count)}.get(p.kind, "&[%s]" % T)))
                            if p.kind == "prim":
                                body.append("A[%d].p = &%s as *const _ as *mut u8; A[%d].n = 1;" % (k, v, k))
                            elif p.kind == "struct":
                                body.append("A[%d].p = %s as *const _ as *mut u8; A[%d].n = 1;" % (k, v, k))
                            elif p.kind == "obj":
                                body.append("let t%d: RawObj = match %s { Some(o) => transmute_copy(o), None => RawObj { i: std::ptr::null(), c: std::ptr::null_mut() } };"
                                            " A[%d].p = &t%d as *const _ as *mut u8; A[%d].n = 1;" % (k, v, k, k, k))
                            elif p.kind == "objs":
                                body.append("A[%d].p = %s as *const _ as *mut u8; A[%d].n = %d;" % (k, v, k, p.count))
                            else:
                                body.append("A[%d].p = %s.as_ptr() as *mut u8; A[%d].n = %s.len() as u64;" % (k, v, k, v))
                        elif p.kind in ("buffer", "prims", "structs"):
                            sig.append("%s: &mut [%s], l%d: &mut usize" % (v, T, k))
                            body.append("A[%d].p = %s.as_mut_ptr() as *mut u8; A[%d].n = %s.len() as u64; A[%d].nout = A[%d].n;" % (k, v, k, v, k, k))
                            post.append("*l%d = A[%d].nout as usize;" % (k, k))
                        else:
                            t = {"obj": "Option<%s>" % T, "objs": "[Option<%s>; %d]" % (T, p.count)}.get(p.kind, T)
                            outs.append((k, t))
                            body.append("let mut t%d: MaybeUninit<%s> = MaybeUninit::zeroed(); A[%d].p = t%d.as_mut_ptr() as *mut u8; A[%d].n = %d;" % (k, t, k, k, k, p.count))
                    ret = "()" if not outs else (outs[0][1] if len(outs) == 1 else "(%s)" % ", ".join(t for _, t in outs))
                    val = "()" if not outs else ("t%d.assume_init()" % outs[0][0] if len(outs) == 1 else "(%s)" % ", ".join("t%d.assume_init()" % k for k, _ in outs))
                    o.append("  fn r#%s(%s) -> Result<%s, %s::Error> { unsafe { %s let r = call(self.id, %d, %d, &mut A); %s"
                             " if r == 0 { Ok(%s) } else { Err(crate::object::Error::from(r).into()) } } }"
                             % (m.name, ", ".join(sig), ret, M, " ".join(body), ii, me, " ".join(post), val))
                o.append("}")
            o.append("unsafe extern \"C\" fn mk_rs_%d_%d(id: u64) -> RawObj { let o: %s::%s = %s { id }.into(); let o = ManuallyDrop::new(o); transmute_copy(&o) }"
                     % (ii, var, IF, it.name, S))
            mks.append((ii, var, "mk_rs_%d_%d" % (ii, var)))
        for d, e, _ in it.errors():
            ers.append((ii, e, "crate::interfaces::%s::%s" % (d.name.lower(), e.upper())))
    o.append("#[repr(C)] pub struct ClEnt { i: u32, m: u32, f: Option<unsafe extern \"C\" fn(RawObj, *mut SimArg) -> i32> }")
    o.append("#[repr(C)] pub struct MkEnt { i: u32, v: u32, f: Option<unsafe extern \"C\" fn(u64) -> RawObj> }")
    o.append("#[repr(C)] pub struct ErEnt { i: u32, v: i32, n: *const u8 } unsafe impl Sync for ErEnt {} ")
    o.append("static CLS: [ClEnt; %d] = [%s];" % (len(cls) + 1, ", ".join(["ClEnt{i:%d,m:%d,f:Some(%s)}" % c for c in cls] + ["ClEnt{i:!0,m:0,f:None}"])))
    o.append("static MKS: [MkEnt; %d] = [%s];" % (len(mks) + 1, ", ".join(["MkEnt{i:%d,v:%d,f:Some(%s)}" % c for c in mks] + ["MkEnt{i:!0,v:0,f:None}"])))
    o.append("#[no_mangle] pub unsafe extern \"C\" fn sim_tab_rs(a: *mut *const u8, b: *mut *const u8, c: *mut *const u8, d: *mut *mut u8) {"
             " *a = CLS.as_ptr() as _; *b = MKS.as_ptr() as _; let mut v: Vec<ErEnt> = Vec::new(); %s"
             " v.push(ErEnt{i:!0,v:0,n:std::ptr::null()}); *c = v.as_ptr() as _; std::mem::forget(v); *d = std::ptr::null_mut(); }"
             % " ".join('v.push(ErEnt{i:%d,v:i32::from(crate::object::Error::from(%s)),n:b"%s\\0".as_ptr()});' % (i, v, n) for i, n, v in ers))
    ini = "".join(" sim_%s_init(cb);" % l for l in ("c", "cpp") if l in have)
    o.append("#[no_mangle] pub unsafe extern \"C\" fn sim_init(cb: *const SimCb) { CB = cb; %s }" % ini)
    for l in ("c", "cpp"):
        if l in have:
            o.append("#[no_mangle] pub unsafe extern \"C\" fn sim_get_%s(a: *mut *const u8, b: *mut *const u8, c: *mut *const u8, d: *mut *mut u8) { sim_tab_%s(a,b,c,d) }" % (l, l))
    o.append("#[no_mangle] pub unsafe extern \"C\" fn sim_get_rs(a: *mut *const u8, b: *mut *const u8, c: *mut *const u8, d: *mut *mut u8) { sim_tab_rs(a,b,c,d) }")
    return "\n".join(o) + "\n"


# ------------------------------------------------------------- descriptor --
KIND = {"prim": "F", "struct": "F", "obj": "O", "objs": "O", "buffer": "V", "prims": "V", "structs": "V"}


def descriptor(prog):
    """Line based description of the model for the simulator."""
    ifs = prog.interfaces()
    o = []
    for ii, it in enumerate(ifs):
        ms = it.methods()
        o.append("iface %d %s %d %d" % (ii, it.name, ifs.index(it.base) if it.base else -1, len(ms)))
        for d, e, v in it.errors():
            o.append("err %s %d" % (e, v))
        for op, (decl, m) in enumerate(ms):
            c = m.counts()
            k = c[0] | c[1] << 4 | c[2] << 8 | c[3] << 12
            o.append("meth %s %d %d %s %d %d" % (m.name, op, int(m.optional), decl.name, len(m.params), k))
            for p in m.params:
                o.append("p %s %s %d %d %d %s" % ("o" if p.out else "i", KIND[p.kind], p.size, p.count,
                                                  len(p.objs), " ".join(map(str, p.objs))))
            for tag, out in (("bi", False), ("bo", True)):
                b = m.bundle(out)
                o.append("%s %d %s" % (tag, len(b), " ".join(map(str, b))))
    o.append("end")
    return "\n".join(o) + "\n"
