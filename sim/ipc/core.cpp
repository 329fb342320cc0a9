// Deterministic IPC simulator.
//
// Hosts the generated client stubs and skeletons of every backend (loaded as
// shared objects, real code), clients and servers (fibers), nodes, object
// handles and the message transport in one process. One seed decides the plan
// of operations, every interleaving, delay and fault; the same seed reproduces
// the same execution exactly. The oracle is the reference model described by
// the descriptor files (derived from the IDL by idlgen.py, never by idlc).
#include <algorithm>
#include <array>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i32 = int32_t;
using i64 = int64_t;
using std::string;
using std::vector;

// ------------------------------------------------------------------- ABI --
struct Object;
union Arg;
typedef i32 (*Invoke)(void *, u32, Arg *, u32);
struct Object {
    Invoke invoke;
    void *context;
};
union Arg {
    struct {
        void *ptr;
        size_t size;
    } b;
    Object o;
};
static const u32 OP_RELEASE = 0xffff, OP_RETAIN = 0xfffe;
struct SimArg {
    void *p;
    u64 n, nout;
};
struct SimCb {
    i32 (*impl)(u64, u32, u32, SimArg *);
    void (*drop)(u64);
};
struct ClEnt {
    u32 iface, meth;
    i32 (*fn)(Object, SimArg *);
};
struct MkEnt {
    u32 iface, var;
    Object (*fn)(u64);
};
struct ErEnt {
    u32 iface;
    i32 value;
    const char *name;
};
static const Object NUL = {nullptr, nullptr};

// ------------------------------------------------------------------- RNG --
static u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    Rng(u64 seed, u64 salt) : s(mix(seed * 0x100000001b3ull ^ mix(salt))) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool p(double pr) { return (next() >> 11) * (1.0 / 9007199254740992.0) < pr; }
    template <class T> T &pick(vector<T> &v) { return v[below(v.size())]; }
};

// ----------------------------------------------------------- descriptors --
struct ParamD {
    bool out;
    char kind; // F fixed size data, V array of data, O object(s)
    u64 size, count;
    vector<u64> objs;
};
struct MethD {
    string name, decl;
    u32 op, counts;
    bool optional;
    vector<ParamD> ps;
    vector<u32> bun[2];
    // discrete buffers, -1 is the bundle
    vector<int> bufs[2];
    u64 bunsize[2] = {0, 0};
    u32 nbi() const { return counts & 15; }
    u32 nbo() const { return counts >> 4 & 15; }
    u32 noi() const { return counts >> 8 & 15; }
    u32 noo() const { return counts >> 12 & 15; }
    bool has_objs() const { return (counts >> 8) != 0; }
};
struct IfaceD {
    string name;
    int base;
    vector<std::pair<string, i32>> errs;
    vector<MethD> ms;
};
enum { L_C, L_CPP, L_RS, L_JAVA, NLANG };
static const char *LANGS[] = {"c", "cpp", "rs", "java"};
struct Lib {
    string path, desc;
    int idx;
    vector<IfaceD> ifs;
    bool have[NLANG] = {};
    vector<vector<i32 (*)(Object, SimArg *)>> cl[NLANG];
    vector<std::array<Object (*)(u64), 2>> mk[NLANG];
    std::map<std::pair<u32, string>, i32> er[NLANG];
    u32 (*c_refs)(Object) = nullptr;
    int iface_by_name(const string &n) const {
        for (size_t i = 0; i < ifs.size(); i++)
            if (ifs[i].name == n) return (int)i;
        return -1;
    }
};
static vector<Lib *> libs;

// ------------------------------------------------------------- reporting --
static string g_prop;
static u64 g_seed;
static FILE *g_trace;
static u64 g_opidx = ~0ull; // index of the op running (for reports)
static int g_phase;         // 0 outside, 1 client stub, 2 serving, 3 hostile delivery
static bool g_stop;         // end the run: a violation was recorded
static string g_where;
static bool g_phase_objs;

struct Violation {
    string tags, kind, detail;
    u64 op;
};
static vector<Violation> g_viol, g_other;

static string jesc(const string &s) {
    string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if ((unsigned char)c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else o += c;
    }
    return o;
}
static string fmt(const char *f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static u64 g_digest;
static void dig(u64 x) { g_digest = mix(g_digest ^ x) + 0x51ull; }
static u64 g_sched; // digest of the order of the scheduling decisions only

static void tracef(const char *f, ...) __attribute__((format(printf, 1, 2)));
static u64 g_now;
static void tracef(const char *f, ...) {
    if (!g_trace) return;
    fprintf(g_trace, "[%10" PRIu64 "] ", g_now);
    va_list ap;
    va_start(ap, f);
    vfprintf(g_trace, f, ap);
    va_end(ap);
    fputc('\n', g_trace);
}
static bool tagged(const string &tags) {
    std::stringstream ss(tags);
    string t;
    while (std::getline(ss, t, ','))
        if (t == g_prop || g_prop == "ALL") return true;
    return false;
}
// fatal: the state of the simulation cannot be trusted afterwards
static void viol(const string &tags, const string &kind, const string &detail, bool fatal = false) {
    tracef("VIOLATION [%s] %s: %s", tags.c_str(), kind.c_str(), detail.c_str());
    dig(0xbad);
    auto &v = tagged(tags) ? g_viol : g_other;
    if (v.size() < 8) v.push_back({tags, kind, detail + (g_where.empty() ? "" : " @ " + g_where), g_opidx});
    if (fatal || tagged(tags)) g_stop = true;
}
static void print_viol(char c, const Violation &v) {
    printf("%c {\"seed\":%" PRIu64 ",\"tags\":\"%s\",\"kind\":\"%s\",\"op\":%" PRId64 ",\"detail\":\"%s\",\"digest\":\"%016" PRIx64 "\"}\n", c, g_seed,
           v.tags.c_str(), jesc(v.kind).c_str(), (i64)v.op, jesc(v.detail).c_str(), g_digest);
}

struct Stats {
    u64 runs = 0, ops = 0, calls = 0, impl_runs = 0, envelopes = 0, deliveries = 0, hostile = 0, hostile_refused = 0, events = 0, simtime = 0, replies_ok = 0,
        optional_refused = 0, rev_refused = 0, nested = 0, objects_passed = 0, drops_checked = 0, switches = 0;
    std::map<string, u64> faults, pairs, muts, links;
    std::unordered_set<u64> methods, scheds, methpairs;
} ST;

// ---------------------------------------------------------- guard memory --
struct Guard {
    static const size_t PG = 4096, NPG = 64, SLOT = (NPG + 2) * PG, N = 3000;
    u8 *base;
    vector<u32> freel;
    struct Blk {
        u8 *p;
        size_t n;
        u32 slot;
    };
    std::unordered_map<u8 *, Blk> live;
    Guard() {
        base = (u8 *)mmap(nullptr, SLOT * N, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (u32 i = 0; i < N; i++) {
            mprotect(base + i * SLOT + PG, NPG * PG, PROT_READ | PROT_WRITE);
            freel.push_back(N - 1 - i);
        }
    }
    static u8 can(u8 *p) { return (u8)(0xC3 ^ ((uintptr_t)p * 31)); }
    u8 *data(u32 s) { return base + s * SLOT + PG; }
    // `align`: the buffer starts aligned; it ends as close to the guard page as
    // that allows, the gap holds canaries.
    u8 *alloc(size_t n, u8 fill, size_t align = 16) {
        if (freel.empty() || n > NPG * PG - 128) {
            fprintf(stderr, "guard memory exhausted (%zu)\n", n);
            exit(3);
        }
        u32 s = freel.back();
        freel.pop_back();
        u8 *end = data(s) + NPG * PG;
        u8 *p = (u8 *)(((uintptr_t)end - n) & ~(uintptr_t)(align - 1));
        memset(p, fill, n);
        for (u8 *q = p + n; q < end; q++) *q = can(q);
        for (u8 *q = p - 64; q < p; q++) *q = can(q);
        live[p] = {p, n, s};
        return p;
    }
    bool intact(u8 *p) {
        auto &b = live.at(p);
        u8 *end = data(b.slot) + NPG * PG;
        for (u8 *q = p + b.n; q < end; q++)
            if (*q != can(q)) return false;
        for (u8 *q = p - 64; q < p; q++)
            if (*q != can(q)) return false;
        return true;
    }
    void free(u8 *p) {
        auto it = live.find(p);
        freel.push_back(it->second.slot);
        live.erase(it);
    }
    void reset() {
        vector<u8 *> all;
        for (auto &x : live) all.push_back(x.first);
        for (auto *p : all) live.erase(p);
        freel.clear();
        for (u32 i = 0; i < N; i++) freel.push_back(N - 1 - i);
    }
};
static Guard *G;

// ---------------------------------------------------------------- fibers --
struct Call;
struct Serve {
    Call *call = nullptr;
    bool hostile = false, impl_called = false;
    int run = -1;
    struct Ent *target = nullptr;
};
struct Fiber {
    ucontext_t ctx;
    char *stack;
    std::function<void()> fn;
    bool done = false;
    int id, node = 0;
    vector<Call *> calls;    // client calls in progress
    vector<Serve *> serving; // deliveries in progress
    vector<u64> rank;        // instances on the chain of calls
};
static const size_t STK = 4096 * 1024;
static vector<char *> stackpool;
static ucontext_t main_ctx;
static Fiber *cur;
static vector<Fiber *> fibers;
static void fiber_main() {
    cur->fn();
    cur->done = true;
    swapcontext(&cur->ctx, &main_ctx);
}
static void resume(Fiber *f) {
    if (f->done) return;
    Fiber *prev = cur;
    int ph = g_phase;
    string w = g_where;
    u64 oi = g_opidx;
    cur = f;
    ST.switches++;
    swapcontext(&main_ctx, &f->ctx);
    cur = prev;
    g_phase = ph;
    g_where = w;
    g_opidx = oi;
    if (f->done && f->stack) {
        stackpool.push_back(f->stack);
        f->stack = nullptr;
    }
}
static void yield_fiber() {
    Fiber *me = cur;
    int ph = g_phase;
    bool po = g_phase_objs;
    string w = g_where;
    u64 oi = g_opidx;
    swapcontext(&me->ctx, &main_ctx);
    cur = me;
    g_phase = ph;
    g_phase_objs = po;
    g_where = w;
    g_opidx = oi;
}
static Fiber *spawn(int node, std::function<void()> fn) {
    Fiber *f = new Fiber;
    f->id = (int)fibers.size();
    f->node = node;
    f->fn = std::move(fn);
    if (stackpool.empty()) f->stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else {
        f->stack = stackpool.back();
        stackpool.pop_back();
    }
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STK;
    f->ctx.uc_link = &main_ctx;
    makecontext(&f->ctx, fiber_main, 0);
    fibers.push_back(f);
    return f;
}

// ------------------------------------------------------------ event loop --
struct Ev {
    u64 t, tie, seq;
    const char *what;
    u64 id;
    std::function<void()> fn;
};
struct EvCmp {
    bool operator()(const Ev *a, const Ev *b) const {
        if (a->t != b->t) return a->t > b->t;
        if (a->tie != b->tie) return a->tie > b->tie;
        return a->seq > b->seq;
    }
};
static std::priority_queue<Ev *, vector<Ev *>, EvCmp> evq;
static u64 ev_seq;
static Rng sched_rng;
static void at(u64 t, const char *what, u64 id, std::function<void()> fn) { evq.push(new Ev{t, sched_rng.next(), ev_seq++, what, id, std::move(fn)}); }
static void run_events() {
    while (!evq.empty() && !g_stop) {
        Ev *e = evq.top();
        evq.pop();
        g_now = std::max(g_now, e->t);
        ST.events++;
        u64 h = mix(e->id ^ ((u64)e->what[0] << 56) ^ ((u64)e->what[1] << 48));
        g_sched = mix(g_sched ^ h);
        dig(h);
        tracef("event %s #%" PRIu64, e->what, e->id);
        e->fn();
        delete e;
    }
}
static void sleep_fiber(u64 dt, const char *what) {
    Fiber *f = cur;
    at(g_now + dt, what, (u64)f->id, [f] { resume(f); });
    yield_fiber();
}

// --------------------------------------------------------------- objects --
struct Msg;
struct Ent {
    u64 id;
    bool inst; // real implementation object, else a probe
    int node;
    Object raw;
    i64 ledger = 1; // references the simulator knows about
    bool dropped = false, crashed = false, refused = false; // refused: has refused a malformed invocation
    // instance
    Lib *lib = nullptr;
    int iface = -1, lang = 0, var = 0, busy = 0;
    vector<Fiber *> waiting;
    // probe
    i64 refs = 1;
    int inflight = 0;
};
struct Handle {
    u64 id;
    Ent *target;
    int node;
    i64 refs = 1, ledger = 1;
    int mode; // 1 interposed direct call, 2 transport
    bool freed = false;
};
static vector<Ent *> ents;
static vector<Handle *> handles;
static std::unordered_set<void *> handle_set, probe_set;
static std::unordered_map<void *, Ent *> inst_by_ctx;
static i32 probe_invoke(void *h, u32 op, Arg *, u32);
static i32 handle_invoke(void *h, u32 op, Arg *a, u32 k);
static i32 poison_invoke(void *, u32 op, Arg *, u32) {
    viol("C05", "poison object touched", fmt("an object found in an output slot of a failed call was used (op %#x)", op));
    return -92;
}
static Object poison() { return {poison_invoke, (void *)0x5005}; }

static bool isnull(Object o) { return o.invoke == nullptr; }
// identity of an object; nullptr for null. *ok=false if it is not an object we know.
static Ent *ent_of(Object o, bool *ok = nullptr) {
    if (ok) *ok = true;
    if (isnull(o)) return nullptr;
    if (o.invoke == probe_invoke && probe_set.count(o.context)) return (Ent *)o.context;
    if (o.invoke == handle_invoke && handle_set.count(o.context)) return ((Handle *)o.context)->target;
    auto it = inst_by_ctx.find(o.context);
    if (it != inst_by_ctx.end() && it->second->raw.invoke == o.invoke) return it->second;
    if (ok) *ok = false;
    return nullptr;
}
static string oname(Object o) {
    bool ok;
    Ent *e = ent_of(o, &ok);
    if (!ok) return fmt("<unknown %p,%p>", (void *)o.invoke, o.context);
    if (!e) return "null";
    return fmt("%s%" PRIu64, e->inst ? "inst" : "probe", e->id) + (o.invoke == handle_invoke ? fmt("/h%" PRIu64, ((Handle *)o.context)->id) : "");
}
static i64 &ledger_of(Object o) {
    if (o.invoke == handle_invoke) return ((Handle *)o.context)->ledger;
    return ent_of(o)->ledger;
}
static void check_counts(Object o, const char *when) {
    if (isnull(o) || g_stop) return;
    bool ok;
    Ent *e = ent_of(o, &ok);
    if (!ok) return;
    if (o.invoke == handle_invoke) {
        Handle *h = (Handle *)o.context;
        if (h->refs != h->ledger) viol("C05", "reference count not neutral", fmt("%s: count of %s is %" PRId64 ", holders account for %" PRId64, when, oname(o).c_str(), h->refs, h->ledger), true);
    } else if (!e->inst) {
        if (e->refs != e->ledger) viol("C05", "reference count not neutral", fmt("%s: count of %s is %" PRId64 ", holders account for %" PRId64, when, oname(o).c_str(), e->refs, e->ledger), true);
    } else {
        if (e->ledger > 0 && e->dropped) viol("C05", "implementation dropped too early", fmt("%s: %s dropped while %" PRId64 " references are held", when, oname(o).c_str(), e->ledger), true);
        else if (e->ledger > 0 && e->lang == L_C && e->lib->c_refs && (i64)e->lib->c_refs(e->raw) != e->ledger)
            viol("C05", "reference count not neutral", fmt("%s: count of %s is %u, holders account for %" PRId64, when, oname(o).c_str(), e->lib->c_refs(e->raw), e->ledger), true);
    }
}
static void core_retain(Object o) {
    if (isnull(o)) return;
    ledger_of(o)++;
    o.invoke(o.context, OP_RETAIN, nullptr, 0);
}
static void core_release(Object o, const char *why) {
    if (isnull(o)) return;
    bool ok;
    Ent *e = ent_of(o, &ok);
    if (!ok) {
        viol("C05,C01", "unknown object", fmt("%s: released object %s is unknown", why, oname(o).c_str()), true);
        return;
    }
    bool handle = o.invoke == handle_invoke;
    i64 &l = ledger_of(o);
    l--;
    if (!handle && e->inst && e->dropped) {
        viol("C05", "double release", fmt("%s: %s was dropped while the simulator still held a reference", why, oname(o).c_str()), true);
        return;
    }
    i64 after = l;
    o.invoke(o.context, OP_RELEASE, nullptr, 0);
    if (!handle && e->inst) {
        ST.drops_checked++;
        if (after == 0 && !e->dropped) viol("C05", "leaked reference", fmt("%s: last reference of inst%" PRIu64 " (%s) was released but it was not dropped", why, e->id, LANGS[e->lang]));
        if (after > 0 && e->dropped) viol("C05", "implementation dropped too early", fmt("%s: inst%" PRIu64 " (%s) dropped with %" PRId64 " references left", why, e->id, LANGS[e->lang], after), true);
    }
}

// ----------------------------------------------------------------- world --
struct Ref {
    Object o;
    Ent *e;
};
struct Node {
    int id;
    bool up = true;
    u64 epoch = 0;
    vector<Ref> refs;
};
static vector<Node> nodes;
static u64 inst_budget;

static Object make_inst(int node, Rng &r, int forcelang = -1) {
    Lib *L = r.pick(libs);
    vector<int> ls;
    for (int i = 0; i < NLANG; i++)
        if (L->have[i]) ls.push_back(i);
    int lang = forcelang >= 0 ? forcelang : r.pick(ls);
    // prefer leaf interfaces: they flatten the ancestors
    int ifc = (int)r.below(L->ifs.size());
    if (r.p(.5)) ifc = std::max(ifc, (int)r.below(L->ifs.size()));
    Ent *e = new Ent;
    e->id = ents.size();
    e->inst = true;
    e->node = node;
    e->lib = L;
    e->iface = ifc;
    e->lang = lang;
    e->var = r.p(.35);
    ents.push_back(e);
    e->raw = L->mk[lang][ifc][e->var](e->id);
    inst_by_ctx[e->raw.context] = e;
    tracef("node%d: new inst%" PRIu64 " %s %s var%d rev%d", node, e->id, L->ifs[ifc].name.c_str(), LANGS[lang], e->var, L->idx);
    return e->raw;
}
static Object make_probe(int node) {
    Ent *e = new Ent;
    e->id = ents.size();
    e->inst = false;
    e->node = node;
    e->raw = {probe_invoke, e};
    ents.push_back(e);
    probe_set.insert(e);
    return e->raw;
}
static Object raw_of(Object o) { return o.invoke == handle_invoke ? ((Handle *)o.context)->target->raw : o; }
static int home_of(Object o) { return ent_of(o)->node; }
// A reference usable on `node` for the object behind `o`; owned by the caller.
static Object import(Object o, int node, Rng &r, bool always_handle = false) {
    if (isnull(o)) return o;
    Object raw = raw_of(o);
    core_retain(raw);
    if (home_of(raw) == node && !(always_handle || r.p(.25))) return raw;
    Handle *h = new Handle;
    h->id = handles.size();
    h->target = ent_of(raw);
    h->node = node;
    h->mode = home_of(raw) == node ? 1 : 2;
    handles.push_back(h);
    handle_set.insert(h);
    return {handle_invoke, h};
}

static i32 probe_invoke(void *c, u32 op, Arg *, u32) {
    Ent *e = (Ent *)c;
    if (op == OP_RETAIN || op == OP_RELEASE) {
        if (e->refs <= 0) {
            viol("C05", op == OP_RETAIN ? "retain of a dead object" : "double release", fmt("probe%" PRIu64, e->id), true);
            return 0;
        }
        e->refs += op == OP_RETAIN ? 1 : -1;
        return 0;
    }
    return 2;
}
static u64 g_handle_rel_seed;
static void handle_gone(Handle *h) {
    h->freed = true;
    Object raw = h->target->raw;
    if (mix(g_seed ^ h->id * 77) & 1) core_release(raw, "handle released");
    else {
        ST.faults["deferred_release"]++;
        at(g_now + 1 + mix(g_seed ^ h->id) % 500, "release", h->id, [raw] { core_release(raw, "deferred release of a handle"); });
    }
}

// ------------------------------------------------------------------ calls --
struct ImplRun {
    i32 status = 0;
    vector<vector<u8>> img;        // per parameter: bytes (object slots zeroed)
    vector<vector<Ent *>> objs;    // per parameter: objects
    vector<u64> nout;
    bool finished = false;
};
struct Call {
    u64 id, seed;
    Lib *lib;
    int iface, meth, lang;
    MethD *md;
    Ent *target;
    int node;
    vector<SimArg> args;
    vector<vector<u8>> in_img;
    vector<vector<Ent *>> in_objs;
    vector<ImplRun> runs;
    int used_run = -1;
    i32 transport_status = 0; // != 0: a fault decided the status
    bool expect_refused = false, rev_unknown = false, opt_missing = false;
    bool returned = false, envelope_seen = false;
    bool hostile = false;
    int link = 0; // 0 raw direct, 1 interposed, 2 transport
    Object ref;
    string label;
    vector<Object> pre; // what the output proxies of the caller already hold
};
static u64 call_seq;
static vector<Call *> all_calls;
static int depth_total;

static void fill(Rng &r, u8 *p, size_t n) {
    int style = (int)r.below(8);
    for (size_t i = 0; i < n; i++) p[i] = style == 0 ? 0 : style == 1 ? 0xff : style == 2 ? 0x80 : (u8)r.next();
}
// BI/BO image the model prescribes for buffer `b` (-1: bundle)
static void wire_of(const MethD &m, bool out, int b, const vector<vector<u8>> &img, vector<u8> &w) {
    w.clear();
    if (b >= 0) w = img[b];
    else
        for (u32 k : m.bun[out]) w.insert(w.end(), img[k].begin(), img[k].end());
}
static string hex(const u8 *p, size_t n) {
    string s;
    for (size_t i = 0; i < n && i < 64; i++) s += fmt("%02x", p[i]);
    if (n > 64) s += "..";
    return s;
}
// Are the object slots of buffer b blank in `w`?
static bool slots_blank(const MethD &m, bool out, int b, const u8 *w, size_t n) {
    size_t off = 0;
    auto chk = [&](u32 k) {
        for (u64 s : m.ps[k].objs)
            for (int i = 0; i < 16; i++)
                if (off + s + i < n && w[off + s + i]) return false;
        off += m.ps[k].size;
        return true;
    };
    if (b >= 0) return m.ps[b].kind == 'F' ? chk(b) : true;
    for (u32 k : m.bun[out])
        if (!chk(k)) return false;
    return true;
}
static vector<Ent *> flat(const MethD &m, bool out, const vector<vector<Ent *>> &objs) {
    vector<Ent *> v;
    for (size_t k = 0; k < m.ps.size(); k++)
        if (m.ps[k].out == out) v.insert(v.end(), objs[k].begin(), objs[k].end());
    return v;
}
static string names(const vector<Ent *> &v) {
    string s;
    for (auto *e : v) s += (s.empty() ? "" : " ") + (e ? fmt("%s%" PRIu64, e->inst ? "inst" : "probe", e->id) : string("null"));
    return "[" + s + "]";
}

// Is the argument array that the stub handed over the canonical envelope?
// Returns false when the layout is so different that it cannot be forwarded
// according to the model (it is forwarded according to its own counts anyway).
static void check_envelope(Call *c, u32 op, Arg *a, u32 k) {
    const MethD &m = *c->md;
    ST.envelopes++;
    c->envelope_seen = true;
    if (op != m.op) viol("C07,C02", "wrong op-code", fmt("%s: op %u, expected %u", c->label.c_str(), op, m.op));
    if (k != m.counts)
        viol((k & 0xff) != (m.counts & 0xff) ? "C02,C03" : "C02", "wrong counts", fmt("%s: counts BI%u BO%u OI%u OO%u (%#x), expected BI%u BO%u OI%u OO%u", c->label.c_str(), k & 15, k >> 4 & 15, k >> 8 & 15, k >> 12 & 15, k,
                                       m.nbi(), m.nbo(), m.noi(), m.noo()));
    u32 nbi = k & 15, nbo = k >> 4 & 15, noi = k >> 8 & 15, noo = k >> 12 & 15;
    if (!a && (nbi + nbo + noi + noo)) {
        viol("C02,C01", "no argument array", c->label, true);
        return;
    }
    if (k == m.counts) {
        for (u32 i = 0; i < nbi; i++) {
            vector<u8> w;
            wire_of(m, false, m.bufs[0][i], c->in_img, w);
            if (a[i].b.size != w.size())
                viol("C03", "wrong input buffer size", fmt("%s: BI[%u] has size %zu, expected %zu", c->label.c_str(), i, a[i].b.size, w.size()));
            else if (w.size() && memcmp(a[i].b.ptr, w.data(), w.size())) {
                string t = "C03";
                viol(t, slots_blank(m, false, m.bufs[0][i], (u8 *)a[i].b.ptr, w.size()) ? "wrong input buffer bytes" : "object handle inside a data buffer",
                     fmt("%s: BI[%u] is %s, expected %s", c->label.c_str(), i, hex((u8 *)a[i].b.ptr, w.size()).c_str(), hex(w.data(), w.size()).c_str()));
            }
        }
        for (u32 i = 0; i < nbo; i++) {
            int b = m.bufs[1][i];
            u64 want = b < 0 ? m.bunsize[1] : m.ps[b].kind == 'V' ? c->args[b].n * m.ps[b].size : m.ps[b].size;
            if (a[nbi + i].b.size != want) viol("C03", "wrong output buffer size", fmt("%s: BO[%u] has size %zu, expected %" PRIu64, c->label.c_str(), i, a[nbi + i].b.size, want));
        }
        vector<Ent *> got, want = flat(m, false, c->in_objs);
        for (u32 i = 0; i < noi; i++) {
            bool ok;
            Object o = a[nbi + nbo + i].o;
            Ent *e = ent_of(o, &ok);
            if (!ok) {
                viol("C02,C01", "input object slot does not hold an object of the call", fmt("%s: OI[%u] is %s", c->label.c_str(), i, oname(o).c_str()), true);
                return;
            }
            got.push_back(e);
        }
        auto x = got, y = want;
        auto lt = [](Ent *p, Ent *q) { return (p ? p->id + 1 : 0) < (q ? q->id + 1 : 0); };
        std::sort(x.begin(), x.end(), lt);
        std::sort(y.begin(), y.end(), lt);
        if (x != y) viol("C02,C01", "wrong input objects", fmt("%s: OI %s, expected %s", c->label.c_str(), names(got).c_str(), names(want).c_str()));
        ST.objects_passed += got.size();
    }
}
static void check_outputs(Call *c, ImplRun &run, Arg *a, const char *who) {
    const MethD &m = *c->md;
    u32 nbi = m.nbi(), nbo = m.nbo(), noi = m.noi(), noo = m.noo();
    for (u32 i = 0; i < nbo; i++) {
        vector<u8> w;
        wire_of(m, true, m.bufs[1][i], run.img, w);
        Arg &x = a[nbi + i];
        if (x.b.size != w.size()) viol("C03,C01", "wrong output buffer size after the call", fmt("%s (%s): BO[%u] has size %zu, expected %zu", c->label.c_str(), who, i, x.b.size, w.size()));
        else if (w.size() && memcmp(x.b.ptr, w.data(), w.size()))
            viol("C03", slots_blank(m, true, m.bufs[1][i], (u8 *)x.b.ptr, w.size()) ? "wrong output buffer bytes" : "object handle inside a data buffer",
                 fmt("%s (%s): BO[%u] is %s, expected %s", c->label.c_str(), who, i, hex((u8 *)x.b.ptr, w.size()).c_str(), hex(w.data(), w.size()).c_str()));
    }
    vector<Ent *> got, want = flat(m, true, run.objs);
    for (u32 i = 0; i < noo; i++) {
        bool ok;
        Object o = a[nbi + nbo + noi + i].o;
        Ent *e = ent_of(o, &ok);
        if (!ok) {
            viol("C02,C01", "output object slot does not hold an object of the call", fmt("%s (%s): OO[%u] is %s", c->label.c_str(), who, i, oname(o).c_str()), true);
            return;
        }
        got.push_back(e);
    }
    auto x = got, y = want;
    auto lt = [](Ent *p, Ent *q) { return (p ? p->id + 1 : 0) < (q ? q->id + 1 : 0); };
    std::sort(x.begin(), x.end(), lt);
    std::sort(y.begin(), y.end(), lt);
    if (x != y) viol("C02,C01", "wrong output objects", fmt("%s (%s): OO %s, expected %s", c->label.c_str(), who, names(got).c_str(), names(want).c_str()), true);
}

// --------------------------------------------------------------- serving --
static void client_op(Rng &r, int node, int depth);

// Fault probabilities; the profile is chosen by the property.
struct Prof {
    double err = .15, nested = .1, drop_req = .02, drop_rep = .02, dup = .03, poison = .5, hostile_pre = .05, crash = .01, yield = .25, prefill = .3, direct = .3, keep = .15, late = .02,
           hostile_op = .05, zero = .15;
} PF;
static std::set<string> nofault;
static bool fault(const char *name, bool yes) {
    if (!yes || nofault.count(name)) return false;
    ST.faults[name]++;
    return true;
}

static i32 impl_cb(u64 id, u32 iface, u32 meth, SimArg *a) {
    Serve *s = cur->serving.empty() ? nullptr : cur->serving.back();
    Ent *e = id < ents.size() ? ents[id] : nullptr;
    if (!s || !e || !e->inst) {
        viol("C04,C01", "implementation called without an invocation", fmt("inst%" PRIu64 " method %u", id, meth), true);
        return 1;
    }
    const MethD &sm = e->lib->ifs[iface].ms[meth];
    if (s->hostile) {
        s->impl_called = true;
        viol("C04", "malformed invocation reached the implementation", fmt("%s of inst%" PRIu64 " (%s %s): %s", sm.name.c_str(), id, e->lib->ifs[iface].name.c_str(), LANGS[e->lang], s->call->label.c_str()), true);
        return 1;
    }
    Call *c = s->call;
    const MethD &m = *c->md;
    ImplRun &run0 = c->runs[s->run];
    if (run0.finished) {
        viol("C01", "implementation called twice", c->label, true);
        return 1;
    }
    string rev = c->lib != e->lib ? ",C15" : "";
    if (e != c->target) viol("C01", "call reached another object", fmt("%s: inst%" PRIu64, c->label.c_str(), id), true);
    if (e->dropped) viol("C05", "method of a dropped implementation runs", c->label, true);
    if (c->rev_unknown) {
        viol("C15", "method unknown to the old revision reached another method", fmt("%s: reached %s", c->label.c_str(), sm.name.c_str()), true);
        return 1;
    }
    if (c->opt_missing) {
        viol("C04", "missing optional method was served", fmt("%s: reached %s", c->label.c_str(), sm.name.c_str()), true);
        return 1;
    }
    if (sm.name != m.name || sm.decl != m.decl) {
        viol("C07,C01" + rev, "call reached another method", fmt("%s: reached %s.%s", c->label.c_str(), sm.decl.c_str(), sm.name.c_str()), true);
        return 1;
    }
    ST.impl_runs++;
    int savephase = g_phase;
    g_phase = 0;
    // ---- inputs
    for (size_t k = 0; k < m.ps.size() && !g_stop; k++) {
        const ParamD &p = m.ps[k];
        if (p.out) continue;
        auto bad = [&](const string &d) { viol("C01,C03" + rev, "implementation received a wrong value", fmt("%s: parameter %zu: %s", c->label.c_str(), k, d.c_str())); };
        auto obj = [&](Object o, size_t j) {
            bool ok;
            Ent *x = ent_of(o, &ok);
            if (!ok || x != c->in_objs[k][j]) {
                viol("C01" + rev, "implementation received a wrong object", fmt("%s: parameter %zu object %zu is %s, expected %s", c->label.c_str(), k, j, oname(o).c_str(), names({c->in_objs[k][j]}).c_str()), !ok);
            } else if (x && o.invoke == handle_invoke && ((Handle *)o.context)->freed) viol("C05", "input object already released", fmt("%s: parameter %zu", c->label.c_str(), k), true);
        };
        if (p.kind == 'F') {
            vector<u8> im((u8 *)a[k].p, (u8 *)a[k].p + p.size);
            for (size_t j = 0; j < p.objs.size(); j++) {
                Object o;
                memcpy(&o, &im[p.objs[j]], 16);
                memset(&im[p.objs[j]], 0, 16);
                obj(o, j);
            }
            if (im != c->in_img[k]) bad(hex(im.data(), im.size()) + ", expected " + hex(c->in_img[k].data(), c->in_img[k].size()));
        } else if (p.kind == 'V') {
            u64 n = c->in_img[k].size();
            if (a[k].n * p.size != n) bad(fmt("%" PRIu64 " elements, expected %" PRIu64, a[k].n, n / p.size));
            else if (n && memcmp(a[k].p, c->in_img[k].data(), n)) bad(hex((u8 *)a[k].p, n) + ", expected " + hex(c->in_img[k].data(), n));
        } else
            for (u64 j = 0; j < p.count; j++) obj(((Object *)a[k].p)[j], j);
    }
    for (size_t k = 0; k < m.ps.size() && !g_stop; k++)
        if (m.ps[k].out && m.ps[k].kind == 'V' && a[k].n != c->args[k].n)
            viol("C01,C03" + rev, "implementation received a wrong output capacity", fmt("%s: parameter %zu: %" PRIu64 ", expected %" PRIu64, c->label.c_str(), k, a[k].n, c->args[k].n));
    if (g_stop) {
        g_phase = savephase;
        // leave the outputs alone, the run is over
        return 1;
    }
    Rng r(c->seed, 0x1111 + s->run);
    // ---- keep some input objects
    for (size_t k = 0; k < m.ps.size(); k++)
        if (!m.ps[k].out) {
            auto keep = [&](Object o) {
                if (!isnull(o) && r.p(PF.keep) && nodes[e->node].refs.size() < 40) {
                    core_retain(o);
                    nodes[e->node].refs.push_back({o, ent_of(o)});
                }
            };
            for (u64 off : m.ps[k].objs) {
                Object o;
                memcpy(&o, (u8 *)a[k].p + off, 16);
                keep(o);
            }
            if (m.ps[k].kind == 'O')
                for (u64 j = 0; j < m.ps[k].count; j++) keep(((Object *)a[k].p)[j]);
        }
    // ---- the method body takes a while, may call others
    if (r.p(PF.yield)) {
        ST.faults["slow_implementation"]++;
        sleep_fiber(r.range(1, 4000), "impl");
    }
    if (cur->rank.size() < 4 && fault("nested_call", r.p(PF.nested))) {
        ST.nested++;
        client_op(r, e->node, (int)cur->rank.size());
    }
    if (g_stop) {
        g_phase = savephase;
        return 1;
    }
    // ---- outputs
    ImplRun &run = c->runs[s->run];
    run.img.assign(m.ps.size(), {});
    run.objs.assign(m.ps.size(), {});
    run.nout.assign(m.ps.size(), 0);
    i32 status = 0;
    if (fault("impl_error", r.p(PF.err))) {
        auto &errs = e->lib->ifs[iface].errs;
        int w = (int)r.below(8);
        if (w < 5 && !errs.empty()) {
            auto &er = r.pick(errs);
            auto it = e->lib->er[e->lang].find({iface, er.first});
            status = it == e->lib->er[e->lang].end() ? er.second : it->second;
            if (status != er.second) viol("C08", "wrong error value", fmt("%s.%s is %d in %s, expected %d", e->lib->ifs[iface].name.c_str(), er.first.c_str(), status, LANGS[e->lang], er.second));
            if (status == 0) status = er.second;
        } else if (w == 5) status = (i32)r.range(1, 9);
        else if (w == 6) status = -(i32)r.range(1, 200);
        else status = (i32)r.next() | 1;
    }
    vector<Object> given; // objects at hand
    for (size_t k = 0; k < m.ps.size(); k++)
        if (!m.ps[k].out) {
            for (u64 off : m.ps[k].objs) {
                Object o;
                memcpy(&o, (u8 *)a[k].p + off, 16);
                given.push_back(o);
            }
            if (m.ps[k].kind == 'O')
                for (u64 j = 0; j < m.ps[k].count; j++) given.push_back(((Object *)a[k].p)[j]);
        }
    auto produce = [&]() -> Object {
        if (!c->pre.empty() && c->runs.size() == 1 && r.p(.3)) {
            // the very object that an output proxy of the caller holds
            Object o = r.pick(c->pre);
            if (ent_of(o)->refs > 0) {
                ST.faults["output_already_held"]++;
                core_retain(o);
                return o;
            }
        }
        switch (r.below(8)) {
        case 0: return NUL;
        case 1:
            if (!given.empty()) {
                Object o = r.pick(given);
                core_retain(o);
                return o;
            } // fallthrough
        case 2:
            if (!nodes[e->node].refs.empty()) {
                Object o = r.pick(nodes[e->node].refs).o;
                core_retain(o);
                return o;
            } // fallthrough
        case 3:
            if (inst_budget) {
                inst_budget--;
                return make_inst(e->node, r);
            } // fallthrough
        default: return make_probe(e->node);
        }
    };
    bool cpp_fail_objs = status && e->lang == L_CPP && r.p(.4);
    vector<Object> fail_objs;
    for (size_t k = 0; k < m.ps.size(); k++) {
        const ParamD &p = m.ps[k];
        if (!p.out) continue;
        if (p.kind == 'F') {
            run.img[k].resize(p.size);
            fill(r, run.img[k].data(), p.size);
            vector<u8> im = run.img[k];
            for (u64 off : p.objs) {
                memset(&run.img[k][off], 0, 16);
                Object o = status ? NUL : produce();
                memcpy(&im[off], &o, 16);
                run.objs[k].push_back(ent_of(o));
            }
            if (!status || p.objs.empty()) memcpy(a[k].p, im.data(), p.size);
        } else if (p.kind == 'V') {
            u64 n = r.p(.4) ? a[k].n : r.p(.15) ? 0 : r.below(a[k].n + 1);
            run.nout[k] = n;
            run.img[k].resize(n * p.size);
            fill(r, run.img[k].data(), n * p.size);
            if (n) memcpy(a[k].p, run.img[k].data(), n * p.size);
            a[k].nout = n;
        } else
            for (u64 j = 0; j < p.count; j++) {
                Object o = NUL;
                if (!status) {
                    o = produce();
                    run.objs[k].push_back(ent_of(o));
                    ((Object *)a[k].p)[j] = o;
                } else if (cpp_fail_objs) {
                    // RAII proxies: the skeleton releases what a failing method left behind
                    o = make_probe(e->node);
                    ((Object *)a[k].p)[j] = o;
                    ent_of(o)->ledger--;
                }
            }
    }
    run.status = status;
    run.finished = true;
    dig((u32)status);
    tracef("inst%" PRIu64 " %s.%s -> %d", e->id, sm.decl.c_str(), sm.name.c_str(), status);
    g_phase = savephase;
    return status;
}
static void drop_cb(u64 id) {
    Ent *e = id < ents.size() ? ents[id] : nullptr;
    if (!e || !e->inst) {
        viol("C05", "unknown implementation dropped", fmt("%" PRIu64, id), true);
        return;
    }
    if (e->dropped) viol("C05", "implementation dropped twice", fmt("inst%" PRIu64 " (%s)", id, LANGS[e->lang]), true);
    if (e->busy) viol("C05", "implementation dropped while a method runs", fmt("inst%" PRIu64 " (%s)", id, LANGS[e->lang]), true);
    e->dropped = true;
    if (inst_by_ctx[e->raw.context] == e) inst_by_ctx.erase(e->raw.context);
    tracef("inst%" PRIu64 " dropped", id);
    dig(0xd0 + id);
}

static i32 invoke_inst(Ent *e, u32 op, Arg *a, u32 k, Serve *s) {
    // Rust instances serialise their methods with a lock: a delivery waits for
    // its turn, otherwise the single simulated CPU would block forever.
    while (e->busy && e->lang == L_RS) {
        e->waiting.push_back(cur);
        yield_fiber();
        if (g_stop) return -91;
    }
    e->busy++;
    s->target = e;
    cur->serving.push_back(s);
    cur->rank.push_back(e->id);
    int ph = g_phase;
    g_phase = s->hostile ? 3 : 2;
    g_phase_objs = s->call && s->call->md && s->call->md->has_objs();
    i32 st = e->raw.invoke(e->raw.context, op, a, k);
    g_phase = ph;
    cur->rank.pop_back();
    cur->serving.pop_back();
    e->busy--;
    if (!e->waiting.empty()) {
        Fiber *f = e->waiting.front();
        e->waiting.erase(e->waiting.begin());
        at(g_now, "unblock", f->id, [f] { resume(f); });
    }
    return st;
}

// Expected status of a served call, oracle for what the skeleton returned.
static void check_served(Call *c, Serve *s, i32 st) {
    if (g_stop) return;
    ImplRun &run = c->runs[s->run];
    if (c->rev_unknown) {
        ST.rev_refused++;
        if (st == 0 || st < 0 || st >= 10) viol("C15,C04", "unknown method was not refused with a generic error", fmt("%s: status %d", c->label.c_str(), st));
        return;
    }
    if (c->opt_missing) {
        ST.optional_refused++;
        if (st != 2) viol("C04", "missing optional method not refused as an invalid request", fmt("%s: status %d", c->label.c_str(), st));
        return;
    }
    string rev = c->lib != c->target->lib ? ",C15" : "";
    if (!run.finished) viol("C01,C02,C03,C07" + rev + (c->target->refused ? ",C04" : ""), "well-formed invocation was refused", fmt("%s: status %d", c->label.c_str(), st));
    else if (st != run.status) viol("C01", "skeleton changed the status", fmt("%s: %d, implementation returned %d", c->label.c_str(), st, run.status));
}

struct Buf {
    u8 *p;
    size_t n;
};
// A request as the transport carries it: only what the counts describe.
struct Msg {
    u32 op, k;
    vector<vector<u8>> bi;
    vector<size_t> bo;
    vector<Object> oi; // raw objects, one reference each held by the transport
};
struct Reply {
    i32 st = 0;
    vector<vector<u8>> bo;
    vector<size_t> bosize;
    vector<Object> oo; // raw objects, one reference each held by the transport
    bool have = false;
    int run = -1;
};
static void free_objs(vector<Object> &v, const char *why) {
    for (auto &o : v) core_release(o, why);
    v.clear();
}
// The buffer ends at the guard page whenever the natural alignment of a value of
// that size allows it (bundles are mapped 8-aligned like any message).
static size_t flush_align(size_t n, bool bundle) {
    if (!n) return 16;
    size_t a = n & -n;
    return std::min<size_t>(16, bundle ? std::max<size_t>(8, a) : a);
}
// Runs on a server fiber of the target's node.
static Reply deliver(Call *c, Ent *e, const Msg &m, bool hostile, Rng r) {
    Reply rep;
    ST.deliveries++;
    u32 nbi = m.k & 15, nbo = m.k >> 4 & 15, noi = m.k >> 8 & 15, noo = m.k >> 12 & 15;
    u32 n = nbi + nbo + noi + noo;
    Arg *a = (Arg *)G->alloc(n * sizeof(Arg), 0xEE);
    vector<u8 *> bufs;
    static const u8 gb[] = {0, 0xAA, 0xFF, 0x5A};
    u8 garbage = gb[r.below(4)];
    for (u32 i = 0; i < nbi; i++) {
        size_t sz = i < m.bi.size() ? m.bi[i].size() : 0;
        u8 *p = G->alloc(sz, 0, flush_align(sz, i < c->md->bufs[0].size() && c->md->bufs[0][i] < 0));
        if (sz) memcpy(p, m.bi[i].data(), sz);
        bufs.push_back(p);
        a[i].b.ptr = sz == 0 && r.p(.5) ? nullptr : p;
        a[i].b.size = sz;
    }
    for (u32 i = 0; i < nbo; i++) {
        size_t sz = i < m.bo.size() ? m.bo[i] : 0;
        u8 *p = G->alloc(sz, garbage, flush_align(sz, i < c->md->bufs[1].size() && c->md->bufs[1][i] < 0));
        bufs.push_back(p);
        a[nbi + i].b.ptr = sz == 0 && r.p(.5) ? nullptr : p;
        a[nbi + i].b.size = sz;
    }
    vector<Object> imported;
    for (u32 i = 0; i < noi; i++) {
        Object o = i < m.oi.size() ? import(m.oi[i], e->node, r) : NUL;
        imported.push_back(o);
        a[nbi + nbo + i].o = o;
    }
    for (u32 i = 0; i < noo; i++) a[nbi + nbo + noi + i].o = NUL;
    Serve s;
    s.call = c;
    s.hostile = hostile;
    if (!hostile) {
        s.run = (int)c->runs.size();
        c->runs.emplace_back();
    }
    string w = g_where;
    g_where = c->label + (hostile ? " (malformed)" : "");
    i32 st = invoke_inst(e, m.op, a, m.k, &s);
    if (!g_stop) {
        for (size_t i = 0; i < bufs.size(); i++)
            if (!G->intact(bufs[i])) viol(hostile ? "C04" : "C01,C03,C04", "memory outside of a buffer was written", fmt("%s: %s[%zu]", c->label.c_str(), i < nbi ? "BI" : "BO", i < nbi ? i : i - nbi), true);
        if (!G->intact((u8 *)a)) viol(hostile ? "C04" : "C01,C02,C04", "memory outside of the arguments was written", c->label, true);
    }
    rep.st = st;
    rep.have = true;
    rep.run = s.run;
    if (!hostile && !g_stop) {
        check_served(c, &s, st);
        if (st == 0 && c->runs[s.run].finished) {
            if (m.k == c->md->counts) check_outputs(c, c->runs[s.run], a, "skeleton");
            if (!g_stop) {
                for (u32 i = 0; i < nbo; i++) {
                    size_t sz = a[nbi + i].b.size, cap = m.bo[i];
                    rep.bosize.push_back(sz);
                    u8 *p = bufs[nbi + i];
                    rep.bo.emplace_back(p, p + std::min(sz, cap));
                }
                for (u32 i = 0; i < noo; i++) {
                    Object o = a[nbi + nbo + noi + i].o;
                    bool ok;
                    ent_of(o, &ok);
                    if (!ok) {
                        viol("C01,C02", "unknown object in an output slot", fmt("%s: OO[%u] = %s", c->label.c_str(), i, oname(o).c_str()), true);
                        break;
                    }
                    Object raw = raw_of(o);
                    if (o.invoke == handle_invoke) {
                        core_retain(raw);
                        core_release(o, "output object taken by the transport");
                    }
                    rep.oo.push_back(raw);
                }
            }
        } else if (st == 0) {
            // refused or foreign success: nothing trustworthy to carry
            rep.st = 1;
        }
    }
    if (!g_stop)
        for (u32 i = 0; i < noi; i++) {
            check_counts(imported[i], "after the invocation was served");
            if (g_stop) break;
            core_release(imported[i], "input object released by the transport");
        }
    for (auto *p : bufs) G->free(p);
    G->free((u8 *)a);
    g_where = w;
    return rep;
}

// ---------------------------------------------------- malformed envelopes --
static void hostile_burst(Rng &r, Ent *e, int count) {
    // A fiber on the target's node delivers what a broken or hostile transport
    // could: variations of the envelope of some method.
    for (int z = 0; z < count && !g_stop; z++) {
        IfaceD &I = e->lib->ifs[e->iface];
        if (I.ms.empty()) return;
        MethD &m = r.pick(I.ms);
        Call *c = new Call;
        all_calls.push_back(c);
        c->id = call_seq++;
        c->seed = r.next();
        c->hostile = true;
        c->lib = e->lib;
        c->md = &m;
        c->target = e;
        Msg q;
        q.op = m.op;
        q.k = m.counts;
        auto build = [&] {
            q.bi.clear();
            q.bo.clear();
            for (int b : m.bufs[0]) {
                size_t sz = b < 0 ? m.bunsize[0] : m.ps[b].kind == 'V' ? m.ps[b].size * r.below(5) : m.ps[b].size;
                vector<u8> v(sz);
                fill(r, v.data(), sz);
                q.bi.push_back(v);
            }
            for (int b : m.bufs[1]) q.bo.push_back(b < 0 ? m.bunsize[1] : m.ps[b].kind == 'V' ? m.ps[b].size * r.below(5) : m.ps[b].size);
        };
        build();
        string what;
        vector<std::pair<bool, u32>> fixed; // (out, index) of fixed size buffers
        for (int o = 0; o < 2; o++)
            for (u32 i = 0; i < m.bufs[o].size(); i++)
                if (m.bufs[o][i] < 0 || m.ps[m.bufs[o][i]].kind == 'F') fixed.push_back({o, i});
        bool opt_missing = m.optional && e->var == 1;
        int kind = (int)r.below(opt_missing ? 4 : 3);
        if (kind == 1 && fixed.empty()) kind = 0;
        u32 user = (u32)I.ms.size();
        if (kind == 0) { // counts
            u32 k = q.k;
            do {
                switch (r.below(6)) {
                case 0: {
                    int s = (int)r.below(4) * 4;
                    u32 v = k >> s & 15;
                    v = r.p(.5) ? v + 1 : v - 1;
                    k = (k & ~(15u << s)) | (v & 15) << s;
                    break;
                }
                case 1: {
                    int s = (int)r.below(4) * 4, t = (int)r.below(4) * 4;
                    u32 v = k >> s & 15, w = k >> t & 15;
                    k = (k & ~(15u << s) & ~(15u << t));
                    if (s == t) k |= v << s;
                    else k |= v << t | w << s;
                    break;
                }
                case 2: k = 0; break;
                case 3: k = q.k | 1u << r.range(16, 31); break;
                case 4: k = (u32)r.next() & 0xffff; break;
                default: {
                    int s = (int)r.below(4) * 4;
                    k = (k & ~(15u << s)) | (u32)r.below(16) << s;
                }
                }
            } while (k == m.counts);
            // same total with another split is the hardest to tell apart
            q.k = k;
            what = fmt("counts %#x instead of %#x", k, m.counts);
            ST.muts["counts"]++;
            u32 nbi = k & 15, nbo = k >> 4 & 15;
            while (q.bi.size() < nbi) q.bi.push_back(vector<u8>(r.below(24)));
            while (q.bo.size() < nbo) q.bo.push_back(r.below(24));
        } else if (kind == 1) { // sizes
            auto f = r.pick(fixed);
            size_t old = f.first ? q.bo[f.second] : q.bi[f.second].size(), nw;
            do {
                switch (r.below(7)) {
                case 0: nw = old + 1; break;
                case 1: nw = old - 1; break;
                case 2: nw = 0; break;
                case 3: nw = old * 2; break;
                case 4: nw = old + 8; break;
                case 5: nw = old > 4 ? old - 4 : 0; break;
                default: nw = r.below(64);
                }
            } while (nw == old);
            if (f.first) q.bo[f.second] = nw;
            else q.bi[f.second].resize(nw, 0x77);
            what = fmt("%s[%u] of %zu bytes instead of %zu", f.first ? "BO" : "BI", f.second, nw, old);
            ST.muts[f.first ? "size_out" : "size_in"]++;
        } else if (kind == 2) { // op
            u32 op;
            do {
                switch (r.below(7)) {
                case 0: op = user + (u32)r.below(3); break;
                // no user op-code and none of the object operations (0xfffd and up)
                case 5: op = (u32)r.range(0x8000, 0xfffc); break;
                case 6: op = 0x8000 + (r.p(.5) ? m.op : (u32)r.below(8)); break;
                case 1: op = (u32)r.range(0, 0x3fff); break;
                case 2: op = (u32)r.range(0, 0x7fff); break;
                case 3: op = m.op | 1u << r.range(8, 14); break;
                default: op = r.p(.5) ? 0x3fff : 0x4000 + m.op;
                }
            } while (op < user || op >= 0xfffd);
            q.op = op;
            what = fmt("op %u of %u methods", op, user);
            ST.muts["op"]++;
        } else {
            what = "missing optional method";
            ST.muts["optional"]++;
        }
        c->label = fmt("hostile %s.%s on inst%" PRIu64 " (%s %s): %s", m.decl.c_str(), m.name.c_str(), e->id, I.name.c_str(), LANGS[e->lang], what.c_str());
        u32 noi = q.k >> 8 & 15;
        vector<Object> own;
        for (u32 i = 0; i < noi; i++) {
            Object o = r.p(.2) ? NUL : make_probe((int)r.below(nodes.size()));
            own.push_back(o);
        }
        q.oi = own;
        ST.hostile++;
        ST.faults["malformed_envelope"]++;
        tracef("%s", c->label.c_str());
        Reply rep = deliver(c, e, q, true, Rng(c->seed, 5));
        if (g_stop) return;
        dig((u32)rep.st);
        if (rep.st <= 0 || rep.st >= 10) viol("C04", "malformed invocation not refused with a generic error", fmt("%s: status %d", c->label.c_str(), rep.st));
        else ST.hostile_refused++, e->refused = true;
        if (kind == 3 && rep.st != 2) viol("C04", "missing optional method not refused as an invalid request", fmt("%s: status %d", c->label.c_str(), rep.st));
        for (auto &o : own) {
            check_counts(o, "after a refused invocation");
            if (g_stop) return;
            core_release(o, "after a refused invocation");
        }
    }
}

// -------------------------------------------------------------- transport --
static i32 handle_invoke(void *hp, u32 op, Arg *a, u32 k) {
    Handle *h = (Handle *)hp;
    if (op == OP_RETAIN || op == OP_RELEASE) {
        if (h->freed || h->refs <= 0) {
            viol("C05", op == OP_RETAIN ? "retain of a dead object" : "double release", oname({handle_invoke, hp}), true);
            return 0;
        }
        h->refs += op == OP_RETAIN ? 1 : -1;
        if (h->refs == 0) handle_gone(h);
        return 0;
    }
    if (cur->calls.empty() || cur->calls.back()->target != h->target) {
        viol("C01", "unexpected invocation", oname({handle_invoke, hp}), true);
        return 1;
    }
    if (h->freed) {
        viol("C05", "invocation of a released object", oname({handle_invoke, hp}), true);
        return 1;
    }
    Call *c = cur->calls.back();
    int ph = g_phase;
    g_phase = 0;
    if (c->envelope_seen) viol("C01,C02", "stub invoked the object twice", c->label, true);
    check_envelope(c, op, a, k);
    if (g_stop) return 1;
    Ent *e = h->target;
    Rng r(c->seed, 0x7777);
    u32 nbi = k & 15, nbo = k >> 4 & 15, noi = k >> 8 & 15, noo = k >> 12 & 15;
    if (h->mode == 1) {
        // Direct call that is only observed.
        ST.links["interposed"]++;
        Serve s;
        s.call = c;
        s.run = (int)c->runs.size();
        c->runs.emplace_back();
        i32 st = invoke_inst(e, op, a, k, &s);
        if (!g_stop) {
            check_served(c, &s, st);
            c->used_run = s.run;
            if (st == 0 && c->runs[s.run].finished && k == c->md->counts) check_outputs(c, c->runs[s.run], a, "skeleton, direct");
        }
        g_phase = ph;
        return g_stop ? 1 : st;
    }
    ST.links["transport"]++;
    Msg *m = new Msg;
    core_retain(e->raw); // requests under way keep the target alive
    m->op = op;
    m->k = k;
    for (u32 i = 0; i < nbi; i++) m->bi.emplace_back((u8 *)a[i].b.ptr, (u8 *)a[i].b.ptr + a[i].b.size);
    for (u32 i = 0; i < nbo; i++) m->bo.push_back(a[nbi + i].b.size);
    for (u32 i = 0; i < noi; i++) {
        Object o = raw_of(a[nbi + nbo + i].o);
        bool ok;
        ent_of(o, &ok);
        if (!ok) {
            viol("C01,C02", "unknown object in an input slot", c->label, true);
            return 1;
        }
        core_retain(o);
        m->oi.push_back(o);
    }
    struct State {
        bool done = false;
        Reply rep;
        int pending = 0;
        i32 status = 0; // decided by a fault
    };
    auto *S = new State;
    Fiber *me = cur;
    int cn = me->node, sn = e->node;
    u64 cep = nodes[cn].epoch;
    auto finish = [S, me] {
        if (!S->done) {
            S->done = true;
            resume(me);
        }
    };
    auto unref = [m, S, e] {
        if (--S->pending == 0) {
            free_objs(m->oi, "request dropped by the transport");
            core_release(e->raw, "request done");
        }
    };
    bool drop = fault("drop_request", r.p(PF.drop_req)), dup = !drop && fault("duplicate_request", r.p(PF.dup));
    bool pre = fault("hostile_before_call", r.p(PF.hostile_pre));
    u64 lat = r.range(1, r.p(.2) ? 20000 : 500);
    u64 hseed = r.next();
    int copies = drop ? 0 : dup ? 2 : 1;
    S->pending = copies + 1;
    int which = dup ? (int)r.below(2) : 0; // which copy answers
    bool drop_rep = fault("drop_reply", r.p(PF.drop_rep));
    bool late = !drop_rep && fault("late_reply_after_timeout", r.p(PF.late));
    u64 rlat = r.range(1, r.p(.2) ? 20000 : 500);
    for (int i = 0; i < copies; i++) {
        u64 dseed = r.next();
        u64 cid = c->id;
        at(g_now + lat + (u64)i * r.range(0, 900), "request", cid, [=] {
            Fiber *f = spawn(sn, [=] {
                if (g_stop) return;
                if (e->crashed) {
                    if (i == which && !S->done) {
                        S->status = -90;
                        at(g_now + rlat, "defunct", cid, finish);
                    }
                    unref();
                    return;
                }
                if (pre && i == 0) {
                    Rng hr(hseed, 3);
                    hostile_burst(hr, e, 1 + (int)hr.below(3));
                }
                u64 sep = nodes[sn].epoch;
                if (g_stop) return;
                Reply rep = deliver(c, e, *m, false, Rng(dseed));
                if (g_stop) return;
                bool dead = nodes[sn].epoch != sep;
                if (i == which && !S->done && !dead && !drop_rep) {
                    S->rep = rep;
                    u64 when = g_now + rlat;
                    if (late) {
                        // the caller gave up before the reply came in
                        S->status = -103;
                        S->rep = Reply();
                        Reply *lr = new Reply(rep);
                        at(when, "timeout", cid, finish);
                        at(when + 300, "late", cid, [lr] { free_objs(lr->oo, "late reply discarded"); });
                    } else at(when, "reply", cid, finish);
                } else {
                    free_objs(rep.oo, "reply discarded");
                    if (i == which && !S->done) {
                        S->status = dead ? -90 : -103;
                        at(g_now + rlat, dead ? "defunct" : "timeout", cid, finish);
                    }
                }
                unref();
            });
            resume(f);
        });
    }
    if (drop) {
        S->status = -96;
        at(g_now + lat, "dropped", c->id, finish);
    }
    at(g_now + 1, "sent", c->id, unref);
    yield_fiber();
    if (g_stop) return 1;
    Reply &rep = S->rep;
    i32 st;
    if (S->status == 0 && nodes[cn].epoch != cep) {
        // the caller's own node crashed in the meantime
        free_objs(rep.oo, "reply to a crashed node");
        S->status = -91;
    }
    if (S->status) {
        c->transport_status = st = S->status;
    } else {
        st = rep.st;
        c->used_run = rep.run;
        if (st == 0) {
            for (u32 i = 0; i < nbo; i++) {
                size_t n = std::min(rep.bo[i].size(), m->bo[i]);
                if (n) memcpy(a[nbi + i].b.ptr, rep.bo[i].data(), n);
                a[nbi + i].b.size = rep.bosize[i];
            }
            for (u32 i = 0; i < noo; i++) {
                Object o = import(rep.oo[i], cn, r);
                a[nbi + nbo + noi + i].o = o;
            }
            free_objs(rep.oo, "reply received");
        }
    }
    if (st != 0) {
        if (fault("garbage_in_failed_slots", r.p(PF.poison)))
            for (u32 i = 0; i < noo; i++) a[nbi + nbo + noi + i].o = poison();
    }
    tracef("call %" PRIu64 " returns %d to the stub", c->id, st);
    g_phase = ph;
    return st;
}

// ---------------------------------------------------------------- clients --
static void client_call(Rng &r, int node, Ref ref) {
    Ent *e = ref.e;
    // An interface of the target (own or ancestor), in some revision.
    vector<int> chain;
    for (int i = e->iface; i >= 0; i = e->lib->ifs[i].base) chain.push_back(i);
    int sif = r.p(.6) ? chain[0] : r.pick(chain);
    string iname = e->lib->ifs[sif].name;
    vector<Lib *> cands;
    for (Lib *l : libs)
        if (l->iface_by_name(iname) >= 0) cands.push_back(l);
    Lib *L = r.pick(cands);
    int ci = L->iface_by_name(iname);
    if (L->ifs[ci].ms.empty()) return;
    int mi = (int)r.below(L->ifs[ci].ms.size());
    if (L != e->lib && r.p(.4)) mi = (int)L->ifs[ci].ms.size() - 1 - (int)r.below(std::min<size_t>(3, L->ifs[ci].ms.size()));
    vector<int> langs;
    for (int i = 0; i < NLANG; i++)
        if (L->have[i]) langs.push_back(i);
    int lang = r.pick(langs);
    Call *c = new Call;
    all_calls.push_back(c);
    c->id = call_seq++;
    c->seed = r.next();
    c->lib = L;
    c->iface = ci;
    c->meth = mi;
    c->lang = lang;
    c->md = &L->ifs[ci].ms[mi];
    c->target = e;
    c->node = node;
    c->ref = ref.o;
    const MethD &m = *c->md;
    c->label = fmt("call%" PRIu64 " %s.%s (%s stub%s -> %s skeleton of %s%s, inst%" PRIu64 ")", c->id, iname.c_str(), m.name.c_str(), LANGS[lang], L->idx ? " rev1" : "", LANGS[e->lang],
                   e->lib->ifs[e->iface].name.c_str(), e->lib->idx ? " rev1" : "", e->id);
    // does the served revision know the method?
    bool known = false;
    bool optional = false;
    for (auto &sm : e->lib->ifs[e->iface].ms)
        if (sm.name == m.name && sm.decl == m.decl) {
            known = true;
            optional = sm.optional;
        }
    c->rev_unknown = !known;
    c->opt_missing = known && optional && e->var == 1;
    c->link = ref.o.invoke == handle_invoke ? ((Handle *)ref.o.context)->mode : 0;
    ST.calls++;
    ST.pairs[string(LANGS[lang]) + "->" + LANGS[e->lang]]++;
    u64 mh = mix((u64)L->idx << 40 ^ (u64)ci << 20 ^ (u64)mi);
    ST.methods.insert(mh);
    ST.methpairs.insert(mix(mh ^ (u64)lang << 8 ^ (u64)e->lang));
    tracef("node%d: %s", node, c->label.c_str());

    size_t np = m.ps.size();
    c->args.reserve(np + 1);
    c->args.resize(np);
    c->in_img.resize(np);
    c->in_objs.resize(np);
    vector<u8 *> mem;
    vector<Object> temps; // objects made for this call, dropped afterwards
    vector<Object> used;
    auto pickobj = [&]() -> Object {
        Object o = NUL;
        int w = (int)r.below(10);
        if (w == 0) return NUL;
        if (w < 5 && !nodes[node].refs.empty()) {
            Ref &rf = r.pick(nodes[node].refs);
            o = rf.o;
            core_retain(o); // keep it alive during the call whatever others do
            temps.push_back(o);
        } else {
            o = make_probe(node);
            temps.push_back(o);
        }
        used.push_back(o);
        return o;
    };
    vector<vector<Object>> pre(np);
    for (size_t k = 0; k < np; k++) {
        const ParamD &p = m.ps[k];
        SimArg &a = c->args[k];
        if (p.kind == 'V') {
            u64 cap = 60000 / p.size;
            u64 n = r.p(PF.zero) ? 0 : r.p(.1) ? r.below(std::min<u64>(cap, 300)) : r.range(1, 12);
            a.n = n;
            u8 *p0 = G->alloc(n * p.size, 0xB7);
            mem.push_back(p0);
            a.p = n == 0 && r.p(.5) ? nullptr : p0;
            if (!p.out) {
                c->in_img[k].resize(n * p.size);
                fill(r, c->in_img[k].data(), n * p.size);
                if (n) memcpy(p0, c->in_img[k].data(), n * p.size);
            }
            a.nout = 0x5a5a;
        } else if (p.kind == 'F') {
            a.n = 1;
            u8 *p0 = G->alloc(p.size, 0xB7);
            mem.push_back(p0);
            a.p = p0;
            if (!p.out) {
                c->in_img[k].resize(p.size);
                fill(r, c->in_img[k].data(), p.size);
                memcpy(p0, c->in_img[k].data(), p.size);
                for (u64 off : p.objs) {
                    Object o = pickobj();
                    memcpy(p0 + off, &o, 16);
                    memset(&c->in_img[k][off], 0, 16);
                    c->in_objs[k].push_back(ent_of(o));
                }
            } else if (!p.objs.empty()) {
                for (u64 off : p.objs) {
                    memset(p0 + off, 0, 16);
                }
            }
        } else {
            a.n = p.count;
            u8 *p0 = G->alloc(p.count * 16, 0);
            mem.push_back(p0);
            a.p = p0;
            for (u64 j = 0; j < p.count; j++) {
                Object o = NUL;
                if (!p.out) {
                    o = pickobj();
                    c->in_objs[k].push_back(ent_of(o));
                } else {
                    if (lang == L_CPP && r.p(PF.prefill)) c->pre.push_back(o = make_probe(node));
                    pre[k].push_back(o);
                }
                ((Object *)p0)[j] = o;
            }
        }
    }
    // ---- the call
    core_retain(ref.o);
    cur->calls.push_back(c);
    string w = g_where;
    g_where = c->label;
    int ph = g_phase;
    bool po = g_phase_objs;
    g_phase = 1;
    g_phase_objs = m.has_objs();
    i32 st;
    Serve s;
    bool direct = c->link == 0;
    if (direct) {
        ST.links["direct"]++;
        while (e->busy && e->lang == L_RS) {
            e->waiting.push_back(cur);
            yield_fiber();
            if (g_stop) break;
        }
        s.call = c;
        s.run = 0;
        c->runs.emplace_back();
        c->used_run = 0;
        s.target = e;
        e->busy++;
        cur->serving.push_back(&s);
        cur->rank.push_back(e->id);
    }
    st = g_stop ? 1 : L->cl[lang][ci][mi](ref.o, c->args.data());
    if (direct) {
        cur->rank.pop_back();
        cur->serving.pop_back();
        e->busy--;
        if (!e->waiting.empty()) {
            Fiber *f = e->waiting.front();
            e->waiting.erase(e->waiting.begin());
            at(g_now, "unblock", f->id, [f] { resume(f); });
        }
    }
    g_phase = ph;
    g_phase_objs = po;
    cur->calls.pop_back();
    c->returned = true;
    dig((u32)st);
    tracef("node%d: call%" PRIu64 " returned %d", node, c->id, st);
    // ---- what the caller sees
    string rev = L != e->lib ? ",C15" : "";
    if (!g_stop) {
        if (direct) check_served(c, &s, st);
        if (!direct && !c->envelope_seen) viol("C01", "stub did not invoke the object", c->label);
        ImplRun *run = c->used_run >= 0 && c->used_run < (int)c->runs.size() && c->runs[c->used_run].finished ? &c->runs[c->used_run] : nullptr;
        if (c->transport_status) {
            if (st != c->transport_status) viol("C01", "stub changed the status", fmt("%s: %d, transport reported %d", c->label.c_str(), st, c->transport_status));
        } else if (run) {
            if (st != run->status) viol("C01" + rev, "caller received another status", fmt("%s: %d, implementation returned %d", c->label.c_str(), st, run->status));
            // named errors mean the same to the caller
            for (auto &er : e->lib->ifs[e->iface].errs) {
                auto it = e->lib->er[e->lang].find({(u32)e->iface, er.first});
                auto jt = L->er[lang].find({(u32)ci, er.first});
                if (it != e->lib->er[e->lang].end() && jt != L->er[lang].end() && it->second != jt->second)
                    viol("C08" + rev, "error has different values on the two sides", fmt("%s: %s is %d in %s and %d in %s", c->label.c_str(), er.first.c_str(), it->second, LANGS[e->lang], jt->second, LANGS[lang]));
            }
        } else if (st == 0) viol("C01,C04" + rev, "call succeeded although no implementation ran", c->label);
        if (!g_stop)
            for (auto *p : mem)
                if (!G->intact(p)) viol("C01,C04", "memory outside of the caller's parameters was written", c->label, true);
        // outputs
        for (size_t k = 0; k < np && !g_stop; k++) {
            const ParamD &p = m.ps[k];
            SimArg &a = c->args[k];
            u8 *p0 = mem[k];
            if (!p.out) {
                // inputs stay what they were
                if (p.kind == 'F' && p.objs.empty() && memcmp(p0, c->in_img[k].data(), p.size)) viol("C01", "input was modified", fmt("%s: parameter %zu", c->label.c_str(), k));
                if (p.kind == 'F')
                    for (size_t j = 0; j < p.objs.size(); j++) {
                        Object o;
                        memcpy(&o, p0 + p.objs[j], 16);
                        if (ent_of(o) != c->in_objs[k][j]) viol("C05,C01", "object embedded in an input struct was changed", fmt("%s: parameter %zu", c->label.c_str(), k));
                    }
                continue;
            }
            if (st == 0 && run) {
                auto bad = [&](const string &d) { viol("C01" + rev, "caller received a wrong value", fmt("%s: parameter %zu: %s", c->label.c_str(), k, d.c_str())); };
                if (p.kind == 'F') {
                    vector<u8> im(p0, p0 + p.size);
                    for (size_t j = 0; j < p.objs.size(); j++) {
                        Object o;
                        memcpy(&o, &im[p.objs[j]], 16);
                        memset(&im[p.objs[j]], 0, 16);
                        bool ok;
                        Ent *x = ent_of(o, &ok);
                        if (!ok || x != run->objs[k][j]) viol("C01,C05", "caller received a wrong object", fmt("%s: parameter %zu slot %zu is %s, expected %s", c->label.c_str(), k, j, oname(o).c_str(), names({run->objs[k][j]}).c_str()), true);
                        else if (!isnull(o)) {
                            nodes[node].refs.push_back({o, x});
                            used.push_back(o);
                        }
                    }
                    if (im != run->img[k]) bad(hex(im.data(), im.size()) + ", expected " + hex(run->img[k].data(), p.size));
                } else if (p.kind == 'V') {
                    if (a.nout != run->nout[k]) bad(fmt("reported length %" PRIu64 ", expected %" PRIu64, a.nout, run->nout[k]));
                    else if (a.nout && memcmp(p0, run->img[k].data(), run->img[k].size())) bad(hex(p0, run->img[k].size()) + ", expected " + hex(run->img[k].data(), run->img[k].size()));
                } else
                    for (u64 j = 0; j < p.count && !g_stop; j++) {
                        Object o = ((Object *)p0)[j];
                        bool ok;
                        Ent *x = ent_of(o, &ok);
                        if (!ok || x != run->objs[k][j]) viol("C01,C05", "caller received a wrong object", fmt("%s: parameter %zu object %" PRIu64 " is %s, expected %s", c->label.c_str(), k, j, oname(o).c_str(), names({run->objs[k][j]}).c_str()), true);
                        else if (!isnull(o)) {
                            nodes[node].refs.push_back({o, x});
                            used.push_back(o);
                        }
                        if (j < pre[k].size() && !isnull(pre[k][j]) && !g_stop) {
                            // the proxy released what it held before
                            Ent *pe = ent_of(pre[k][j]);
                            pe->ledger--;
                            check_counts(pre[k][j], "object replaced by an output");
                        }
                    }
            } else if (st != 0) {
                // nothing was adopted
                auto chk = [&](Object o, Object before, size_t j) {
                    bool same = o.invoke == before.invoke && o.context == before.context;
                    if (!isnull(o) && !same) viol("C05", "output object of a failed call was adopted", fmt("%s: parameter %zu slot %zu is %s", c->label.c_str(), k, j, o.invoke == poison_invoke ? "garbage" : oname(o).c_str()), true);
                    if (!isnull(before) && !g_stop) {
                        if (isnull(o)) {
                            Ent *pe = ent_of(before);
                            pe->ledger--;
                            check_counts(before, "object held by an output proxy of a failed call");
                        } else {
                            check_counts(before, "object held by an output proxy of a failed call");
                            core_release(before, "prefilled output proxy");
                        }
                    }
                };
                if (p.kind == 'F')
                    for (size_t j = 0; j < p.objs.size(); j++) {
                        Object o;
                        memcpy(&o, p0 + p.objs[j], 16);
                        chk(o, NUL, j);
                    }
                else if (p.kind == 'O')
                    for (u64 j = 0; j < p.count && !g_stop; j++) chk(((Object *)p0)[j], pre[k][j], j);
            }
        }
        if (st == 0) ST.replies_ok++;
    }
    // ---- counts: with everything borrowed given back, holders account for all
    if (!g_stop) {
        if (!depth_total || true)
            for (auto &o : used) {
                Ent *x = ent_of(o);
                // only when nobody else is in the middle of a call that borrows it
                if (x && o.invoke == probe_invoke && x->node == node && !g_stop) {
                    bool busy = false;
                    for (Fiber *f : fibers)
                        if (!f->done && f != cur && (!f->calls.empty() || !f->serving.empty())) busy = true;
                    if (!busy) check_counts(o, "after the call returned");
                }
            }
        for (auto &o : temps) {
            if (g_stop) break;
            core_release(o, "temporary of the caller");
        }
        if (!g_stop) core_release(ref.o, "caller's reference for the call");
    }
    for (auto *p : mem) G->free(p);
    g_where = w;
}

static bool rank_ok(Ent *e) {
    for (u64 x : cur->rank)
        if (e->id <= x) return false;
    return true;
}
static void client_op(Rng &r, int node, int depth) {
    vector<size_t> c;
    for (size_t i = 0; i < nodes[node].refs.size(); i++) {
        Ent *e = nodes[node].refs[i].e;
        if (e->inst && (cur->rank.empty() || rank_ok(e))) c.push_back(i);
    }
    if (c.empty()) {
        if (!inst_budget) return;
        inst_budget--;
        Object o = make_inst(node, r);
        nodes[node].refs.push_back({o, ent_of(o)});
        c.push_back(nodes[node].refs.size() - 1);
    }
    Ref ref = nodes[node].refs[c[r.below(c.size())]];
    client_call(r, node, ref);
}

// ------------------------------------------------------------------ runs --
enum OpKind { O_CALL, O_NEW, O_SHARE, O_DROP, O_HOSTILE, O_CRASH };
static const char *OPN[] = {"call", "new", "share", "drop", "hostile", "crash"};
struct Op {
    int client;
    OpKind kind;
    u64 seed;
};
struct Plan {
    int nnodes, nclients;
    vector<int> client_node;
    vector<Op> ops;
};
static u64 g_nops = 0;
static Plan make_plan(u64 seed) {
    Rng r(seed, 0xabc);
    Plan p;
    p.nnodes = (int)r.range(1, 4);
    p.nclients = (int)r.range(1, 5);
    for (int i = 0; i < p.nclients; i++) p.client_node.push_back((int)r.below(p.nnodes));
    u64 n = g_nops ? g_nops : r.range(20, 90);
    for (u64 i = 0; i < n; i++) {
        Op o;
        o.client = (int)r.below(p.nclients);
        double x = (double)r.below(1000) / 1000;
        double h = PF.hostile_op;
        o.kind = x < h ? O_HOSTILE : x < h + PF.crash ? O_CRASH : x < h + PF.crash + .04 ? O_NEW : x < h + PF.crash + .12 ? O_SHARE : x < h + PF.crash + .2 ? O_DROP : O_CALL;
        o.seed = r.next();
        p.ops.push_back(o);
    }
    return p;
}

static void crash_node(int n) {
    if (!fault("crash_restart", true)) return;
    Node &N = nodes[n];
    tracef("node%d crashes", n);
    N.epoch++;
    for (Ent *e : ents)
        if (e->inst && e->node == n) e->crashed = true;
    auto refs = std::move(N.refs);
    N.refs.clear();
    // only what others hold survives; the kernel closes the handles of the node
    for (auto &rf : refs) {
        if (g_stop) return;
        core_release(rf.o, "node crashed");
    }
}

static void exec_op(const Op &op, const Plan &pl) {
    int node = pl.client_node[op.client];
    Rng r(op.seed);
    ST.ops++;
    tracef("op %" PRIu64 " client%d %s", g_opidx, op.client, OPN[op.kind]);
    switch (op.kind) {
    case O_CALL: client_op(r, node, 0); break;
    case O_NEW: {
        if (!inst_budget) break;
        inst_budget--;
        Object o = make_inst(node, r);
        nodes[node].refs.push_back({o, ent_of(o)});
        break;
    }
    case O_SHARE: {
        int from = (int)r.below(nodes.size());
        if (nodes[from].refs.empty()) break;
        Object o = r.pick(nodes[from].refs).o;
        Object n = import(o, node, r);
        nodes[node].refs.push_back({n, ent_of(n)});
        break;
    }
    case O_DROP: {
        auto &v = nodes[node].refs;
        if (v.empty()) break;
        size_t i = r.below(v.size());
        Object o = v[i].o;
        v.erase(v.begin() + i);
        core_release(o, "reference dropped");
        break;
    }
    case O_HOSTILE: {
        vector<Ent *> c;
        for (auto &rf : nodes[node].refs)
            if (rf.e->inst && !rf.e->crashed) c.push_back(rf.e);
        if (c.empty()) break;
        Ent *e = r.pick(c);
        core_retain(e->raw);
        hostile_burst(r, e, (int)r.range(3, 12));
        // the object is still usable
        if (!g_stop) {
            Object h = import(e->raw, node, r, true);
            client_call(r, node, {h, e});
            if (!g_stop) core_release(h, "reference of the check after a burst");
        }
        if (!g_stop) core_release(e->raw, "hostile sender");
        break;
    }
    case O_CRASH: crash_node((int)r.below(nodes.size())); break;
    }
}

static void cleanup_run() {
    while (!evq.empty()) {
        delete evq.top();
        evq.pop();
    }
    for (Fiber *f : fibers) {
        if (f->stack) stackpool.push_back(f->stack);
        delete f;
    }
    fibers.clear();
    for (auto *c : all_calls) delete c;
    all_calls.clear();
    for (auto *e : ents) delete e;
    ents.clear();
    for (auto *h : handles) delete h;
    handles.clear();
    handle_set.clear();
    probe_set.clear();
    inst_by_ctx.clear();
    nodes.clear();
    G->reset();
}

static bool run_one(u64 seed, const std::set<u64> *keep) {
    g_seed = seed;
    g_viol.clear();
    g_other.clear();
    g_stop = false;
    g_now = 0;
    g_digest = mix(seed);
    g_sched = 0;
    ev_seq = 0;
    call_seq = 0;
    sched_rng = Rng(seed, 0x5c4ed);
    inst_budget = 30;
    g_phase = 0;
    g_where.clear();
    Plan pl = make_plan(seed);
    for (int i = 0; i < pl.nnodes; i++) {
        nodes.emplace_back();
        nodes.back().id = i;
    }
    tracef("run seed %" PRIu64 ": %d nodes, %d clients, %zu ops", seed, pl.nnodes, pl.nclients, pl.ops.size());
    // every node starts with some objects, some of them from elsewhere
    Rng r(seed, 0x1217);
    for (int i = 0; i < pl.nnodes; i++)
        for (int j = 0; j < 2; j++) {
            Object o = make_inst(i, r);
            nodes[i].refs.push_back({o, ent_of(o)});
        }
    for (int i = 0; i < pl.nnodes; i++)
        for (int j = 0; j < 3; j++) {
            int from = (int)r.below(pl.nnodes);
            Object o = r.pick(nodes[from].refs).o;
            Object n = import(o, i, r, true);
            nodes[i].refs.push_back({n, ent_of(n)});
        }
    for (int cidx = 0; cidx < pl.nclients; cidx++) {
        Fiber *f = spawn(pl.client_node[cidx], [&pl, cidx, keep] {
            for (u64 i = 0; i < pl.ops.size() && !g_stop; i++) {
                if (pl.ops[i].client != cidx) continue;
                if (keep && !keep->count(i)) continue;
                g_opidx = i;
                sleep_fiber(pl.ops[i].seed % 997, "think");
                if (g_stop) break;
                exec_op(pl.ops[i], pl);
            }
        });
        at(0, "start", cidx, [f] { resume(f); });
    }
    run_events();
    if (!g_stop) {
        for (Fiber *f : fibers)
            if (!f->done) {
                viol("C01", "call never returned", fmt("fiber %d is stuck", f->id), true);
                break;
            }
    }
    g_opidx = ~0ull;
    if (!g_stop) {
        // everybody drops what they hold: every count returns to zero
        for (auto &n : nodes) {
            auto refs = std::move(n.refs);
            n.refs.clear();
            for (auto &rf : refs) {
                if (g_stop) break;
                check_counts(rf.o, "at the end");
                if (!g_stop) core_release(rf.o, "end of the run");
            }
        }
        run_events();
    }
    if (!g_stop) {
        for (auto *e : ents) {
            if (e->inst && !e->dropped) viol("C05", "leaked implementation", fmt("inst%" PRIu64 " (%s) was never dropped, ledger %" PRId64, e->id, LANGS[e->lang], e->ledger));
            if (!e->inst && e->refs != 0) viol("C05", "leaked reference", fmt("probe%" PRIu64 " ends with %" PRId64 " references", e->id, e->refs));
        }
        for (auto *h : handles)
            if (h->refs != 0) viol("C05", "leaked reference", fmt("handle %" PRIu64 " ends with %" PRId64 " references", h->id, h->refs));
    }
    ST.runs++;
    ST.simtime += g_now;
    if (ST.scheds.size() < 5000000) ST.scheds.insert(g_sched);
    for (auto &v : g_viol) print_viol('V', v);
    for (auto &v : g_other) print_viol('O', v);
    bool bad = !g_viol.empty();
    cleanup_run();
    return bad;
}

// ----------------------------------------------------------------- setup --
static SimCb CB = {impl_cb, drop_cb};
static Lib *load(const string &path, const string &desc, int idx) {
    Lib *L = new Lib;
    L->path = path;
    L->desc = desc;
    L->idx = idx;
    std::ifstream f(desc);
    string w;
    while (f >> w) {
        if (w == "iface") {
            int i, n;
            IfaceD d;
            f >> i >> d.name >> d.base >> n;
            L->ifs.push_back(d);
        } else if (w == "err") {
            string n;
            i32 v;
            f >> n >> v;
            L->ifs.back().errs.push_back({n, v});
        } else if (w == "meth") {
            MethD m;
            int opt, np;
            f >> m.name >> m.op >> opt >> m.decl >> np >> m.counts;
            m.optional = opt;
            L->ifs.back().ms.push_back(m);
        } else if (w == "p") {
            string d, k;
            ParamD p;
            size_t n;
            f >> d >> k >> p.size >> p.count >> n;
            p.out = d == "o";
            p.kind = k[0];
            for (size_t i = 0; i < n; i++) {
                u64 o;
                f >> o;
                p.objs.push_back(o);
            }
            L->ifs.back().ms.back().ps.push_back(p);
        } else if (w == "bi" || w == "bo") {
            size_t n;
            f >> n;
            MethD &m = L->ifs.back().ms.back();
            int o = w == "bo";
            for (size_t i = 0; i < n; i++) {
                u32 x;
                f >> x;
                m.bun[o].push_back(x);
                m.bunsize[o] += m.ps[x].size;
            }
            if (n) m.bufs[o].push_back(-1);
            for (u32 i = 0; i < m.ps.size(); i++)
                if (m.ps[i].out == (bool)o && m.ps[i].kind != 'O' && std::find(m.bun[o].begin(), m.bun[o].end(), i) == m.bun[o].end()) m.bufs[o].push_back((int)i);
        }
    }
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        fprintf(stderr, "dlopen: %s\n", dlerror());
        exit(3);
    }
    auto init = (void (*)(const SimCb *))dlsym(h, "sim_init");
    init(&CB);
    for (int l = 0; l < 3; l++) {
        auto get = (void (*)(const void **, const void **, const void **, void **))dlsym(h, (string("sim_get_") + LANGS[l]).c_str());
        if (!get) continue;
        const void *c, *m, *e;
        void *refs = nullptr;
        get(&c, &m, &e, &refs);
        L->have[l] = true;
        L->cl[l].resize(L->ifs.size());
        L->mk[l].resize(L->ifs.size());
        for (size_t i = 0; i < L->ifs.size(); i++) L->cl[l][i].resize(L->ifs[i].ms.size());
        for (auto *x = (const ClEnt *)c; x->iface != ~0u; x++) L->cl[l][x->iface][x->meth] = x->fn;
        for (auto *x = (const MkEnt *)m; x->iface != ~0u; x++) L->mk[l][x->iface][x->var] = x->fn;
        for (auto *x = (const ErEnt *)e; x->iface != ~0u; x++) L->er[l][{x->iface, x->name}] = x->value;
        if (l == L_C) L->c_refs = (u32(*)(Object))refs;
    }
    return L;
}

// Static part of C08: every constant of every backend.
static void check_constants() {
    for (Lib *L : libs)
        for (int l = 0; l < NLANG; l++)
            if (L->have[l])
                for (size_t i = 0; i < L->ifs.size(); i++)
                    for (auto &er : L->ifs[i].errs) {
                        auto it = L->er[l].find({(u32)i, er.first});
                        if (it != L->er[l].end() && it->second != er.second)
                            viol("C08", "wrong error value", fmt("%s.%s is %d in %s, expected %d", L->ifs[i].name.c_str(), er.first.c_str(), it->second, LANGS[l], er.second));
                        // the same name in two revisions
                        for (Lib *M : libs)
                            if (M != L) {
                                int j = M->iface_by_name(L->ifs[i].name);
                                if (j < 0) continue;
                                auto jt = M->er[l].find({(u32)j, er.first});
                                if (it != L->er[l].end() && jt != M->er[l].end() && it->second != jt->second)
                                    viol("C15", "error value differs between revisions", fmt("%s.%s in %s: %d and %d", L->ifs[i].name.c_str(), er.first.c_str(), LANGS[l], it->second, jt->second));
                            }
                    }
}

static void on_signal(int sig, siginfo_t *si, void *) {
    // Nothing can be trusted any more: report and end.
    string tags = g_phase == 3 ? "C04" : g_phase == 2 ? "C01,C03,C04" : g_phase == 1 ? "C01" : "C01";
    if (g_phase != 3 && g_phase_objs) tags += ",C05";
    uintptr_t ad = (uintptr_t)si->si_addr;
    bool guard = G && ad >= (uintptr_t)G->base && ad < (uintptr_t)G->base + Guard::SLOT * Guard::N;
    Violation v{tags, g_phase == 0 ? "fault outside of generated code" : sig == SIGABRT ? "generated code aborted" : "memory fault in generated code",
                fmt("signal %d%s, phase %s @ %s", sig, guard ? " (beyond a buffer described by the invocation)" : "", g_phase == 3 ? "malformed delivery" : g_phase == 2 ? "skeleton" : g_phase == 1 ? "stub" : "simulator",
                    g_where.c_str()),
                g_opidx};
    for (auto &w : g_viol) print_viol('V', w);
    for (auto &w : g_other) print_viol('O', w);
    print_viol(tagged(tags) ? 'V' : 'O', v);
    printf("X %" PRIu64 "\n", g_seed);
    fflush(stdout);
    if (g_trace) fflush(g_trace);
    _exit(9);
}

static void profile(const string &p) {
    if (p == "C02" || p == "C03" || p == "C07") PF.nested = .05, PF.crash = .003, PF.err = .08;
    if (p == "C04") PF.hostile_op = .35, PF.hostile_pre = .25, PF.crash = .005, PF.err = .08;
    if (p == "C05") PF.err = .3, PF.drop_rep = .05, PF.drop_req = .03, PF.dup = .06, PF.poison = .7, PF.crash = .03, PF.nested = .2, PF.keep = .3, PF.late = .04, PF.prefill = .5;
    if (p == "C08") PF.err = .6;
    if (p == "C15") PF.crash = .003;
}

int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    u64 base = 1, runs = 1;
    std::set<u64> keep;
    bool have_keep = false, plan = false;
    vector<std::pair<string, string>> lp;
    g_prop = "ALL";
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&] { return string(argv[++i]); };
        if (a == "--lib") {
            string so = nx(), d = nx();
            lp.push_back({so, d});
        } else if (a == "--seed") base = strtoull(nx().c_str(), 0, 0);
        else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 0);
        else if (a == "--prop") g_prop = nx();
        else if (a == "--ops") g_nops = strtoull(nx().c_str(), 0, 0);
        else if (a == "--keep") {
            have_keep = true;
            std::stringstream ss(nx());
            string t;
            while (std::getline(ss, t, ','))
                if (!t.empty()) keep.insert(strtoull(t.c_str(), 0, 0));
        } else if (a == "--nofault") nofault.insert(nx());
        else if (a == "--trace") g_trace = fopen(nx().c_str(), "w");
        else if (a == "--plan") plan = true;
    }
    profile(g_prop);
    G = new Guard;
    stack_t ss{};
    ss.ss_sp = malloc(1 << 18);
    ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP}) sigaction(s, &sa, nullptr);
    for (size_t i = 0; i < lp.size(); i++) libs.push_back(load(lp[i].first, lp[i].second, (int)i));
    if (plan) {
        printf("P %zu\n", make_plan(base).ops.size());
        return 0;
    }
    g_seed = base;
    check_constants();
    for (auto &v : g_viol) print_viol('V', v);
    for (auto &v : g_other) print_viol('O', v);
    bool bad = !g_viol.empty();
    for (u64 i = 0; i < runs; i++) {
        if (run_one(base + i, have_keep ? &keep : nullptr)) {
            bad = true;
            break;
        }
        if (have_keep || runs == 1) printf("D %016" PRIx64 "\n", g_digest);
    }
    auto mp = [](const std::map<string, u64> &m) {
        string s = "{";
        for (auto &x : m) s += (s.size() > 1 ? "," : "") + fmt("\"%s\":%" PRIu64, x.first.c_str(), x.second);
        return s + "}";
    };
    printf("S {\"runs\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"calls\":%" PRIu64 ",\"impl_runs\":%" PRIu64 ",\"envelopes\":%" PRIu64 ",\"deliveries\":%" PRIu64 ",\"hostile\":%" PRIu64 ",\"hostile_refused\":%" PRIu64
           ",\"events\":%" PRIu64 ",\"sim_us\":%" PRIu64 ",\"ok\":%" PRIu64 ",\"optional_refused\":%" PRIu64 ",\"rev_refused\":%" PRIu64 ",\"nested\":%" PRIu64 ",\"objects\":%" PRIu64 ",\"drops\":%" PRIu64
           ",\"switches\":%" PRIu64 ",\"methods\":%zu,\"method_pairs\":%zu,\"interleavings\":%zu,\"faults\":%s,\"pairs\":%s,\"muts\":%s,\"links\":%s}\n",
           ST.runs, ST.ops, ST.calls, ST.impl_runs, ST.envelopes, ST.deliveries, ST.hostile, ST.hostile_refused, ST.events, ST.simtime, ST.replies_ok, ST.optional_refused, ST.rev_refused, ST.nested, ST.objects_passed,
           ST.drops_checked, ST.switches, ST.methods.size(), ST.methpairs.size(), ST.scheds.size(), mp(ST.faults).c_str(), mp(ST.pairs).c_str(), mp(ST.muts).c_str(), mp(ST.links).c_str());
    fflush(stdout);
    if (g_trace) fclose(g_trace);
    _exit(bad ? 1 : 0);
}
