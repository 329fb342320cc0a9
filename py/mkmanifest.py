"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IPC_T = "deterministic simulation with fault injection: seeded IPC simulator over the compiled generated code"
N = {
 "C01": "Seeded exploration: generated programs, all nine C/C++/Rust pairings, direct and through a copying transport with loss, duplication, delay, crash; values, lengths, objects and status compared with a reference model. No exhaustiveness claim; trusts the generator's model and the repository's test runtimes.",
 "C02": "Seeded exploration: every envelope of every stub is inspected in flight (op, counts, section order, sizes, identities) and served by the skeleton; over-limit methods must be refused by every backend.",
 "C03": "Seeded exploration: bytes of every request and reply are compared with the image the bundling rule prescribes; object slots must be blank.",
 "C04": "Seeded exploration with malformed envelopes injected by the simulated transport; buffers end at guard pages; later well-formed calls must be served.",
 "C05": "Seeded exploration with failing methods, lost/duplicated/late replies, crashes; a ledger of every reference is compared with the real counts after every step and at the end of each run.",
 "C07": "Seeded exploration: op-codes observed in flight and at dispatch over deep chains, an interface that uses all 16384 op-codes, and refusal beyond.",
 "C08": "Seeded exploration: error constants of all backends and the statuses that travel over deep chains.",
 "C15": "Seeded exploration: two revisions of a program live in one simulated system; old and new stubs and skeletons are paired in both directions.",
}
T = {p: IPC_T for p in N}
N["C20"] = "Seeded exploration of thread schedules over unmodified generated Rust code and the object runtime: seeded scheduler (shuttle engine) with failing, stalled, dying and malformed participants, plus Miri's seeded scheduler for plain memory accesses and weak orderings."
T["C20"] = "deterministic simulation with fault injection: seeded thread scheduler over the compiled generated Rust code (std's sync replaced underneath), and Miri's seeded interpreter"
FS_T = "deterministic simulation with fault injection: real idlc processes under a simulated operating system (every libc call on files, clock and randomness decided by one seeded scheduler)"
N["C12"] = "Seeded exploration: generated include trees, search paths, spellings and histories of tree changes; one to three concurrent compilers under interrupted, short and failing calls; the decision is compared with an independent resolver by probing which declarations are visible. No exhaustiveness claim."
N["C13"] = "Seeded exploration: the same file set compiled under varied hash seeds, clocks, environments, locations, spellings, symbolic links, concurrency and interrupted or short I/O; all outputs compared byte for byte."
N["C19"] = "Seeded exploration: histories of compilations, edits, crashes and I/O errors over directories with old outputs and unrelated files; the whole tree is compared before and after every execution, outputs with a fault-free reference and with the names the file set declares."
N["C16"] = "Seeded exploration: token mutations, storage damage (torn, zeroed, duplicated and flipped blocks, truncation) and limit-seeking templates, compiled by the debug and the release build in one simulated system under short, interrupted and failing calls; crash, hang, silence, disagreement and acceptance of what a reference front end must refuse are violations. Bounded nesting depth; no exhaustiveness claim."
for p in ("C12", "C13", "C16", "C19"):
    T[p] = FS_T
N["C18"] = "Seeded exploration: generated Java proxies and skeletons, compiled in process, as clients and servers of one simulated system with loss, duplication, reordering, crash/restart, failing and nested calls; every envelope, implementation argument, reply and returned holder is compared with the model shared with the C-family checks. The Mink Java runtime is a stand-in."
T["C18"] = "deterministic simulation with fault injection: seeded scheduler and transport over the compiled generated Java classes"
checks = []
for p in sorted(N):
    checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p, "technique": T[p], "level": "exploration", "level_note": N[p]})
NA = {
 "C06": "Layout equality of emitted types is a static fact about one compiler run and one target compiler: there is no schedule, fault, clock or second party for a simulation to vary.",
 "C09": "Soundness of validation is a pure predicate of the input text; nothing in it depends on concurrency, time, I/O faults or several parties, so a seeded schedule/fault search has nothing to decide.",
 "C10": "Completeness of validation is a pure predicate of the input text, as C09.",
 "C11": "Whether generated files build warning-clean is a pure function of the input text and the target compiler; no schedule or fault is involved.",
 "C14": "Output equality under edits without meaning compares two pure runs of the compiler; there is no nondeterminism to schedule or fault to inject.",
 "C17": "Values of emitted constants are a pure function of the literals; no multi-party or timing behaviour exists to simulate.",
}
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA) if p not in N],
     "notes": "bin/check --replay FILE replays a violation. Evidence in evidence/, replay files in evidence/replay/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
