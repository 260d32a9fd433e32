from vplib import run_seq, run_conc, run_both

B = "TECS_ENTITY_ALLOCATION_BATCH_SIZE="
W16 = ["TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t"]
I16 = ["TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t"]
TRACE = ["TECS_ENABLE_PERFORMANCE_TRACING", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=4"]
UNCH = ["TECS_UNCHECKED_MODE"]


def U(name, src, defs, bounds, **k):
    return dict(name=name, src=src + ".cpp", defs=defs, bounds=bounds, **k)


POP = "4 start populations (0..2 entities, with and without components and globals)"
CHECKS = {
    "C01": {"run": run_seq, "units": [
        U("c01-b3", "c01", [B + "3"], POP + "; 2 add/remove operations in one transaction, then 1 add/remove or write operation in the next; batch 3"),
        U("c01-b3-txs", "c01", [B + "3", "PROBE", "TXS={1,1,1}", "FIRSTKIND=1"], "a write transaction, then two transactions of any kind, 1 operation each, batch 3; every 64-bit handle probed"),
        U("c01-b13", "c01", [B + "13", "PROBE", "TXS={1,1,2}", "OPS0=OP_NEWA|OP_SETA|OP_DESTROY", "OPSN=OP_SETB"], "sparse storage (few of 13 slots valid): the element-wise copy after a commit; every 64-bit handle probed"),
        U("c01-b1000", "c01", ["TXS={1,1}"], "default batch size of 1000, two transactions of 1 operation"),
        U("c01-mov", "c01", [B + "3", "MOVES"], "components that are not trivially copyable and whose values are destroyed by being moved from"),
        U("c01-22", "c01", [B + "2", "TXS={2,2}", "OPS=OP_NEWA|OP_DESTROY|OP_SETA|OP_UNSETA|OP_GETA_W|OP_SETB|OP_REPLACE"], "two transactions of 2 operations of 7 kinds, batch 2"),
        U("c01-31", "c01", [B + "3", "TXS={3,1}", "OPS=OP_NEWA|OP_DESTROY|OP_UNSETA|OP_SETA|OP_GETB"], "3 operations of 5 kinds in one transaction, then 1; batch 3"),
        U("c01-deep31", "c01", [B + "2", "TXS={3,1}"], "3 operations in one transaction, then 1; batch 2", tier="thorough"),
        U("c01-deep", "c01", [B + "2", "TXS={2,2}"], "two transactions of 2 operations, batch 2", tier="thorough"),
    ]},
    "C02": {"run": run_seq, "units": [
        U("c02-b3", "c02", [B + "3", "PRE=1", "NOPS=2", "PROBE"], "a committed transaction of 1 operation, then an open one with 2; current and previous views compared after each; every 64-bit handle probed"),
        U("c02-b2", "c02", [B + "2", "PRE=0", "NOPS=3"], "3 operations in the open transaction, batch 2"),
        U("c02-deep", "c02", [B + "2", "PRE=1", "NOPS=3"], "a committed transaction of 1 operation, then an open one with 3, batch 2", tier="thorough"),
        U("c02-mov", "c02", [B + "2", "PRE=0", "NOPS=2", "MOVES"], "components that are not trivially copyable and whose values are destroyed by being moved from"),
    ]},
    "C03": {"run": run_seq, "units": [
        U("c03-b1", "c03", [B + "1", "NENT=5", "NH=7"], "7 create/destroy/commit steps, <= 5 live entities, batch 1"),
        U("c03-b2", "c03", [B + "2", "NENT=6", "NH=9"], "9 steps, <= 6 live entities, batch 2"),
        U("c03-b3", "c03", [B + "3", "NENT=5", "NH=7"], "same with batch 3"),
        U("c03-inst", "c03", [B + "2", "NENT=4", "NH=4", "NECS=257"], "with other instances up to identifier wrap (257 instances)"),
        U("c03g", "c03g", [B + "2", "NENT=8"], "generation of the reused slot symbolic below the documented wrap at 2^24", validate=False, replay_timeout=120),
    ]},
    "C04": {"run": run_seq, "units": [
        U("c04-b2", "c04", [B + "2"], "every access function through stale, null, out-of-range and arbitrary 64-bit handles and missing components; batch 2"),
        U("c04-b3", "c04", [B + "3", "PRE=1"], "same with other populations, batch 3"),
    ]},
    "C05": {"run": run_seq, "units": [
        U("c05-b2", "c05", [B + "2", "NOPS=2"], POP + "; 2 operations then 1 operation, listings taken before each operation and rechecked after each"),
        U("c05-b3", "c05", [B + "3", "NOPS=3", "OPSET=OP_NEWA|OP_DESTROY|OP_UNSETA|OP_SETA"], "3 operations on entities and component A"),
        U("c05-deep", "c05", [B + "2", "NOPS=3"], "3 operations of any kind, then 1", tier="thorough"),
    ]},
    "C06": {"run": run_seq, "units": [
        U("c06-b3", "c06", [B + "3"], "observers of every event type; transactions of several operations per commit"),
        U("c06-b1", "c06", [B + "1"], "same with batch 1"),
        U("c06-mov", "c06", [B + "3", "MOVES", "NOBS=2"], "two observers of each kind, components that are not trivially copyable and whose values are destroyed by being moved from"),
    ]},
    "C07": {"run": run_seq, "units": [
        U("c07-b2", "c07", [B + "2", "NOBS=2", "NH=5"], "5 steps of change / register / stop / poll with 2 observers per event type"),
        U("c07-3", "c07", [B + "2", "NOBS=3", "NH=5"], "same with 3 observers per event type"),
        U("c07-h6", "c07", [B + "2", "NOBS=2", "NH=6"], "6 steps with 2 observers per event type", tier="thorough"),
        U("c07-mix", "c07", [B + "2", "NOBS=2", "NH=3", "MIX"], "3 steps; observers also registered, polled and stopped (through copies of the handle too) inside the changing transactions, before or after the change"),
        U("c07-mix4", "c07", [B + "2", "NOBS=2", "NH=4", "MIX"], "the same with 4 steps", tier="thorough"),
        U("c07-in", "c07", [B + "2", "NOBS=1", "NH=5", "POLL_INSIDE"], "same, polled inside the changing transaction as well"),
        U("c07-mov", "c07", [B + "2", "NOBS=2", "NH=4", "MOVES"], "components that are not trivially copyable and whose values are destroyed by being moved from"),
    ]},
    "C08": {"run": run_seq, "units": [
        U("c08-21", "c08", [B + "2", "TXS={2,1}"], "transactions of 2 and 1 operations on global components in every kind of transaction"),
        U("c08-111", "c08", [B + "2", "TXS={1,1,1}"], "three transactions of 1 operation each"),
        U("c08-mov", "c08", [B + "2", "TXS={2,1}", "MOVES"], "components that are not trivially copyable and whose values are destroyed by being moved from"),
        U("c08-211", "c08", [B + "2", "TXS={2,1,1}"], "three transactions", tier="thorough"),
    ]},
    "C09": {"run": run_seq, "units": [
        U("c09", "c09", [B + "2"], "source and requested permission sets over 3 components, read/write/add-remove, direct and nested lock types"),
        U("c09-via", "c09", [B + "2", "VIA"], "same through an intermediate lock"),
        U("c09-33", "c09w", [B + "2", "NCOMP=33"], "ECS with 33 components: dynamic requests, presence, values and listings across the 32-bit boundary of the permission sets"),
        U("c09-63", "c09w", [B + "2", "NCOMP=63"], "ECS with 63 components", tier="thorough"),
    ]},
    "C10": {"run": run_seq, "units": [
        U("c10-h5", "c10", [B + "2", "NH=5"], "5 steps of start / copy / subset / release on 2 instances"),
        U("c10-lim", "c10", [B + "2", "NH=4", "NI=3", "LIMIT=2", "TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD=2"], "3 instances with a limit of 2 active transactions"),
        U("c10-64", "c10n", [], "65 instances and the default limit of 64 active transactions; 66000 transactions one after another have different identifiers", opts=["--max-instrs", "4000000000"]),
        U("c10-throw", "c10x", [B + "2"], POP + "; an operation, then an exception (4 kinds) leaves the transaction, with or without a surviving copy of the lock"),
    ]},
    "C11": {"run": run_seq, "units": [
        U("c11", "c11", [], "all 2^64 handles (pairs and triples), 32/32/8 bits", opts=["--opaque-numbers"]),
        U("c11-id16", "c11", I16, "32/32/16 bits", opts=["--opaque-numbers"]),
        U("c11-w16", "c11", W16, "16/16/8 bits", opts=["--opaque-numbers"]),
    ]},
    "C12": {"run": run_seq, "units": [
        U("c12", "c12", ["NMAX=4"], "listings of 0..4 arbitrary handles, any 64-bit offset, count, index, distance; sub-views of sub-views"),
        U("c12-unchecked", "c12", ["NMAX=3"] + UNCH, "valid accesses in unchecked mode"),
        U("c12-6", "c12", ["NMAX=6"], "listings of 0..6", tier="thorough"),
    ]},
    "C13": {"run": run_seq, "units": [
        U("c13-2x2", "c13", [B + "2", "NTX=2", "NOPS=2"], "two transactions of 2 operations, batch 2, heap-owning components; leak check over the whole instance"),
        U("c13-4x1", "c13", [B + "2", "NTX=4", "NOPS=1"], "four transactions (change, write, poll, stop observing)"),
        U("c13-mov", "c13", [B + "1", "NTX=3", "NOPS=2", "MOVABLE"], "movable components, batch 1"),
        U("c13-sparse", "c13", [B + "13", "NTX=4", "NOPS=1"], "sparse storage, batch 13"),
    ]},
    "C14": {"run": run_seq, "units": [
        U("c14-3", "c14", [B + "2", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=3", "NSTEP=3"], "3 steps (start, stop, six kinds of transaction, start/stop inside), capacity 3"),
        U("c14-5", "c14", [B + "2", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=5", "NSTEP=3"], "capacity 5"),
        U("c14-64", "c14", [B + "2", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=64", "NSTEP=3"], "capacity never reached"),
        U("c14-long", "c14l", ["TECS_PERFORMANCE_TRACING_MAX_EVENTS=3"], "event counter at any value up to 2^62 (found by observation, then made symbolic)"),
        U("c14-4s", "c14", [B + "2", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=5", "NSTEP=4"], "4 steps, capacity 5", tier="thorough"),
    ]},
    "C15": {"run": run_seq, "units": [
        U("c15-exh", "c15x", [B + "32767"] + W16, "16-bit index filled by two batches", opts=["--max-instrs", "4000000000"], validate=False),
        U("c15-exh2", "c15x", [B + "40000", "CAPACITY=40000"] + W16, "16-bit index, second batch does not fit", opts=["--max-instrs", "4000000000"], validate=False),
        U("c15-u1", "c01", [B + "3"] + UNCH, "histories of C01, unchecked"),
        U("c15-u2", "c02", [B + "2", "NOPS=2", "PRE=0"] + UNCH, "histories of C02, unchecked"),
        U("c15-u5", "c05", [B + "2", "NOPS=1"] + UNCH, "histories of C05, unchecked"),
        U("c15-u6", "c06", [B + "3"] + UNCH, "histories of C06, unchecked"),
        U("c15-u7", "c07", [B + "2", "NH=4"] + UNCH, "histories of C07, unchecked"),
        U("c15-u13", "c13", [B + "2", "NTX=2", "NOPS=2"] + UNCH, "histories of C13, unchecked"),
        U("c15-t1", "c01", [B + "3"] + TRACE, "histories of C01, tracing"),
        U("c15-t2", "c02", [B + "2", "NOPS=2", "PRE=0"] + TRACE, "histories of C02, tracing"),
        U("c15-17-1", "c01", [B + "3"], "histories of C01, C++17", std="c++17"),
        U("c15-17-5", "c05", [B + "2", "NOPS=1"] + UNCH, "histories of C05, C++17 unchecked", std="c++17"),
        U("c15-17-12", "c12", ["NMAX=3"], "views, C++17", std="c++17"),
        U("c15-17-9", "c09", [B + "2"], "lock conversions, C++17", std="c++17"),
        U("c15-w1", "c01", [B + "1"] + W16, "histories of C01, 16/16/8 bits, batch 1"),
        U("c15-w3", "c03", [B + "2", "NENT=5", "NH=6"] + W16, "histories of C03, 16/16/8 bits"),
        U("c15-i3", "c03", [B + "2", "NENT=5", "NH=6"] + I16, "histories of C03, 32/32/16 bits"),
        U("c15-w5", "c05", [B + "13", "NOPS=1"] + W16, "histories of C05, 16/16/8 bits, batch 13"),
        U("c15-b1000", "c06", ["NOPS=1"], "histories of C06, default batch of 1000"),
    ]},
}

# ------------------------------------------------------------------------------------------------ concurrency (conc.cpp)
SPIN = ["TECS_SPINLOCK_RETRY_YIELD=-1"]
SPIN1 = ["TECS_SPINLOCK_RETRY_YIELD=1"] # two retries before sleeping, up to 4 visits of every attempt


def pairs(kind, *groups):
    out = []
    for left, right in groups:
        for a in left.split():
            for b in right.split():
                q = "%s %s %s" % (kind, a, b)
                if q not in out:
                    out.append(q)
    return out


READERS = "r0 rl ra rab rg rall poll polla"
CT = "encoding of the atomics of every interleaving of the thread programs as SMT constraints over the LLVM IR of /repo (symbolic execution per thread, solver-chosen schedule); counterexample schedules are forced on the real code"
CB = "ECS with 2 per-entity and 1 global component, "

RACE = pairs("race", (READERS, "wab wg ar_newb"), ("ra rab", "wall"), ("ra polla", "wl ar_set"), ("r0 rl rall", "ar_del"), ("rl ra poll", "ar_unset"), ("r0 rg", "ar_g"), ("poll polla", "ar_watch ar_del"),
             ("wa", "wa wb wab ar_newb ar_watch"), ("wab", "wab_b ar_del"), ("wa_rb", "wb wb_ra ar_set"), ("wg", "wg wall ar_new"), ("wl", "ar_new ar_unset"), ("wall", "wall ar_ab"), ("ar_new", "ar_newb ar_del ar_set"), ("ar_n", "ar_new wa"), ("ar_watch", "ar_watch ar_new"), ("ra", "wab_s ar_s"), ("rb", "wab_d"))
UNI = pairs("uniform", (READERS, "ar_newb"), ("ra rab rall", "wab wall"), ("rg", "wg ar_g"), ("r0 rl rall", "ar_del"), ("ra rall", "ar_set"), ("poll polla", "ar_del"), ("wa_rb", "wb ar_ab wab"), ("wb_ra", "wa"), ("wa", "ar_newb"), ("wg", "ar_new"), ("wl", "ar_del"), ("ra", "wab_s ar_s"))
SER = pairs("serial", ("wa", "wa wab wall wa_n ar_set ar_new wa_rb"), ("wab", "wab_b ar_ab"), ("wg", "wg wall ar_ab"), ("wl", "ar_del ar_new"), ("wall", "wall"), ("ar_new", "ar_new ar_newb ar_set ar_n ar_watch"), ("ar_del", "ar_ab"), ("wa_n", "ar_set"), ("wab_b", "wa_rb"), ("wa", "wab_s ar_s"))
# three transactions at once: the third one may hold, delay or release locks of the two whose accesses are compared
RACE3 = ["race " + x for x in ("ra wa ra", "ra wa rl", "ra wa wa", "rb wb wa", "rg wg rg", "rl ar_new rl", "r0 ar_newb r0", "rab wab ra", "ra ar_set ra", "wa wa ra")]
UNI3 = ["uniform " + x for x in ("ra wab ra", "ra wab wa", "poll ar_newb poll", "rl ar_newb rl", "r0 ar_newb r0", "rg wg rg")]
SER3 = ["serial " + x for x in ("wa wa ra", "wa wa wa", "wa ar_n ra", "wa ar_set ra", "wg wg rg")]
RACE3T = ["race " + x for x in ("r0 ar_newb ar_new", "ra wa rab", "rab wab wb", "wab wab_b ra", "poll ar_newb poll", "rl ar_new wa", "ra wa ra ra", "rl ar_new rl rl")]
UNI3T = ["uniform " + x for x in ("rab wab wa", "rab wab rab", "poll ar_newb ar_new", "r0 ar_newb ar_new", "ra wab ra ra")]
SER3T = ["serial " + x for x in ("ar_new ar_new r0", "wab wab_b ra", "wa wab rb", "wa ar_ab ra", "wa wa ra ra", "ar_new ar_newb rl")]
THROW = pairs("throw", ("ra rab", "wa wab ar_set"), ("rall", "wall ar_new"), ("r0 poll", "ar_new ar_n"), ("wa", "wa wab wb ar_new"), ("wa_n", "ra"), ("wa_rb", "wb_ra"), ("wab", "wab_b ar_ab"), ("ar_new", "ar_n ar_new"), ("wab_d", "rab"), ("ar_s", "ra"))
STUCK = ["stuck " + t for t in "r0 ra rall wa wab wall ar_new ar_n".split()] + pairs("stuck", ("ra rab", "wa wab ar_set"), ("r0", "ar_new"), ("rall", "wall"), ("wa", "wa wab"), ("wa_rb", "wb_ra"), ("wab", "wab_b ar_ab"), ("ar_n", "ar_new"), ("wb_x", "wa"), ("wa_x", "ra"), ("ra_x", "wa"), ("ar_n_x", "ra"), ("wab_b_x", "rab"))
BLOCK = ["block " + x for x in ("ar_set r0!", "ar_set rb!", "ar_set rg!", "wab_s rb!", "wab_d ra!", "wall_ro rall!", "ar_s r0!", "ar_s rb!", "rb wab_s!",
                                  "ra wab!", "ra wall!", "rall wall!", "rall ar_ab!", "r0 ar_newb!", "ra ar_newb!", "rab ar_new!", "poll ar_new!", "rg wg!", "wa wb!", "wb wa!", "wa rb!", "wab r0!", "wa_rb rb!", "wg wab!", "wab wg!", "rb wa!",
                                  "wa_n ra!", "wab_b ra!", "ar_n rall!", "ar_n r0!", "ar_n ra!", "wa_n rall!", "ar_e r0!", "ar_e rb!", "ar_e rg!", "ar_gs r0!", "ar_gs rab!", "ar_none r0!", "ar_none rall!", "ar_watch rall!", "wg_n rg!", "wg_n rall!", "wall_b ra!", "wall_b rg!", "wa_pr ra!", "r0 ar_gs!", "rg ar_new!", "rb ra!", "ra ra!", "rall rall!")] + ["block3 rb wa ra!", "block3 wb wa ra!", "block3 ra ra wa!", "block3 ra rab wa!", "block3 rg rg wg!", "block3 r0 r0 ar_new!", "block3 ra rb ar_ab!"]
OVER = ["overtake " + x for x in ("ra wa ra!", "rab wa ra!", "wa_rb wb rb!", "rall wall ra!", "r0 ar_new r0!", "ra ar_new ra!", "ra ar_new r0!", "rg wg rg!")] + ["late " + x for x in ("ra wa+", "rab wab+", "rg wg+", "r0 ar_new+", "ra ar_new+", "rall wall+")]

CHECKS.update({
    "S01": {"run": run_conc, "technique": CT, "units": [U("s01", "conc", SPIN, CB + "%d pairs of thread programs (readers, listings, pollers, writers, add/remove), every interleaving; %d of them with a third transaction" % (len(RACE) + len(RACE3), len(RACE3)), queries=RACE + RACE3, tqueries=RACE3T)]},
    "S02": {"run": run_conc, "technique": CT, "units": [U("s02", "conc", SPIN, CB + "%d pairs (reading transaction, committing transaction), every interleaving; %d of them with a third transaction" % (len(UNI) + len(UNI3), len(UNI3)), queries=UNI + UNI3, tqueries=UNI3T)]},
    "S03": {"run": run_conc, "technique": CT, "units": [U("s03", "conc", SPIN, CB + "%d pairs of writing transactions, every interleaving; %d of them with a third transaction" % (len(SER) + len(SER3), len(SER3)), queries=SER + SER3, tqueries=SER3T)]},
    "S04": {"run": run_conc, "technique": CT, "units": [
        U("s04", "conc", SPIN, CB + "%d groups of 1-3 transactions: internal failures, deadlock, lost wakeups, leaked locks (atomic wait/notify)" % len(THROW + STUCK), queries=THROW + STUCK + ["stuck ra ra* wa"], live=["live ra wa", "live wab wab_b"]),
        U("s04-17", "conc", SPIN, CB + "the same with yielding instead of wait/notify", std="c++17", queries=pairs("stuck", ("ra rab", "wa"), ("wa", "wa"), ("wa_rb", "wb_ra"), ("rall", "wall"), ("wab", "wab_b"), ("r0", "ar_new"), ("wb_x", "wa")) + ["throw ra wa", "throw wa wab"]),
        U("s04-retry", "conc", SPIN1, "the same locks with retries before sleeping", visits=4, live=["live ra wa"], queries=['stuck ra wa', 'stuck wa wa', 'throw ra wa', 'throw wa wa'], tqueries=[]),
    ]},
    "S05": {"run": run_conc, "technique": CT, "units": [U("s05", "conc", SPIN, CB + "%d pairs or triples with one transaction held open" % len(BLOCK), queries=BLOCK, controls=["block wa wa!", "block wa ra!", "block ar_new r0!"])]},
    "S06": {"run": run_conc, "technique": CT, "units": [U("s06", "conc", SPIN, CB + "%d triples: reader held open, committing writer, later reader" % len(OVER), queries=OVER)]},
})
for _p in ("S05",):
    for _u in CHECKS[_p]["units"]:
        _u["queries"] = _u["queries"] + _u["controls"]

# many entities: CHK selects what is compared
def bulk(prop, chk, what):
    n = prop.lower() + "-bulk"
    CHECKS[prop]["units"] += [
        U(n, "bulk", [B + "16", "NENTS=70", "NTX=2", "CHK=%d" % chk], "70 entities in 3 patterns, then 2 transactions of 7 kinds over 4 choices of entities (storage grows 5 times or more): " + what),
        U(n + "-sparse", "bulk", ["NENTS=20", "NTX=2", "CHK=%d" % chk], "20 entities in the default batch of 1000: " + what),
        U(n + "-300", "bulk", [B + "64", "NENTS=300", "NTX=2", "CHK=%d" % chk], "300 entities: " + what, tier="thorough"),
        U(n + "-3tx", "bulk", [B + "4", "NENTS=20", "NTX=3", "CHK=%d" % chk], "20 entities, 3 transactions: " + what, tier="thorough"),
    ]


bulk("C01", 1, "committed state")
bulk("C02", 2, "both views at the end of each transaction")
bulk("C03", 4, "created handles")
bulk("C05", 8, "listings")
bulk("C06", 16, "events of each commit")
bulk("C07", 32, "two observers, one polled after every commit, one at the end")

# entities used through references into the listings, which change under the operation
VIA = "; entities accessed through the elements of a listing"
CHECKS["C03"]["units"].append(U("c03-ref", "c02", [B + "2", "PRE=1", "NOPS=1", "VIA_LIST"], "operations on one entity leave the others alone" + VIA))
CHECKS["C02"]["units"].append(U("c02-ref", "c02", [B + "2", "PRE=0", "NOPS=2", "VIA_LIST"], "2 operations in the open transaction" + VIA))
CHECKS["C01"]["units"].append(U("c01-ref", "c01", [B + "2", "TXS={1,1}", "VIA_LIST"], "two transactions of 1 operation" + VIA))
CHECKS["C05"]["units"].append(U("c05-ref", "c05", [B + "2", "NOPS=1", "VIA_LIST"], "1 operation, then 1 operation" + VIA))
CHECKS["C15"]["units"].append(U("c15-uref", "c02", [B + "2", "PRE=1", "NOPS=1", "VIA_LIST"] + UNCH, "histories of C02" + VIA + ", unchecked"))

# ------------------------------------------------------------------------------------------------ both kinds
DISTINCT = ["distinct " + x for x in ("id_r id_r", "id_r id_w", "id_r0 id_ar", "id_ar id_ar", "id_rr id_r", "id_r id_o", "id_ow id_w", "id_r id_r id_r")]
CHECKS["C10"]["run"] = run_both
CHECKS["C10"]["units"].append(U("c10-ids", "concid", SPIN, "identifiers of transactions started by 2-3 threads at once, every interleaving", conc=True, queries=DISTINCT, live=["live id_r id_w"]))
CHECKS["C14"]["run"] = run_both
CHECKS["C14"]["units"] += [
    U("c14-conc", "conctr", SPIN + ["PRE=0", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=3"], "2-3 threads recording 1-3 events each at once, capacity 3, every interleaving", conc=True, live=["live two one"],
      queries=["race one one", "race one two", "race two two", "race one one one", "throw one one", "throw two one", "throw two two"], tqueries=["race three two", "race three three", "race two two one"]),
    U("c14-conc1", "conctr", SPIN + ["PRE=2", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=3"], "the same with one slot left", conc=True, live=["live two one"],
      queries=["race one one", "race two two", "throw one one", "throw two two"]),
]

# observers stopped by one thread while others of the same type are polled
def stops(prop, queries):
    CHECKS[prop]["units"].append(U(prop.lower() + "-stop", "conc", SPIN + ["STOPS"], "an observer stopped while another one of its type is polled: " + ", ".join(queries), live=["live pollb ar_stop"], queries=queries))


stops("S01", ["race pollb ar_stop", "race pollb ar_stopn", "race ar_stop ar_stopn", "race pollb ar_newb", "race ar_stop ar_newb"])
stops("S02", ["uniform pollb ar_newb", "uniform pollb ar_stopn"])
stops("S04", ["throw pollb ar_stopn", "stuck pollb ar_stopn"])
stops("S05", ["block pollb ar_stop!", "block pollb ar_stopn!"])

# ------------------------------------------------------------------------------------------------ other configurations of the locks
def retry(prop, queries, tqueries=()):
    CHECKS[prop]["units"].append(U(prop.lower() + "-retry", "conc", SPIN1, "the same locks with two retries before sleeping: " + ", ".join(queries), visits=4, live=["live ra wa"], queries=list(queries), tqueries=list(tqueries)))


retry("S01", ["race ra wa", "race wa wa", "race rg wg"], ["race rab wa", "race wa wab"])
retry("S02", ["uniform ra wa", "uniform rg wg"], ["uniform rab wa"])
retry("S03", ["serial wa wa", "serial wg wg"], ["serial wa wab"])
retry("S05", ["block ra wa!", "block wa rb!", "block rg wg!"], ["block ra wab!"])
retry("S06", ["late ra wa+"], ["overtake ra wa ra!"])

CONF = (pairs("race", ("ra", "wa"), ("rl r0 poll", "ar_newb"), ("rg", "wg"), ("wa", "wab"), ("wl", "ar_new"), ("ar_new", "ar_newb")) + pairs("uniform", ("rab", "ar_newb"), ("ra", "wab")) + pairs("serial", ("wa", "wab"), ("ar_new", "ar_set"))
        + pairs("throw", ("ra", "wa"), ("wab", "wab_b"), ("r0", "ar_new")) + pairs("stuck", ("ra", "wa"), ("wa", "wab"), ("r0", "ar_new"), ("wb_x", "wa")) + ["block ra wab!", "block wa rb!", "overtake ra wa ra!"])
CHECKS["C15"]["run"] = run_both
CHECKS["C15"]["units"] += [
    U("c15-s17", "conc", SPIN, "%d interleaving queries of S01-S06, C++17 (no atomic wait)" % len(CONF), conc=True, std="c++17", live=["live ra wa"], queries=CONF),
    U("c15-su", "conc", SPIN + UNCH, "the same, unchecked", conc=True, live=["live ra wa"], queries=CONF),
]

CHECKS["C16"] = {"run": run_both, "units": [
    U("c16-ops", "c16", [B + "2", "NH=2", "OPSET=OP_NEWA|OP_DESTROY|OP_SETA|OP_UNSETA|OP_SETG|OP_UNSETG"], "2 instances, 2 steps in either (add/remove or write transaction, kept open or released), 6 kinds of operation"),
    U("c16-h3", "c16", [B + "2", "NH=3", "OPSET=OP_NEWA|OP_DESTROY|OP_GETG"], "3 steps, 3 kinds of operation"),
    U("c16-ids", "concid", SPIN, "identifiers of instances created by 2 threads at once; pairs of transactions of two instances on two threads (no common data, no waiting, no failures), every interleaving", conc=True, live=["live inst inst", "live m_ar o_ar"],
      queries=["distinct inst inst", "distinct inst2 inst", "distinct inst2 inst2"] + pairs("race", ("m_ar m_set", "o_ar o_set o_w o_r o_poll"), ("m_w", "o_ar o_w o_r"), ("m_r m_poll", "o_ar o_set"), ("inst inst2", "m_ar o_w"))
      + pairs("throw", ("m_ar m_w", "o_ar o_w")) + ["block " + x for x in ("m_ar o_ar!", "m_w o_w!", "m_r o_ar!", "m_ar o_r!", "m_w o_r!", "m_ar o_w!", "m_set o_ar!", "inst o_ar!")]),
]}
