import vb, comp, world, meta, data, restart, mix, live, index, maps, handles
CHECKS = {}
def reg(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d

def k(ctx, quick, thorough): return thorough if ctx.thorough else quick

@reg("P23")
def p23(ctx):
    import codec_gen
    ctx.rule = "every structure with a wire codec (found in the project's headers), filled with seeded contents, encoded, decoded into a poisoned structure and compared field by field; plus metadata records, regions and query trees through their conversions; non-trivial: distinct encoded message"
    tab, known, dead = codec_gen.generate()
    for d in dead: ctx.distinct("codecs_nothing_refers_to", d)
    if len(known) < 60: ctx.unclear("codec-table: only %d message structures were recognised in the headers" % len(known))
    o = vb.objs([vb.VERIF + "/harness/h_codec.cpp", vb.VERIF + "/harness/codec_c.c", tab], "asan", ["-DIS_PDC_SERVER=1"]) + vb.client_lib("asan")
    e = vb.link("h_codec", o, "asan", libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=True)
    comp.shards(ctx, "codec", e, k(ctx, 16, 240), 100)

@reg("P25")
def p25(ctx):
    ctx.rule = "seeded data sets (constant, tiny, huge, clustered, with outliers, any supported type) counted again from the bins of their histogram, duplicates, and merge trees; non-trivial: distinct histogram"
    o = vb.objs([vb.VERIF + "/harness/h_hist.cpp", vb.VERIF + "/harness/hist_c.c"], "asan") + vb.client_lib("asan")
    e = vb.link("h_hist", o, "asan", libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=True)
    comp.shards(ctx, "hist", e, k(ctx, 24, 400), 400)

@reg("P30")
def p30(ctx):
    ctx.rule = "seeded random operation histories on hash tables (both copies), sets, the open-addressing table and the comparators, degraded hashes included; non-trivial: distinct operation history (hash of it)"
    a = comp.build("h_hash", "h_hash.cpp", [vb.SRC + "/commons/collections/pdc_hash_table.c"], libs=comp.OOM)
    b = comp.build("h_hash_srv", "h_hash.cpp", [vb.SRC + "/server/pdc_hash-table.c"], defs=["-DHT_SERVER"], libs=comp.OOM)
    c = comp.build("h_htab", "h_htab.cpp", libs=comp.OOM)
    n = k(ctx, 20, 200)
    comp.shards(ctx, "hash", a, n, 150, leaks=True)
    comp.shards(ctx, "hash-server", b, n, 100, leaks=True)
    comp.shards(ctx, "htab", c, n, 150, leaks=True)

@reg("P31")
def p31(ctx):
    ctx.rule = "seeded random operation histories on vector, deque, stack and linked list compared with a sequence model after every operation; non-trivial: distinct history"
    e = comp.build("h_seq", "h_seq.cpp", [vb.SRC + "/commons/collections/pdc_stack.c"], libs=comp.OOM)
    comp.shards(ctx, "seq", e, k(ctx, 48, 400), 600, leaks=True)

@reg("P32")
def p32(ctx):
    ctx.rule = "seeded random histories over binary, zero-terminated keys of several shapes against a sorted map; non-trivial: distinct history"
    e = comp.build("h_art", "h_art.cpp")
    comp.shards(ctx, "art", e, k(ctx, 24, 80), 150, leaks=True)

@reg("P33")
def p33(ctx):
    ctx.rule = "placements for seeded configurations (servers, alphabet, height, replication), keys and load reports; every matching exact/prefix/suffix/infix query and deletion is compared with where the insertion went; non-trivial: distinct configuration and key"
    e = comp.build("h_dart", "h_dart.cpp", libs=["-Wl,--wrap=thpool_init"])
    comp.shards(ctx, "dart", e, k(ctx, 16, 120), 300)

@reg("P43")
def p43(ctx):
    ctx.rule = "hash and comparison functions on seeded byte strings, numbers and alignments, each value compared with an independent implementation that is itself checked against published values; inputs are exact-size heap blocks, so that a read beyond them is seen; non-trivial: distinct input"
    S = vb.SRC + "/server/dablooms"
    e = comp.build("h_hashfn", "h_hashfn.cpp", [S + "/pdc_murmur.c"], defs=["-I" + S])
    comp.shards(ctx, "hashfn", e, k(ctx, 24, 120), 300, leaks=True)
    comp.shards(ctx, "hashfn-lengthy", e, 1, 1, mode="lengthy")

@reg("P44")
def p44(ctx):
    ctx.rule = "seeded histories of the client's table of handles (types, registration, references, closing, refused releases, clearing, look-up by handle and name) compared with a model of what is open and held; then client processes whose library calls are given closed, unknown and zero handles among open ones; non-trivial: distinct history"
    o = vb.objs([vb.VERIF + "/harness/h_handle.cpp", vb.VERIF + "/harness/handle_c.c"], "asan") + vb.client_lib("asan")
    e = vb.link("h_handle", o, "asan", libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=True)
    comp.shards(ctx, "handle", e, k(ctx, 24, 400), 400, leaks=True)
    world.scenarios(ctx, handles.scenario(), k(ctx, 250, 6000), world.shells_bins(), par=6)

@reg("P34")
def p34(ctx):
    ctx.rule = "seeded histories of additions and removals on counting and scaling bloom filters within capacity, every live element checked repeatedly, absent ones probed, raw counters compared with a model; non-trivial: distinct history"
    S = vb.SRC + "/server/dablooms"
    e = comp.build("h_bloom", "h_bloom.cpp", [S + "/pdc_dablooms.c", S + "/pdc_murmur.c", vb.SRC + "/commons/utils/pdc_malloc.c"], defs=["-I" + S])
    comp.shards(ctx, "bloom", e, k(ctx, 48, 80), 60, leaks=True)

@reg("P35")
def p35(ctx):
    ctx.rule = "seeded pairs of regions (1-3 dimensions, adjacent, nested and disjoint ones included, large offsets) against element-by-element sets; non-trivial: distinct pair"
    o = vb.objs([vb.VERIF + "/harness/h_region.cpp", vb.VERIF + "/harness/region_c.c"], "asan") + vb.client_lib("asan")
    e = vb.link("h_region", o, "asan", libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=True)
    comp.shards(ctx, "region", e, k(ctx, 32, 80), 150, leaks=True)

@reg("P36")
def p36(ctx):
    ctx.rule = "seeded strings, patterns, tag lists and generated queries against their definition, in exactly sized heap blocks; non-trivial: distinct string and pattern"
    e = comp.build("h_str", "h_str.cpp")
    comp.shards(ctx, "str", e, k(ctx, 16, 80), 300)

@reg("P39")
def p39(ctx):
    ctx.rule = "seeded histories of allocate/reallocate/free through the accounting allocator against a running total; non-trivial: distinct history"
    e = comp.build("h_malloc", "h_malloc.cpp", [vb.SRC + "/commons/utils/pdc_malloc.c"], libs=comp.OOM)
    comp.shards(ctx, "malloc", e, k(ctx, 16, 80), 300, leaks=True)
    # once more with the C library's own allocator, which resizes blocks where they are
    e = comp.build("h_malloc", "h_malloc.cpp", [vb.SRC + "/commons/utils/pdc_malloc.c"], san="plain", libs=comp.OOM)
    comp.shards(ctx, "malloc_plain", e, k(ctx, 8, 40), 300, seed0=ctx.seed * 1000 + 500)

@reg("P40")
def p40(ctx):
    ctx.rule = "seeded sequences of file helper calls (text, binary, partial updates, buffers, lines) compared with the bytes really in the file; non-trivial: distinct content"
    e = comp.build("h_io", "h_io.cpp", [vb.SRC + "/commons/file/common_io.c"])
    comp.shards(ctx, "io", e, k(ctx, 24, 80), 120, leaks=True)

@reg("P41")
def p41(ctx):
    ctx.rule = "seeded histories of stop watches and of nested, recursive and repeated calls under the profiler, on a clock the harness moves; non-trivial: distinct history"
    e = comp.build("h_time", "h_time.cpp", [vb.SRC + "/commons/utils/timer_utils.c", vb.SRC + "/commons/profiling/pdc_stack_ops.c"], libs=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime"])
    comp.shards(ctx, "time", e, k(ctx, 24, 80), 200, leaks=True)

@reg("P37")
def p37(ctx):
    ctx.rule = "seeded submissions, waits and destructions on one to three pools of 1-16 threads; a log of job starts and ends is checked offline; the same under ThreadSanitizer, where two writes of shared pool state must be ordered; non-trivial: distinct history and observed start order"
    e = comp.build("h_thpool", "h_thpool.cpp", [vb.SRC + "/commons/utils/thpool.c"], commons=False, libs=comp.OOM + ["-Wl,--wrap=sleep"])
    comp.shards(ctx, "thpool", e, k(ctx, 24, 96), k(ctx, 100, 400), timeout=60, par=4, leaks=True)
    if ctx.fails: return
    t = comp.build("h_thpool_t", "h_thpool.cpp", [vb.SRC + "/commons/utils/thpool.c"], san="tsan", commons=False, libs=comp.OOM + ["-Wl,--wrap=sleep"])
    comp.shards(ctx, "thpool-tsan", t, k(ctx, 8, 64), k(ctx, 60, 200), timeout=60, par=4, seed0=ctx.seed * 1000 + 500, judge=comp.unsynced_writes)

@reg("P45")
def p45(ctx):
    ctx.rule = "every data type's number, size, names and print format compared with the C types they stand for and with the element size that transfers and queries use; seeded unknown numbers, misspelt names and arrays of values; non-trivial: distinct case"
    o = vb.objs([vb.VERIF + "/harness/h_type.cpp", vb.VERIF + "/harness/type_c.c"], "asan") + vb.client_lib("asan")
    e = vb.link("h_type", o, "asan", libs=["-rdynamic", "-lm", "-luuid", "-lpthread", "-ldl"], cxx=True)
    comp.shards(ctx, "type", e, k(ctx, 8, 80), 400, leaks=True)

@reg("P46")
def p46(ctx):
    ctx.rule = "seeded generators and parameters; the range of every number drawn, the repeatability of every seed and the distribution of thousands of numbers (distance from the expected distribution function, false alarm probability below 1e-12), and time stamps on a clock the harness moves; non-trivial: distinct seed and parameters"
    e = comp.build("h_random", "h_random.cpp", libs=["-Wl,--wrap=clock_gettime"])
    comp.shards(ctx, "random", e, k(ctx, 8, 80), k(ctx, 40, 200), leaks=True)

@reg("P38")
def p38(ctx):
    ctx.rule = "seeded documents printed and parsed back in every way, edit histories against a document model, truncated and corrupted texts in exactly sized blocks; non-trivial: distinct document"
    e = comp.build("h_json", "h_json.cpp", [vb.SRC + "/tools/cjson/cJSON.c"], commons=False)
    comp.shards(ctx, "json", e, k(ctx, 96, 800), 250, leaks=True)

# ---- full stack: metadata -------------------------------------------------
META_RULE = "seeded histories of API calls issued from 1-3 client processes against 1-4 real servers (delays, several jobs on the same servers), every reply compared with a reference model and everything read back in audits; non-trivial: distinct call history"
def meta_check(pid, quick=150, thorough=4000, extra=None):
    def f(ctx):
        ctx.rule = META_RULE
        bins = world.shells_bins()
        world.scenarios(ctx, meta.scenario(pid, 60), k(ctx, quick, thorough), bins, par=6)
        if extra: extra(ctx, bins)
    CHECKS[pid] = f

def container_collision(ctx, bins):
    """two names with the same 32-bit hash"""
    world.scenarios(ctx, meta.collision, k(ctx, 3, 20), bins, pid=ctx.pid, par=3)

for p in ("P01", "P03", "P04", "P05", "P06", "P07", "P15", "P19", "P26", "P28"): meta_check(p)
meta_check("P02", extra=container_collision)

# ---- full stack: data -----------------------------------------------------
DATA_RULE = "seeded histories of object creations, region writes and reads, batches, concurrent rounds, status polls, refused calls, closes and flushes from 1-3 client processes against 1-4 real servers under varied settings and delays; every caller buffer is compared byte for byte with the model at every completion and every object is read back in audits; non-trivial: distinct call history"
def data_check(pid, quick=180, thorough=5000, ops=40):
    def f(ctx):
        ctx.rule = DATA_RULE
        bins = world.shells_bins()
        fn = data.settings if pid == "P11" else data.scenario(pid, ops)
        world.scenarios(ctx, fn, k(ctx, quick, thorough), bins, par=6)
    CHECKS[pid] = f
for p in ("P09", "P10", "P12", "P13", "P14", "P16"): data_check(p)
data_check("P11", 90, 2500)

# ---- full stack: restarts and crashes --------------------------------------
def scen_check(pid, rule, fn, quick, thorough, **kw):
    def f(ctx):
        ctx.rule = rule
        world.scenarios(ctx, fn(), k(ctx, quick, thorough), world.shells_bins(), par=6, **kw)
    CHECKS[pid] = f
scen_check("P17", "seeded metadata and data histories cut by one to three orderly closes and restarts (a different number of clients afterwards), audited against the model carried across; non-trivial: distinct call history", restart.scenario, 200, 4000)
scen_check("P18", "seeded metadata and data histories with completed checkpoints, then servers killed: at once, between two messages, at the k-th file call of the next checkpoint or of an orderly close (with and without what was buffered reaching the file); after the restart every server must hold the covered or the newer state in full, covered data byte for byte; non-trivial: distinct call history", restart.crash, 260, 4000)

scen_check("P24", "one to four client processes per job running seeded programs freely against each other (names and objects shared, transfers left outstanding, ranks leaving while others work), orderly closes at once from one or several ranks, restarts; every call must return, every process end with success and every server leave its state; non-trivial: distinct call history", live.scenario, 300, 6000)

import ls
scen_check("P47", "seeded metadata histories (creates, deletes, resizes, tags, several containers, one to four servers) and data histories, checkpointed, restarted or closed, then two to four listings by pdc_ls with random options (directory or one file, name and id patterns, name, id and summary fields, terminal or file); non-trivial: distinct call history", ls.scenario, 240, 4000)

scen_check("P08", "seeded histories of index insertions and deletions (from several ranks, also at once) over keys and values that share prefixes, suffixes and infixes, three placement algorithms, 1-6 servers, mixed with and followed by queries of all sixteen kinds compared with a model of the live references; non-trivial: distinct call history", index.scenario, 500, 8000)

# ---- how things are done ---------------------------------------------------
@reg("P20")
def p20(ctx):
    ctx.rule = "the metadata, data, settings and restart histories of the other checks with injected delays; the transport stand-in judges every message, memory transfer and handle; non-trivial: distinct call history"
    def extra(c, i, F, rep): mix.protocol(c, i, F, rep); mix.leftovers(c, i, F, rep)
    world.scenarios(ctx, mix.any_of(), k(ctx, 250, 6000), world.shells_bins(), par=6, extra=extra)

@reg("P21")
def p21(ctx):
    ctx.rule = "the metadata, data, settings, restart and crash histories of the other checks, servers and clients built with AddressSanitizer and UndefinedBehaviorSanitizer, then others with MemorySanitizer; non-trivial: distinct call history"
    world.scenarios(ctx, mix.any_of(crash=True), k(ctx, 220, 6000), world.shells_bins(), par=6, extra=mix.undefined)
    world.scenarios(ctx, mix.any_of(crash=True), k(ctx, 120, 2500), world.shells_bins("msan"), pid="P21", par=6, extra=mix.uninit)

@reg("P22")
def p22(ctx):
    ctx.rule = "data histories with several clients, flushes, evictions, checkpoints, restarts and shutdown while the flusher runs without pause, servers built with ThreadSanitizer; non-trivial: distinct call history"
    world.scenarios(ctx, mix.threads(), k(ctx, 110, 3000), world.shells_bins("tsan"), par=6, extra=mix.races)
scen_check("P42", "one to four client ranks map buffers to regions of up to three objects (1-3 dimensions, four element types) on one to three servers, change them, write and read through locks, contend for the same region (refused, waiting one by one, all at once with holding times recorded), release locks nobody holds, unmap, and read the result through transfer requests; with small caches and flushing in between; non-trivial: distinct call history", maps.scenario, 900, 15000)
