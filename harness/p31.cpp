// Running out of memory: any allocation of any call may fail.
#include <cstdlib>
#include <new>
#include "sys.h"

static long live_blocks = 0, counted = 0, fail_at = 0;      // fail_at: the allocation that fails, counted from the call's first; 0: none
static bool counting = false, failed = false, keep_failing = false;
static void *take(size_t n) {
    if (counting) { counted++; if (fail_at && (counted == fail_at || (keep_failing && counted > fail_at))) { failed = true; throw std::bad_alloc(); } }
    void *p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); }
    live_blocks++; return p;
}
static void give(void *p) { if (p) { live_blocks--; free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

enum { VALUES, QUALITIES, COMPUTE, AGAIN, PARTITIONER, BEST, SEARCH, SEARCH2, LISTS, AGGREGATE, COPIES, STEPS };
static const char *step_name[] = {"making the values", "making the qualities", "computing the qualities", "computing the qualities again", "making the partitioner", "a single request", "a search",
                                  "a second search", "reading the lists", "aggregating", "copying"};
struct Plan {
    Scenario sc; Table table; bool synthetic = false, cells = false, norm = false, from_object = false;
    float p = 0, thr = 0.1f, lo = 0, hi = 1, thr2 = 0.2f, lo2 = 0, hi2 = 1;
    int at = -1; long k = 0; bool persistent = false; int attempts = 1;       // the step that runs out of memory, and when
};
struct Result { std::vector<View> views; std::vector<float> params; std::vector<ld> numbers; long allocs[STEPS]; bool thrown = false; std::string why; };
static bool equal(const Result &a, const Result &b) {
    if (a.params != b.params || a.numbers != b.numbers || a.views.size() != b.views.size()) { return false; }
    for (size_t i = 0; i < a.views.size(); i++) { if (!identical(a.views[i], b.views[i])) { return false; } }
    return true;
}
template<class F> static void step(int which, const Plan &pl, Result &r, F f, const std::function<bool()> &before) {
    for (int t = 0; which == pl.at && t < pl.attempts; t++) {
        counted = 0; fail_at = std::max(1L, pl.k - 3 * t); failed = false; keep_failing = pl.persistent; bool caught = false;
        counting = true;
        try { f(); } catch (const std::bad_alloc &) { caught = true; }
        counting = false; fail_at = 0;
        if (failed && !caught) { r.why = std::string(step_name[which]) + " hides that memory ran out"; return; }
        r.thrown = r.thrown || caught;
        if (!before()) { r.why = std::string("what was handed out before changed when memory ran out while ") + step_name[which]; return; }
    }
    counted = 0; counting = true; f(); counting = false; r.allocs[which] = counted;
}
static void chain(const Plan &pl, Result &r) {
    Sys y; Handle best; View bv; std::vector<Handle> old; std::vector<View> ov; bool have_best = false;
    std::function<bool()> before = [&]() {
        if (have_best && !identical(best.view(), bv)) { return false; }
        for (size_t i = 0; i < old.size(); i++) { if (!identical(old[i].view(), ov[i])) { return false; } }
        return true;
    };
    for (long &x : r.allocs) { x = 0; }
#define STEP(w, ...) { step(w, pl, r, [&]() __VA_ARGS__, before); if (!r.why.empty()) { return; } }
    if (pl.synthetic) { STEP(VALUES, { Sys n; n.use_table(pl.sc, pl.table); y = n; }) }
    else {
        STEP(VALUES, { Sys n; n.build_values(pl.sc, pl.cells); y = n; })
        STEP(QUALITIES, { y.make_qualities(); })
        STEP(COMPUTE, { y.compute(); })
    }
    if (pl.norm) { y.normalize(); }
    STEP(PARTITIONER, { y.make_partitioner(pl.from_object); })
    STEP(BEST, { best = y.best(pl.p); })
    bv = best.view(); have_best = true; r.views.push_back(bv);
    STEP(SEARCH, { y.search(pl.thr, pl.lo, pl.hi); })
    for (auto &x : y.partitions()) { old.push_back(x.second); ov.push_back(x.second.view()); r.views.push_back(ov.back()); }
    std::vector<float> pl1 = y.plist(); r.params = pl1;
    STEP(SEARCH2, { y.search(pl.thr2, pl.lo2, pl.hi2); })
    std::vector<Row> rows; std::map<float, GL> quals; std::map<float, Handle> parts; std::vector<float> list;
    STEP(LISTS, { rows = y.rows(); quals = y.qualities(); parts = y.partitions(); list = y.plist(); })
    for (float p : list) { r.params.push_back(p); }
    for (auto &x : quals) { r.numbers.push_back(x.second.gain); r.numbers.push_back(x.second.loss); }
    for (auto &x : rows) { r.numbers.push_back(x.p); r.numbers.push_back(x.h); r.numbers.push_back(x.s); r.numbers.push_back(x.e); r.numbers.push_back(x.size); r.numbers.push_back(x.gain); r.numbers.push_back(x.loss); }
    for (auto &x : parts) { r.views.push_back(x.second.view()); }
    Handle twin; twin.kind = best.kind;
    STEP(COPIES, { if (best.o) { twin.o = std::make_shared<lp::OPartition>(best.o->getCuts(), best.o->getQualities(), pl.p); } else if (best.h) { twin.h = std::make_shared<lp::HPartition>(best.h->getAggregated(), best.h->getQualities(), pl.p, best.h->getMetaData()); }
                   else { twin.d = std::make_shared<lp::DPartition>(*best.d); } })
    r.views.push_back(twin.view());
    if (pl.synthetic) { return; }
    std::vector<AggView> agg;
    STEP(AGGREGATE, { agg = y.aggregates(best); })
    for (auto &a : agg) { for (double d : a.sum) { r.numbers.push_back(d); } for (double d : a.mean) { r.numbers.push_back(d); } }
    // a computation that fails leaves the partitioner, which works on the table of the earlier one, as it is
    STEP(AGAIN, { y.compute(); })
    Table t = y.read(); for (GL &q : t.q) { r.numbers.push_back(q.gain); r.numbers.push_back(q.loss); }
    r.views.push_back(y.best(pl.p).view());
}

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.small_T = 6; lim.mid_T = 10; lim.big_T = 16; lim.small_L = 6; lim.mid_L = 10; lim.big_L = 16; lim.max_cells_combined = 20; lim.max_comps = 8;
    Plan pl; Kind kind = gen_kind(s);
    pl.sc = gen_shape(s, ctx, kind, lim);
    pl.synthetic = s.chance(1, 4);
    if (pl.synthetic) { pl.sc.v.clear(); pl.table = gen_table(s, ctx, pl.sc); } else { gen_data(s, ctx, pl.sc); pl.norm = s.chance(1, 2) && well_conditioned(data_table(pl.sc), pl.sc.tree.root); }
    pl.cells = s.chance(1, 3); pl.from_object = s.chance(1, 2);
    pl.p = gen_p(s); pl.thr = gen_threshold(s, 5); gen_range(s, pl.lo, pl.hi); pl.thr2 = gen_threshold(s, 4); gen_range(s, pl.lo2, pl.hi2);
    Result dry; chain(pl, dry);
    CHECK(ctx, dry.why.empty(), dry.why);
    if (ctx.want_text) { ctx.say(pl.sc.str()); }
    int thrown = 0;
    for (int n = 3; n > 0; n--) {
        Plan q = pl; q.at = (int)s.below(STEPS);
        long total = dry.allocs[q.at]; if (total < 1) { continue; }
        q.k = 1 + (long)s.below((uint64_t)total); if (s.chance(1, 4)) { q.k = total - (long)s.below((uint64_t)std::min(total, 4L)); }
        q.persistent = s.chance(1, 3); q.attempts = s.chance(1, 3) ? 2 + (int)s.below(3) : 1;
        if (ctx.want_text) { ctx.say("allocation " + pbt::num(q.k) + " of " + pbt::num(total) + (q.persistent ? " and all after it fail" : " fails") + " while " + step_name[q.at] + (q.attempts > 1 ? ", " + pbt::num(q.attempts) + " times" : "") + "\n"); }
        long left[3]; std::string why; bool same = true;
        for (int i = 0; i < 3; i++) {
            long b = live_blocks;
            { Result r; chain(q, r); if (r.why.empty()) { same = same && equal(r, dry); } else { why.swap(r.why); } if (r.thrown && i == 0) { thrown++; } }
            left[i] = live_blocks - b - (why.empty() ? 0 : 1);
            CHECK(ctx, why.empty(), why);
            if (i == 0 && left[0] <= 0) { left[1] = left[2] = 0; break; }      // something allocated once is no leak
        }
        CHECK(ctx, same, "after running out of memory while " << step_name[q.at] << " (allocation " << q.k << "), the same call repeated gives other results than without it");
        CHECK(ctx, !(left[1] > 0 && left[2] > 0), "running out of memory while " << step_name[q.at] << " (allocation " << q.k << " of " << total << ") leaves " << left[2] << " blocks allocated after all objects are destroyed");
        ctx.label(std::string("memory runs out while ") + step_name[q.at]);
    }
    ctx.nontrivial = thrown > 0 && pl.sc.cells() > 1;
}
const pbt::Property pbt::property = {"P31",
    "random chains of calls in which one allocation of one call fails (once, or it and all later ones of that call; the call is then repeated), under AddressSanitizer; the results are compared with those of the chain that never runs out, "
    "what was handed out before with snapshots of it, and the number of live blocks before and after. Non-trivial: an allocation did fail, and there is more than one cell.", run};
