// Ownership: results outlive the objects they came from, and nothing stays allocated.
#include <cstdlib>
#include <new>
#include <malloc.h>
#include "sys.h"

static long live_blocks = 0, live_bytes = 0;
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } live_blocks++; live_bytes += (long)malloc_usable_size(p); return p; }
static void give(void *p) { if (p) { live_blocks--; live_bytes -= (long)malloc_usable_size(p); free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

struct Plan {
    Scenario sc; Table table; bool synthetic = false, cells = false, norm = false, from_object = false, search_again = false, compute_again = false, keep_tables = true, keep_aggregates = true;
    float p = 0, thr = 0.1f, lo = 0, hi = 1;
    std::vector<int> drop;          // order in which the objects go
};
// parts copied out of a partition
struct Parts {
    std::vector<lp::OPart> o; std::vector<lp::HPart> h; std::vector<lp::DPart> d;
    explicit Parts(const Handle &x) { if (x.o) { o = x.o->getParts(); } else if (x.h) { h = x.h->getParts(); } else { d = x.d->getParts(); } }
    template<class P> static bool same_quality(P p, const PartView &v) { auto q = p.getQuality(); return q && q->getGain() == v.gain && q->getLoss() == v.loss && p.getSize() == v.size; }
    bool shows(const View &v) {
        if (o.size() + h.size() + d.size() != v.parts.size()) { return false; }
        bool ok = true;
        for (size_t i = 0; i < o.size(); i++) { ok = ok && same_quality(o[i], v.parts[i]) && o[i].getStart() == v.parts[i].s && o[i].getEnd() == v.parts[i].e; }
        for (size_t i = 0; i < h.size(); i++) { ok = ok && same_quality(h[i], v.parts[i]) && h[i].getH() == v.parts[i].h; }
        for (size_t i = 0; i < d.size(); i++) { ok = ok && same_quality(d[i], v.parts[i]) && d[i].getH() == v.parts[i].h && d[i].getStart() == v.parts[i].s && d[i].getEnd() == v.parts[i].e; }
        return ok;
    }
};
// snapshots taken while everything is there, and again from what is left
struct Shot { View best; std::vector<View> listed; };
static bool same(const View &a, const View &b) { return identical(a, b); }

template<class A> static void keep(std::vector<std::function<std::vector<double>()> > &out, std::shared_ptr<A> a) {
    out.push_back([a]() { std::vector<double> r; for (auto &x : a->getAggregates()) { r.push_back((double)x.getPart().getQuality()->getGain()); } return r; });
}
static std::function<std::vector<double>()> aggregation(Sys &y, const Handle &h) {
    std::vector<std::function<std::vector<double>()> > f;
    if (y.o1) { keep(f, std::make_shared<lp::OAggregationN1>(h.o, y.o1)); } else if (y.o2) { keep(f, std::make_shared<lp::OAggregationN2>(h.o, y.o2)); }
    else if (y.o3) { keep(f, std::make_shared<lp::OAggregationN3>(h.o, y.o3)); } else if (y.o4) { keep(f, std::make_shared<lp::OAggregationN4>(h.o, y.o4)); }
    else if (y.h1) { keep(f, std::make_shared<lp::HAggregationN1>(h.h, y.h1)); } else if (y.h2) { keep(f, std::make_shared<lp::HAggregationN2>(h.h, y.h2)); }
    else if (y.h3) { keep(f, std::make_shared<lp::HAggregationN3>(h.h, y.h3)); } else if (y.h4) { keep(f, std::make_shared<lp::HAggregationN4>(h.h, y.h4)); }
    else if (y.d2) { keep(f, std::make_shared<lp::DAggregationN2>(h.d, y.d2)); } else if (y.d3) { keep(f, std::make_shared<lp::DAggregationN3>(h.d, y.d3)); }
    else { keep(f, std::make_shared<lp::DAggregationN4>(h.d, y.d4)); }
    return f[0];
}
static void drop_values(Sys &y) {
    y.o1.reset(); y.o2.reset(); y.o3.reset(); y.o4.reset(); y.h1.reset(); y.h2.reset(); y.h3.reset(); y.h4.reset(); y.d2.reset(); y.d3.reset(); y.d4.reset();
    y.ov.reset(); y.hv.reset(); y.dv.reset();
}
static void chain(const Plan &pl, std::string &why) {
    Sys y;
    if (pl.synthetic) { y.use_table(pl.sc, pl.table); }
    else { y.build_values(pl.sc, pl.cells); y.make_qualities(); y.compute(); if (pl.compute_again) { y.compute(); } if (pl.norm) { y.normalize(); } }
    y.make_partitioner(pl.from_object);
    if (pl.search_again) { y.search(0.25f); }
    y.search(pl.thr, pl.lo, pl.hi);
    Handle best = y.best(pl.p);
    std::map<float, Handle> listed = y.partitions();
    View v = best.view();
    std::vector<View> lv; for (auto &x : listed) { lv.push_back(x.second.view()); }
    std::vector<Row> rows = y.rows();
    auto lib_quals = y.base().getQualityList();
    std::vector<GL> lq; for (auto &x : lib_quals) { GL g; g.gain = x.second->getGain(); g.loss = x.second->getLoss(); lq.push_back(g); }
    Table t = y.read();
    std::function<std::vector<double>()> agg; std::vector<double> av;
    if (!pl.synthetic) { agg = aggregation(y, best); av = agg(); if (!pl.keep_aggregates) { agg = nullptr; } }
    Parts copies(best);
    // the tables of the qualities, kept by their handles only
    oqualities oqt; hqualities hqt; dqualities dqt;
    if (!pl.keep_tables) {} else if (y.oq) { oqt = y.oq->getQualities(); } else if (y.hq) { hqt = y.hq->getQualities(); } else { dqt = y.dq->getQualities(); }
    lp::Partitioner *base = &y.base(); (void)base;
    for (int d : pl.drop) {
        if (d == 0) { drop_values(y); }                                    // the qualities keep what they need
        else if (d == 1) { y.oq.reset(); y.hq.reset(); y.dq.reset(); }     // so does the partitioner
        else if (d == 2) {
            if (y.op || y.hp || y.dp) {
                Handle again = y.best(pl.p);
                if (!same(again.view(), v)) { why = "the partitioner answers otherwise after other objects are gone: " + again.view().str() + " instead of " + v.str(); return; }
            }
            y.op.reset(); y.hp.reset(); y.dp.reset();
        }
        if (!same(best.view(), v)) { why = "a partition changed when another object was destroyed: " + best.view().str() + " instead of " + v.str(); return; }
        size_t i = 0;
        for (auto &x : listed) { if (!same(x.second.view(), lv[i])) { why = "a listed partition changed when another object was destroyed: " + x.second.view().str() + " instead of " + lv[i].str(); return; } i++; }
        i = 0;
        for (auto &x : lib_quals) { if (x.second->getGain() != lq[i].gain || x.second->getLoss() != lq[i].loss) { why = "a listed quality changed when another object was destroyed"; return; } i++; }
        if (agg && agg() != av) { why = "the aggregates changed when another object was destroyed"; return; }
    }
    best = Handle(); listed.clear();        // the parts that were copied out keep what they show
    if (!copies.shows(v)) { why = "parts copied from a partition changed when it was destroyed, they were " + v.str(); return; }
    if (agg && agg() != av) { why = "the aggregates changed when the partition was destroyed"; return; }
    if (!pl.keep_tables) { return; }
    Sys left; left.shape(pl.sc);
    if (oqt) { left.oq.reset(new lp::OQualities(oqt)); } else if (hqt) { lp::HValuesMetaData md(pl.sc.tree.leaves, pl.sc.tree.parents); left.hq.reset(new lp::HQualities(hqt, md)); }
    else { lp::HValuesMetaData md(pl.sc.tree.leaves, pl.sc.tree.parents); left.dq.reset(new lp::DQualities(dqt, md)); }
    Table u = left.read();
    for (size_t i = 0; i < t.q.size(); i++) { if (t.q[i].gain != u.q[i].gain || t.q[i].loss != u.q[i].loss) { why = "the quality table changed when its owner was destroyed"; return; } }
}

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.small_T = 7; lim.mid_T = 16; lim.big_T = 30; lim.small_L = 7; lim.mid_L = 12; lim.big_L = 24; lim.max_cells_combined = 30; lim.max_comps = 12;
    Plan pl; Kind kind = gen_kind(s);
    pl.sc = gen_shape(s, ctx, kind, lim);
    pl.synthetic = s.chance(1, 4);
    if (pl.synthetic) { pl.sc.v.clear(); pl.table = gen_table(s, ctx, pl.sc); } else { gen_data(s, ctx, pl.sc); }
    pl.cells = s.chance(1, 3); pl.norm = s.chance(1, 2); pl.from_object = s.chance(1, 2); pl.search_again = s.chance(1, 3); pl.compute_again = s.chance(1, 3);
    pl.keep_tables = s.chance(1, 2); pl.keep_aggregates = s.chance(1, 2);
    pl.p = gen_p(s); pl.thr = gen_threshold(s, 6); gen_range(s, pl.lo, pl.hi);
    pl.drop = s.permutation(3);
    if (ctx.want_text) { ctx.say(pl.sc.str()); ctx.say("dropped in the order (0 values, 1 qualities, 2 partitioner) " + pbt::num(pl.drop[0]) + " " + pbt::num(pl.drop[1]) + " " + pbt::num(pl.drop[2]) + "\n"); }
    // something allocated once (a table made at first use, say) is no leak: what counts is growth by every further run
    long blocks[4], bytes[4]; std::string why;
    int more = pl.sc.cells() <= 12 && pl.sc.comps() <= 8 && s.chance(1, 100) ? 12 + (int)s.below(30) : 0;     // now and then a leak shows after many runs only
    if (more) { ctx.label("many runs of the chain"); }
    for (int i = 0; i < 4; i++) {
        long b = live_blocks, y = live_bytes;
        { std::string w; chain(pl, w); if (!w.empty() && why.empty()) { b = live_blocks; why = w; break; } }
        blocks[i] = live_blocks - b; bytes[i] = live_bytes - y;
    }
    if (more && why.empty()) {
        long seg[3] = {0, 0, 0};
        for (int i = 0; i < 3 && why.empty(); i++) {
            long b = live_blocks;
            for (int k = 0; k < more && why.empty(); k++) { std::string w; chain(pl, w); if (!w.empty()) { why = w; } }
            seg[i] = live_blocks - b;
        }
        CHECK(ctx, !why.empty() || !(seg[0] > 0 && seg[1] > 0 && seg[2] > 0), pbt::num(more) << " runs of the same chain leave " << seg[2] << " blocks allocated after its objects are destroyed");
    }
    CHECK(ctx, why.empty(), why);
    CHECK(ctx, !(blocks[1] > 0 && blocks[2] > 0 && blocks[3] > 0), "each run of the same chain leaves " << blocks[3] << " blocks (" << bytes[3] << " bytes) allocated after its objects are destroyed");
    CHECK(ctx, !(bytes[1] > 0 && bytes[2] > 0 && bytes[3] > 0), "each run of the same chain leaves " << bytes[3] << " bytes allocated after its objects are destroyed");
    ctx.nontrivial = pl.sc.cells() > 1;
}
const pbt::Property pbt::property = {"P28",
    "random chains (values, qualities, normalisation, partitioner, searches, aggregates) whose values, qualities and partitioner are destroyed in random order while partitions, lists, "
    "aggregates and tables are kept and read again, under AddressSanitizer; the same chain is run four times and the memory still allocated after each run is compared. "
    "Non-trivial: more than one cell.", run};
