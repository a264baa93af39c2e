// Copies: as good as their originals, and apart from them.
#include "sys.h"

// a copy made by the copy constructor, or assigned over another object of the class
template<class T> static std::shared_ptr<T> dup(const std::shared_ptr<T> &a, const std::shared_ptr<T> &over, bool assign) {
    if (!a) { return nullptr; }
    if (!assign || !over) { return std::shared_ptr<T>(new T(*a)); }
    std::shared_ptr<T> r(new T(*over)); *r = *a; return r;
}
static Sys dup_values(const Sys &a, const Sys &over, bool assign) {
    Sys r; r.kind = a.kind; r.tree = a.tree; r.T = a.T; r.vd = a.vd;
#define ONE(x, base) r.x = dup(a.x, over.x, assign); if (r.x) { r.base = r.x; }
    ONE(o1, ov) ONE(o2, ov) ONE(o3, ov) ONE(o4, ov) ONE(h1, hv) ONE(h2, hv) ONE(h3, hv) ONE(h4, hv) ONE(d2, dv) ONE(d3, dv) ONE(d4, dv)
#undef ONE
    return r;
}
static void dup_qualities(Sys &r, const Sys &a, const Sys &over, bool assign) { r.oq = dup(a.oq, over.oq, assign); r.hq = dup(a.hq, over.hq, assign); r.dq = dup(a.dq, over.dq, assign); }
static void dup_partitioner(Sys &r, const Sys &a, const Sys &over, bool assign) { r.op = dup(a.op, over.op, assign); r.hp = dup(a.hp, over.hp, assign); r.dp = dup(a.dp, over.dp, assign); }
static Handle dup_partition(const Handle &a, const Handle &over, bool assign) {
    Handle r; r.kind = a.kind; r.o = dup(a.o, over.o, assign); r.h = dup(a.h, over.h, assign); r.d = dup(a.d, over.d, assign); return r;
}
// the parts, copied one by one and assigned over one another
template<class P> static std::vector<P> shuffle_through(std::vector<P> v) { std::vector<P> r(v); for (size_t i = 0; i < r.size(); i++) { r[i] = v[v.size() - 1 - i]; } for (size_t i = 0; i < r.size(); i++) { P t = v[i]; r[i] = t; } return r; }
static PartView pv(lp::OPart x) { PartView p; p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); p.gain = x.getQuality()->getGain(); p.loss = x.getQuality()->getLoss(); return p; }
static PartView pv(lp::HPart x) { PartView p; p.h = x.getH(); p.size = x.getSize(); p.gain = x.getQuality()->getGain(); p.loss = x.getQuality()->getLoss(); return p; }
static PartView pv(lp::DPart x) { PartView p; p.h = x.getH(); p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); p.gain = x.getQuality()->getGain(); p.loss = x.getQuality()->getLoss(); return p; }
template<class P> static bool parts_survive(const std::vector<P> &v) {
    std::vector<P> w = shuffle_through(v);
    for (size_t i = 0; i < v.size(); i++) { PartView a = pv(v[i]), b = pv(w[i]); if (!a.same_area(b) || a.size != b.size || a.gain != b.gain || a.loss != b.loss) { return false; } }
    return true;
}
// aggregations, copied and assigned, and their aggregates
static void flat(double v, std::vector<double> &o) { o.push_back(v); }
template<class X> static void flat(const std::vector<X> &v, std::vector<double> &o) { o.push_back((double)v.size()); for (auto &x : v) { flat(x, o); } }
template<class A> static std::vector<double> numbers(const A &a) {
    std::vector<double> r;
    for (auto &x : a.getAggregates()) { flat(x.getSum(), r); flat(x.getMean(), r); r.push_back(x.getPart().getSize()); }
    return r;
}
template<class A> static bool aggregation_survives(const A &a, const A &over) {
    std::vector<double> n = numbers(a);
    A copy(a), assigned(over); assigned = a;
    if (numbers(copy) != n || numbers(assigned) != n || numbers(a) != n) { return false; }
    auto v = a.getAggregates(); auto w = v;
    for (size_t i = 0; i < w.size(); i++) { w[i] = v[w.size() - 1 - i]; }
    for (size_t i = 0; i < w.size(); i++) { auto t = v[i]; w[i] = t; }
    for (size_t i = 0; i < w.size(); i++) { std::vector<double> x, y; flat(v[i].getSum(), x); flat(v[i].getMean(), x); flat(w[i].getSum(), y); flat(w[i].getMean(), y); if (x != y || v[i].getPart().getSize() != w[i].getPart().getSize()) { return false; } }
    return true;
}
static bool aggregates_survive(const Sys &y, const Handle &h, const Handle &g) {
    if (y.o1) { return aggregation_survives(lp::OAggregationN1(h.o, y.o1), lp::OAggregationN1(g.o, y.o1)); } if (y.o2) { return aggregation_survives(lp::OAggregationN2(h.o, y.o2), lp::OAggregationN2(g.o, y.o2)); }
    if (y.o3) { return aggregation_survives(lp::OAggregationN3(h.o, y.o3), lp::OAggregationN3(g.o, y.o3)); } if (y.o4) { return aggregation_survives(lp::OAggregationN4(h.o, y.o4), lp::OAggregationN4(g.o, y.o4)); }
    if (y.h1) { return aggregation_survives(lp::HAggregationN1(h.h, y.h1), lp::HAggregationN1(g.h, y.h1)); } if (y.h2) { return aggregation_survives(lp::HAggregationN2(h.h, y.h2), lp::HAggregationN2(g.h, y.h2)); }
    if (y.h3) { return aggregation_survives(lp::HAggregationN3(h.h, y.h3), lp::HAggregationN3(g.h, y.h3)); } if (y.h4) { return aggregation_survives(lp::HAggregationN4(h.h, y.h4), lp::HAggregationN4(g.h, y.h4)); }
    if (y.d2) { return aggregation_survives(lp::DAggregationN2(h.d, y.d2), lp::DAggregationN2(g.d, y.d2)); } if (y.d3) { return aggregation_survives(lp::DAggregationN3(h.d, y.d3), lp::DAggregationN3(g.d, y.d3)); }
    return aggregation_survives(lp::DAggregationN4(h.d, y.d4), lp::DAggregationN4(g.d, y.d4));
}

struct Listing { std::vector<float> p; std::vector<View> v; std::vector<GL> q; std::vector<Row> rows; float opt = 0, auc = 0; };
static Listing listing(Sys &y) {
    Listing l; l.p = y.plist(); for (auto &x : y.partitions()) { l.v.push_back(x.second.view()); } for (auto &x : y.qualities()) { l.q.push_back(x.second); } l.rows = y.rows();
    if (!l.p.empty()) { l.opt = y.base().getP(P_OPT); l.auc = y.base().computeAUC(); }
    return l;
}
static bool same(const Listing &a, const Listing &b) {
    if (a.p != b.p || a.v.size() != b.v.size() || a.q.size() != b.q.size() || a.rows.size() != b.rows.size() || a.opt != b.opt || a.auc != b.auc) { return false; }
    for (size_t i = 0; i < a.v.size(); i++) { if (!identical(a.v[i], b.v[i])) { return false; } }
    for (size_t i = 0; i < a.q.size(); i++) { if (a.q[i].gain != b.q[i].gain || a.q[i].loss != b.q[i].loss) { return false; } }
    for (size_t i = 0; i < a.rows.size(); i++) { const Row &x = a.rows[i], &z = b.rows[i]; if (x.p != z.p || x.h != z.h || x.size != z.size || x.s != z.s || x.e != z.e || x.gain != z.gain || x.loss != z.loss) { return false; } }
    return true;
}
static bool same(const Table &a, const Table &b) {
    if (a.q.size() != b.q.size()) { return false; }
    for (size_t i = 0; i < a.q.size(); i++) { if (a.q[i].gain != b.q[i].gain || a.q[i].loss != b.q[i].loss) { return false; } }
    return true;
}

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.small_T = 6; lim.mid_T = 12; lim.big_T = 30; lim.small_L = 6; lim.mid_L = 10; lim.big_L = 24; lim.max_cells_combined = 30; lim.max_comps = 12; lim.with_giant(2500, 140, 150);
    Kind kind = gen_kind(s);
    Scenario a = gen_scenario(s, ctx, kind, lim), b;
    // another object of the same class, of another shape, for assignments
    for (int i = 0;; i++) { b = gen_shape(s, ctx, kind, lim); if (b.vdims.size() > a.vdims.size()) { b.vdims.resize(a.vdims.size()); } while (b.vdims.size() < a.vdims.size()) { b.vdims.push_back(1 + (int)s.below(3)); } if (b.cells() * b.comps() < 4000 || i > 3) { break; } }
    gen_data(s, ctx, b);
    if (ctx.want_text) { ctx.say(a.str() + "other object of the class: " + b.str()); }
    auto holds = [&](Sys &y, const Scenario &d, const char *what) {
        for (int l = 0; l < d.tree.leaves; l++) { for (int k = 0; k < d.comps(); k++) {
            std::vector<double> f = y.flat(l, k);
            CHECK(ctx, f == d.v[l][k], what << ": series " << k << " of leaf " << l << " is not the one stored");
            for (int t = 0; t < d.T; t++) { double g = y.get(l, k, t); CHECK(ctx, g == d.v[l][k][t], what << ": leaf " << l << " component " << k << " slice " << t << " holds " << pbt::num(g) << " instead of " << pbt::num(d.v[l][k][t])); }
        } }
        CHECK(ctx, y.vsize() == d.comps() && (kind == HIERARCHICAL || y.osize() == d.T), what << ": reports " << y.vsize() << " series of " << y.osize());
        if (kind != ORDERED) {
            lp::HValuesMetaData m = y.meta();
            CHECK(ctx, m.getParents() == d.tree.parents && m.getRoot() == d.tree.root && m.getLeaveSize() == d.tree.leaves && (int)m.getHsize() == d.tree.size(), what << ": another hierarchy is reported");
            std::vector<int> path = m.getPath(); CHECK(ctx, path.size() == d.tree.parents.size() && path.back() == d.tree.root, what << ": another path is reported");
            auto sz = m.getSize(); CHECK(ctx, (int)sz.size() == d.tree.size() && sz[d.tree.root] == d.tree.leaves, what << ": other sizes are reported");
        }
    };
    auto poke = [&](Sys &y, Scenario &d) {
        for (int n = 1 + (int)s.below(4); n > 0; n--) {
            int l = (int)s.below(d.tree.leaves), k = (int)s.below(d.comps()), t = (int)s.below(d.T); double x = gen_value(s, s.chance(1, 2) ? SMALL_INT : FRACTION) + 0.5;
            d.v[l][k][t] = x; y.set(l, k, t, x);
            if (ctx.want_text) { ctx.say("store " + pbt::num(x) + " at leaf " + pbt::num(l) + " component " + pbt::num(k) + " slice " + pbt::num(t) + "; "); }
        }
    };
    Sys y, z; y.build_values(a, s.chance(1, 2)); z.build_values(b, s.chance(1, 2));
    // values
    bool assign = s.chance(1, 2); if (assign) { ctx.label("values assigned"); }
    Scenario ca = a;
    Sys c = dup_values(y, z, assign);
    holds(c, a, "copy of values");
    if (s.chance(1, 2)) { poke(c, ca); holds(c, ca, "copy of values after updates of it"); holds(y, a, "values after updates of a copy"); }
    else { poke(y, a); holds(y, a, "values after updates"); holds(c, ca, "copy of values after updates of the original"); }
    holds(z, b, "values after their copy was assigned over");
    // qualities: a copy shows the same table; computed anew it has a table of its own
    y.make_qualities(); z.make_qualities(); z.compute();
    bool empty_copy = s.chance(1, 4);
    Sys e = y; if (empty_copy) { dup_qualities(e, y, z, s.chance(1, 2)); }
    y.compute(); Table ty = y.read();
    if (empty_copy) { ctx.label("qualities copied before they are computed"); e.compute(); CHECK(ctx, same(e.read(), ty), "qualities computed by a copy of the object differ"); }
    Sys q = y; dup_qualities(q, y, z, s.chance(1, 2));
    CHECK(ctx, same(q.read(), ty), "a copy of the qualities shows other values");
    CHECK(ctx, q.qsize() == y.qsize(), "a copy of the qualities has size " << q.qsize() << " instead of " << y.qsize());
    bool norm = well_conditioned(data_table(a), a.tree.root);
    int how = (int)s.below(3);
    if (how == 0) { q.compute(); if (norm) { q.normalize(); } CHECK(ctx, same(y.read(), ty), "a copy of the qualities, computed anew and normalised, changed the original's"); }
    else if (how == 1) { y.compute(); if (norm) { y.normalize(); } CHECK(ctx, same(q.read(), ty), "the qualities computed anew and normalised, changed a copy's earlier table"); y.oq = q.oq; y.hq = q.hq; y.dq = q.dq; }
    else if (norm && s.chance(1, 2)) { y.normalize(); }
    ty = y.read();
    // partitioners: results of a search done before the copying, answers, later searches
    y.make_partitioner(s.chance(1, 2)); z.make_partitioner(true);
    float thr = gen_threshold(s, a.cells() > 100 ? 3 : 6), lo, hi; gen_range(s, lo, hi); float p = gen_p(s);
    bool big = a.cells() > 100; if (big) { thr = std::max(thr, 0.08f); }
    if (s.chance(1, 2)) { z.search(0.25f); }
    bool before = s.chance(2, 3); if (before) { y.search(thr, lo, hi); ctx.label("copied after a search"); }
    Listing l = listing(y);
    Sys r = y; dup_partitioner(r, y, z, s.chance(1, 2));
    Listing lr = listing(r);
    CHECK(ctx, same(l, lr), "a copy of the partitioner lists " << lr.p.size() << " parameters, the original " << l.p.size() << ", or other results");
    Handle h = y.best(p), g = r.best(p); View v = h.view();
    CHECK(ctx, identical(v, g.view()), "a copy of the partitioner answers " << g.view().str() << " instead of " << v.str());
    Sys &one = s.chance(1, 2) ? y : r, &two = &one == &y ? r : y;
    float thr2 = gen_threshold(s, big ? 2 : 5), lo2, hi2; gen_range(s, lo2, hi2); if (big) { thr2 = std::max(thr2, 0.08f); }
    if (ctx.want_text) { ctx.say("search " + pbt::num(thr2) + " in [" + pbt::num(lo2) + "," + pbt::num(hi2) + "] by the " + (&one == &y ? "original" : "copy") + "\n"); }
    one.search(thr2, lo2, hi2);
    CHECK(ctx, same(l, listing(two)), "a search by a partitioner changed the results of its copy (or original)");
    Sys fresh = y; fresh.make_partitioner(true); fresh.search(thr2, lo2, hi2);
    CHECK(ctx, same(listing(fresh), listing(one)), "a copy (or its original) lists other results than a new partitioner");
    two.search(thr2, lo2, hi2);
    CHECK(ctx, same(listing(one), listing(two)), "a partitioner and its copy list other results for the same search");
    // partitions, parts, aggregates
    Handle other = z.best(gen_p(s)), k = dup_partition(h, other, s.chance(1, 2));
    CHECK(ctx, identical(v, k.view()), "a copy of the partition is " << k.view().str() << " instead of " << v.str());
    CHECK(ctx, k.equals(h) && !k.differs(h), "a copy of the partition is not equal to it");
    bool ok = h.o ? parts_survive(h.o->getParts()) : h.h ? parts_survive(h.h->getParts()) : parts_survive(h.d->getParts());
    CHECK(ctx, ok, "parts change when they are copied or assigned");
    Handle another = y.best(gen_p(s));
    CHECK(ctx, aggregates_survive(y, h, another), "aggregates change when they are copied or assigned");
    if (h.o) { h.o.reset(); } else if (h.h) { h.h.reset(); } else { h.d.reset(); }
    CHECK(ctx, identical(v, k.view()), "a copy of the partition changed when the original was destroyed");
    CHECK(ctx, same(y.read(), ty), "searches and copies changed the quality table");
    ctx.nontrivial = a.cells() > 1 && (l.p.size() > 1 || v.parts.size() > 1);
}
const pbt::Property pbt::property = {"P30",
    "random data of every supported kind and number of dimensions; values, qualities, partitioners (with and without a search done), partitions, parts, aggregations and aggregates are copied and assigned over others of "
    "the same class, read, and used further on one side while the other side is compared with what it showed before. Non-trivial: more than one cell, and more than one listed parameter or part.", run};
