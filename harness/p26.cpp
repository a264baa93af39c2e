// Partitions made by the user from a description, and taken apart again.
#include "sys.h"

typedef std::shared_ptr<lp::UpperTriangularMatrix<int> > IntTable;
struct Made {
    std::vector<int> cuts;               // ordered
    std::vector<bool> flags;             // hierarchical
    std::vector<IntTable> tables;        // combined
    std::vector<PartView> parts;         // what is described
    Handle h;
};

static PartView part(const Scenario &sc, int h, int s, int e) {
    PartView p; p.h = h; p.s = s; p.e = e;
    p.hsize = sc.kind == ORDERED ? 1 : (int)sc.tree.below[h].size(); p.osize = e - s + 1;
    p.size = sc.kind == HIERARCHICAL ? p.hsize : p.hsize * p.osize;
    return p;
}
static void describe_h(Source &s, const Scenario &sc, Made &m, int h, int stop) {
    if (sc.tree.children[h].empty() || (int)s.below(10) < stop) { m.flags[h] = true; m.parts.push_back(part(sc, h, 0, 0)); return; }
    m.flags[h] = false;
    for (int c : sc.tree.children[h]) { describe_h(s, sc, m, c, stop); }
}
static void describe_d(Source &s, const Scenario &sc, Made &m, int h, int i, int j, int stop) {
    bool split = !sc.tree.children[h].empty(), cut = i < j;
    int how = (int)s.below(10) < stop ? 0 : split && cut ? 1 + (int)s.below(2) : split ? 1 : cut ? 2 : 0;
    if (how == 0) { (*m.tables[h])(i, j, j); m.parts.push_back(part(sc, h, i, j)); }
    else if (how == 1) { (*m.tables[h])(i, j, -1); for (int c : sc.tree.children[h]) { describe_d(s, sc, m, c, i, j, stop); } }
    else { int c = i + (int)s.below(j - i); (*m.tables[h])(i, j, c); describe_d(s, sc, m, h, i, c, stop); describe_d(s, sc, m, h, c + 1, j, stop); }
}
static void build(const Scenario &sc, Sys &y, Made &m, float p) {
    m.h.kind = sc.kind;
    if (sc.kind == ORDERED) { m.h.o.reset(new lp::OPartition(m.cuts, y.oq->getQualities(), p)); }
    else if (sc.kind == HIERARCHICAL) { m.h.h.reset(new lp::HPartition(m.flags, y.hq->getQualities(), p, y.hq->getMetaData())); }
    else { m.h.d.reset(new lp::DPartition(m.tables, y.dq->getQualities(), p, y.dq->getMetaData())); }
}
// entries no part depends on are arbitrary
static Made describe(Source &s, const Scenario &sc) {
    Made m; int stop = 1 + (int)s.below(6);
    if (sc.kind == ORDERED) {
        m.cuts.resize(sc.T);
        for (int i = 0; i < sc.T; i++) { m.cuts[i] = i + (int)s.below(sc.T - i); }
        for (int i = 0; i < sc.T;) { int e = i; while (e + 1 < sc.T && (int)s.below(10) >= stop) { e++; } m.cuts[i] = e; m.parts.push_back(part(sc, 0, i, e)); i = e + 1; }
    } else if (sc.kind == HIERARCHICAL) {
        m.flags.resize(sc.tree.size());
        for (int h = 0; h < sc.tree.size(); h++) { m.flags[h] = sc.tree.children[h].empty() || s.chance(1, 2); }
        describe_h(s, sc, m, sc.tree.root, stop);
    } else {
        for (int h = 0; h < sc.tree.size(); h++) {
            m.tables.push_back(IntTable(new lp::UpperTriangularMatrix<int>(sc.T)));
            for (int i = 0; i < sc.T; i++) { for (int j = i; j < sc.T; j++) { (*m.tables[h])(i, j, s.chance(1, 3) && h >= sc.tree.leaves ? -1 : i + (int)s.below(j - i + 1)); } }
        }
        describe_d(s, sc, m, sc.tree.root, 0, sc.T - 1, stop);
    }
    return m;
}
static std::vector<int> flat(const std::vector<IntTable> &t, int T) {
    std::vector<int> r; for (auto &x : t) { for (int i = 0; i < T; i++) { for (int j = i; j < T; j++) { r.push_back((*x)(i, j)); } } } return r;
}
static void same_description(Ctx &ctx, const Scenario &sc, const Made &m, const Handle &h) {
    if (sc.kind == ORDERED) { CHECK(ctx, h.o->getCuts() == m.cuts, "the cuts of the partition are not the ones given"); }
    else if (sc.kind == HIERARCHICAL) { CHECK(ctx, h.h->getAggregated() == m.flags, "the aggregation flags of the partition are not the ones given"); }
    else { CHECK(ctx, flat(h.d->getCuts(), sc.T) == flat(m.tables, sc.T), "the cuts of the partition are not the ones given"); }
}
static void meta(Ctx &ctx, const Tree &t, const lp::HValuesMetaData &md) {
    CHECK(ctx, md.getParents() == t.parents && md.getRoot() == t.root && md.getLeaveSize() == t.leaves && (int)md.getHsize() == t.size(), "the hierarchy a partition reports is not the one given");
}
static Made take_apart(const Scenario &sc, const Handle &h) {
    Made m; m.h.kind = sc.kind;
    if (sc.kind == ORDERED) { m.cuts = h.o->getCuts(); } else if (sc.kind == HIERARCHICAL) { m.flags = h.h->getAggregated(); } else { m.tables = h.d->getCuts(); }
    return m;
}
static bool same_source(const Scenario &sc, const Handle &h, Sys &y) {
    return sc.kind == ORDERED ? h.o->getQualities() == y.oq->getQualities() : sc.kind == HIERARCHICAL ? h.h->getQualities() == y.hq->getQualities() : h.d->getQualities() == y.dq->getQualities();
}

static void run(Source &s, Ctx &ctx) {
    Kind kind = gen_kind(s);
    Limits lim; lim.max_cells_combined = 60; lim.with_giant(2000, 150, 150);
    Scenario sc = gen_shape(s, ctx, kind, lim); sc.v.clear();
    Table t = gen_table(s, ctx, sc);
    Sys y; y.use_table(sc, t, s.chance(1, 8)); y.make_partitioner();
    if (ctx.want_text) { ctx.say(sc.str() + table_str(t)); }
    std::vector<Made> made;
    int n = 1 + (int)s.below(sc.cells() > 100 ? 2 : 4);
    for (int k = 0; k < n; k++) {
        Made m = describe(s, sc);
        if (k && s.chance(1, 3)) {          // the same parts in other words
            const Made &o = made[s.below(made.size())];
            Made c = describe(s, sc); c.parts = o.parts;
            if (kind == ORDERED) { for (auto &p : c.parts) { c.cuts[p.s] = p.e; } m = c; }
            if (kind == HIERARCHICAL) {
                for (int h = 0; h < sc.tree.size(); h++) { bool above = false; for (auto &p : c.parts) { int a = p.h; while (a >= 0) { if (a == h && p.h != h) { above = true; } a = sc.tree.parents[a]; } } if (above) { c.flags[h] = false; } }
                for (auto &p : c.parts) { c.flags[p.h] = true; }
                m = c;
            }
        }
        float p = gen_p(s);
        build(sc, y, m, p);
        View v = m.h.view();
        std::string wanted; for (auto &x : m.parts) { wanted += " " + x.str(kind); }
        if (ctx.want_text) { ctx.say("described:" + wanted + "\n"); }
        std::vector<PartView> a = v.sorted(), b = m.parts; std::sort(b.begin(), b.end());
        bool same = a.size() == b.size();
        for (size_t i = 0; same && i < a.size(); i++) { same = a[i].same_area(b[i]); }
        CHECK(ctx, same, "described parts:" << wanted << "; partition: " << v.str());
        GL sum;
        for (size_t i = 0; i < a.size(); i++) {
            CHECK(ctx, a[i].size == b[i].size && a[i].hsize == b[i].hsize && a[i].osize == b[i].osize, "part " << a[i].str(kind) << " reports size " << a[i].size << " = " << a[i].hsize << " x " << a[i].osize);
            const GL &q = t.at(a[i].h, a[i].s, a[i].e);
            CHECK(ctx, a[i].gain == q.gain && a[i].loss == q.loss, "part " << a[i].str(kind) << " reports gain " << pbt::num(a[i].gain) << " loss " << pbt::num(a[i].loss) << ", the table has " << pbt::num(q.gain) << ", " << pbt::num(q.loss));
            sum.gain += q.gain; sum.loss += q.loss;
        }
        CHECK(ctx, v.gain == sum.gain && v.loss == sum.loss, "the partition reports gain " << pbt::num(v.gain) << " loss " << pbt::num(v.loss) << ", its parts add up to " << pbt::num(sum.gain) << ", " << pbt::num(sum.loss));
        CHECK(ctx, v.param == p, "the partition reports parameter " << pbt::num(v.param) << " instead of " << pbt::num(p));
        if (kind == ORDERED) { for (size_t i = 1; i < v.parts.size(); i++) { CHECK(ctx, v.parts[i - 1].e + 1 == v.parts[i].s, "the parts are not listed in order: " << v.str()); } }
        same_description(ctx, sc, m, m.h);
        CHECK(ctx, same_source(sc, m.h, y), "the partition does not refer to the table it was given");
        if (kind == HIERARCHICAL) { meta(ctx, sc.tree, m.h.h->getMetaData()); }
        if (kind == COMBINED) { meta(ctx, sc.tree, m.h.d->getMetaData()); }
        made.push_back(m);
        if (v.parts.size() > 1 && (int)v.parts.size() < sc.cells()) { ctx.nontrivial = true; }
    }
    // equality is that of the parts, whatever the description, parameter and quality
    for (auto &a : made) { for (auto &b : made) {
        bool want = same_areas(a.h.view(), b.h.view());
        CHECK(ctx, a.h.equals(b.h) == want && a.h.differs(b.h) == !want, "partitions " << a.h.view().str() << " and " << b.h.view().str() << " compare " << (a.h.equals(b.h) ? "equal" : "unequal"));
        if (want && &a != &b) { ctx.label("equal partitions from different descriptions"); }
    } }
    // a best partition, rebuilt from its own description
    float p = gen_p_for(s, t);
    Handle best = y.best(p);
    Made again = take_apart(sc, best);
    CHECK(ctx, same_source(sc, best, y), "a best partition does not refer to the table of its partitioner");
    build(sc, y, again, p);
    CHECK(ctx, identical(best.view(), again.h.view()) && best.equals(again.h), "best: " << best.view().str() << "; rebuilt from its own cuts: " << again.h.view().str());
    same_description(ctx, sc, again, best);
}
const pbt::Property pbt::property = {"P26",
    "random descriptions of partitions of the three kinds (cuts, flags or tables of cuts; entries that do not matter are arbitrary) on random tables, several per case, sometimes "
    "the same parts described otherwise; parts, sizes, qualities, parameter, getters and equality are compared with the description; best partitions are rebuilt from their own "
    "description. Non-trivial: some described partition has more than one part and fewer than one per cell.", run};
