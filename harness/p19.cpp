#include "sys.h"

// The model of a session: the current data, what the quality table was computed
// from, and which table the partitioner works on.
static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.small_T = 6; lim.mid_T = 10; lim.big_T = 16; lim.small_L = 5; lim.mid_L = 8; lim.big_L = 12; lim.max_cells_combined = 24; lim.max_comps = 8; lim.with_huge(70, 80); lim.with_giant(6000, 140, 150);
    Kind kind = gen_kind(s);
    Scenario now = gen_scenario(s, ctx, kind, lim);
    if (ctx.want_text) { ctx.say(now.str()); }
    Sys y; y.build_values(now, s.chance(1, 2)); y.make_qualities();
    struct TableState { Scenario data; bool normalised = false; };
    std::shared_ptr<TableState> table, part;      // of the qualities, of the partitioner
    bool searched = false; float st = 0, slo = 0, shi = 0; bool listed_normalised = false;
    struct Old { Handle h; View v; std::shared_ptr<TableState> t; };
    std::vector<Old> olds;
    auto fresh = [&](const TableState &t) { Sys f; f.build_values(t.data, false); f.make_qualities(); f.compute(); if (t.normalised) { f.normalize(); } f.make_partitioner(); return f; };
    auto ok_to_normalise = [&](const Scenario &d) { Table r = data_table(d); return well_conditioned(r, d.tree.root); };
    bool large = now.cells() > 40; if (large) { ctx.label("large data"); }
    int n = large ? 3 + (int)s.below(5) : s.chance(1, 60) ? 20 + (int)s.below(60) : 3 + (int)s.below(ctx.thorough ? 26 : 14);
    if (n >= 20 && !ctx.thorough) { ctx.label("long history"); }
    int computes = 0, changes_after = 0, normals = 0, searches = 0, bests = 0;
    for (int i = 0; i < n; i++) {
        if (table && part && now.cells() <= 12 && now.comps() <= 8 && s.chance(1, 4000)) {    // one call again and again
            int what = (int)s.below(5), times = s.chance(1, 40) ? 65500 + (int)s.below(200) : s.chance(1, 3) ? 1000 + (int)s.below(100) : 250 + (int)s.below(30);
            float p = gen_p(s), st2 = gen_threshold(s, 3), lo2, hi2; gen_range(s, lo2, hi2);
            if (what == 3 && times > 1000) { times = 1000; }
            if (ctx.want_text) { static const char *n[] = {"computeQualities", "new partitioner", "best(p)", "search", "store"}; ctx.say(std::string(n[what]) + " " + pbt::num(times) + " times; "); }
            if (what == 0) { table.reset(new TableState); table->data = now; computes++; }
            if (what == 1) { part = table; searched = false; }
            if (what == 2) { bests++; }
            if (what == 3) { st = st2; slo = lo2; shi = hi2; searched = true; listed_normalised = part->normalised; searches++; }
            View first; Table first_table; std::vector<float> first_list;
            for (int k = 0; k < times; k++) {
                switch (what) {
                case 0: y.compute(); if (times < 2000) { Table a = y.read(); if (!k) { first_table = a; } else { for (size_t q = 0; q < a.q.size(); q++) {
                    CHECK(ctx, a.q[q].gain == first_table.q[q].gain && a.q[q].loss == first_table.q[q].loss, "computation " << k + 1 << " of the same data gives another quality table than the first"); } } } break;
                case 1: y.make_partitioner(k & 1); break;
                case 2: { View v = y.best(p).view(); if (!k) { first = v; } else { CHECK(ctx, identical(v, first), "request " << k + 1 << " for one parameter gives " << v.str() << ", the first gave " << first.str()); } break; }
                case 3: y.search(st2, lo2, hi2); if (!k) { first_list = y.plist(); } else { CHECK(ctx, y.plist() == first_list, "search " << k + 1 << " of the same range lists other parameters than the first"); } break;
                default: { int l = k % now.tree.leaves, t = k % now.T, c = k % now.comps(); now.v[l][c][t] = (k * 7) % 5; y.set(l, c, t, now.v[l][c][t]); }
                }
            }
            if (what == 4) { changes_after++; }
            ctx.label("one call hundreds or thousands of times");
        }
        int op = s.weighted({3, 3, 2, 3, 4, 3, 2, 1});
        if (op == 0) {
            int l = (int)s.below(now.tree.leaves), k = (int)s.below(now.comps()), t = (int)s.below(now.T);
            double x = gen_value(s, s.chance(1, 2) ? SMALL_INT : s.chance(2, 3) ? FRACTION : s.chance(1, 2) ? SCALES : SPARSE);
            now.v[l][k][t] = x; y.set(l, k, t, x);
            if (table) { changes_after++; }
            if (ctx.want_text) { ctx.say("store " + pbt::num(x) + " at leaf " + pbt::num(l) + " component " + pbt::num(k) + " slice " + pbt::num(t) + "; "); }
        } else if (op == 1 || !table) {
            y.compute(); computes++;
            table.reset(new TableState); table->data = now;
            if (ctx.want_text) { ctx.say("computeQualities; "); }
        } else if (op == 2) {
            if (!ok_to_normalise(table->data)) { continue; }
            y.normalize(); table->normalised = true; normals++;
            if (ctx.want_text) { ctx.say("normalize; "); }
            for (auto &o : olds) { if (o.t == table) { // the parts show the table's entries: these have changed by design
                View v = o.h.view(); for (size_t q = 0; q < v.parts.size() && q < o.v.parts.size(); q++) { o.v.parts[q].gain = v.parts[q].gain; o.v.parts[q].loss = v.parts[q].loss; } } }
        } else if (op == 3 || !part) {
            y.make_partitioner(s.chance(1, 2)); part = table; searched = false;
            if (ctx.want_text) { ctx.say("new partitioner; "); }
        } else if (op == 4) {
            float p = gen_p(s);
            if (ctx.want_text) { ctx.say("best(" + pbt::num(p) + "); "); }
            Sys f = fresh(*part); bests++;
            Old o; o.h = y.best(p); o.v = o.h.view(); o.t = part;
            View w = f.best(p).view();
            CHECK(ctx, identical(o.v, w), "best partition " << o.v.str() << "; fresh objects give " << w.str());
            olds.push_back(o);
        } else if (op == 5) {
            st = gen_threshold(s, 6); gen_range(s, slo, shi);
            if (ctx.want_text) { ctx.say("search(" + pbt::num(st) + "," + pbt::num(slo) + "," + pbt::num(shi) + "); "); }
            y.search(st, slo, shi); searched = true; listed_normalised = part->normalised; searches++;
            for (auto &x : y.partitions()) { Old o; o.h = x.second; o.v = o.h.view(); o.t = part; olds.push_back(o); }
        } else if (op == 6) {
            if (!searched || listed_normalised != part->normalised) { continue; }
            Sys f = fresh(*part); f.search(st, slo, shi);
            CHECK(ctx, y.plist() == f.plist(), "the search lists " << y.plist().size() << " parameters, fresh objects " << f.plist().size() << ", or other ones");
            auto a = y.partitions(), b = f.partitions(); auto qa = y.qualities(), qb = f.qualities();
            CHECK(ctx, a.size() == b.size() && qa.size() == qb.size(), "the search keeps " << a.size() << " partitions and " << qa.size() << " qualities, fresh objects " << b.size() << " and " << qb.size());
            for (auto &x : a) {
                CHECK(ctx, b.count(x.first) && identical(x.second.view(), b[x.first].view()), "listed partition " << x.second.view().str() << " is not what fresh objects list");
                CHECK(ctx, qa.count(x.first) && qa[x.first].gain == qb[x.first].gain && qa[x.first].loss == qb[x.first].loss, "listed quality at " << pbt::num(x.first) << " is not what fresh objects list");
            }
            std::vector<Row> ra = y.rows(), rb = f.rows();
            CHECK(ctx, ra.size() == rb.size(), "the flat list has " << ra.size() << " rows, that of fresh objects " << rb.size());
            {
                float pa = y.base().getP(P_OPT), pb = f.base().getP(P_OPT), ca = y.base().computeAUC(), cb = f.base().computeAUC();
                CHECK(ctx, pa == pb && ca == cb, "optimal parameter " << pbt::num(pa) << " and area " << pbt::num(ca) << ", fresh objects give " << pbt::num(pb) << " and " << pbt::num(cb));
                CHECK(ctx, y.base().getP(P_MAX) == f.base().getP(P_MAX) && y.base().getP(P_MIN) == f.base().getP(P_MIN), "strategies differ from those of fresh objects");
            }
        } else {    // the table itself
            Sys f = fresh(*table); Table a = y.read(), b = f.read();
            for (size_t q = 0; q < a.q.size(); q++) {
                CHECK(ctx, a.q[q].gain == b.q[q].gain && a.q[q].loss == b.q[q].loss, "quality table entry (" << pbt::num(a.q[q].gain) << "," << pbt::num(a.q[q].loss) << "), fresh objects give ("
                      << pbt::num(b.q[q].gain) << "," << pbt::num(b.q[q].loss) << ")");
            }
        }
        if (olds.size() > 40) { olds.erase(olds.begin(), olds.end() - 40); }
        for (auto &o : olds) { CHECK(ctx, identical(o.h.view(), o.v), "a partition handed out earlier changed from " << o.v.str() << " to " << o.h.view().str()); }
    }
    if (computes > 1) { ctx.label("several computations"); }
    if (searches > 1) { ctx.label("several searches"); }
    if (normals) { ctx.label("normalised on the way"); }
    ctx.nontrivial = computes > 0 && searches + bests >= 2 && (computes > 1 || normals || searches > 1 || changes_after > 0);
}
const pbt::Property pbt::property = {"P19",
    "random histories of 3 to 16 (thorough: 28; now and then up to 79) calls on one set of objects: cell stores, computeQualities, normalize, new partitioner, single requests, searches, reads; every result is compared "
    "with that of fresh objects given the data in force, every earlier partition with a snapshot of it. Non-trivial: two or more results with a repeated "
    "computation, a repeated search, a normalisation or a change of data in the history.", run};
