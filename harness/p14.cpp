#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Kind kind = gen_kind(s);
    Scenario sc = gen_shape(s, ctx, kind, Limits().with_huge().with_giant(500));
    gen_data(s, ctx, sc);
    if (s.chance(1, 3)) {   // aggregation is not limited to non-negative data
        for (auto &a : sc.v) { for (auto &b : a) { for (double &x : b) { if (s.chance(1, 3)) { x = -x; } } } }
        ctx.label("negative values");
    }
    Table t = gen_table(s, ctx, sc);
    float p = gen_p(s);
    if (ctx.want_text) { ctx.say(sc.str() + table_str(t) + "partition for p=" + pbt::num(p) + "\n"); }
    Sys val, cut;
    val.build_values(sc, s.chance(1, 3));
    cut.use_table(sc, t); cut.make_partitioner();
    Handle h = cut.best(p);
    View v = h.view();
    Setup u; u.sc = sc; require_valid(ctx, u, v);
    // round 0: the data as given; then, now and then, cells are stored anew (the values are shared with
    // earlier aggregates) or another partition is aggregated
    int rounds = sc.cells() <= 300 && s.chance(1, 4) ? 2 + (int)s.below(3) : 1;
    for (int round = 0; round < rounds; round++) {
        if (round) {
            ctx.label("aggregated again after changes");
            if (s.chance(1, 3)) { h = cut.best(gen_p(s)); v = h.view(); require_valid(ctx, u, v); if (ctx.want_text) { ctx.say("another partition, p=" + pbt::num(v.param) + "\n"); } }
            int n = (int)s.below(6);
            for (int i = 0; i < n; i++) {
                int l = (int)s.below(sc.tree.leaves), k = (int)s.below(sc.comps()), t = (int)s.below(sc.T); double x = gen_value(s, s.chance(1, 2) ? SMALL_INT : FRACTION);
                sc.v[l][k][t] = x; val.set(l, k, t, x);
                if (ctx.want_text) { ctx.say("store " + pbt::num(x) + " at leaf " + pbt::num(l) + " component " + pbt::num(k) + " slice " + pbt::num(t) + ", aggregate again\n"); }
            }
        }
        std::vector<AggView> ag = val.aggregates(h);
        CHECK(ctx, ag.size() == v.parts.size(), ag.size() << " aggregates for " << v.parts.size() << " parts");
        std::vector<PartView> parts = v.sorted();
        std::sort(ag.begin(), ag.end(), [](const AggView &a, const AggView &b) { return a.part < b.part; });
        int K = sc.comps();
        for (size_t i = 0; i < ag.size(); i++) {
            const AggView &a = ag[i]; const PartView &x = parts[i];
            CHECK(ctx, a.part.same_area(x), "no aggregate for part " << x.str(kind));
            CHECK(ctx, a.shape_ok && (int)a.sum.size() == K && (int)a.mean.size() == K, "the aggregate of " << x.str(kind) << " does not have the vector dimensions of the data");
            int n = (int)sc.tree.below[x.h].size() * (x.e - x.s + 1);
            ld tol = 1.2e-16L * (n + 16);      // sums in double, in any order
            for (int k = 0; k < K; k++) {
                ld sum = 0, mag = 0;
                for (int l : sc.tree.below[x.h]) { for (int t = x.s; t <= x.e; t++) { sum += sc.v[l][k][t]; mag += fabs(sc.v[l][k][t]); } }
                CHECK(ctx, fabsl(a.sum[k] - sum) <= tol * mag, "component " << k << " of part " << x.str(kind) << " sums to " << pbt::num(a.sum[k]) << ", expected " << pbt::num(sum));
                CHECK(ctx, fabsl(a.mean[k] - sum / n) <= tol * mag / n, "component " << k << " of part " << x.str(kind) << " has mean " << pbt::num(a.mean[k]) << ", expected " << pbt::num(sum / n));
            }
            if (n > 1) { ctx.nontrivial = true; }
            if (kind != ORDERED && sc.tree.children[x.h].size() > 0 && x.h != sc.tree.root) { ctx.label("part at an inner node"); }
            if (kind != ORDERED && x.h < sc.tree.leaves) { ctx.label("part at a leaf"); }
        }
    }
}
const pbt::Property pbt::property = {"P14",
    "random data (negative values too) of the three kinds, aggregated once or again after stores or with another partition, partitions drawn as the best ones of unrelated random quality tables; each aggregate's sum and mean per "
    "component is recomputed from the raw cells. Non-trivial: some part covers more than one cell.", run};
