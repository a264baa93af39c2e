#include "sys.h"

static void check_one(Ctx &ctx, const Setup &u, const Table &table, const View &v) {
    require_valid(ctx, u, v);
    ld g = 0, l = 0, mg = 0, ml = 0;
    for (auto &x : v.parts) {
        const GL &q = table.at(x.h, x.s, x.e);
        CHECK(ctx, x.gain == q.gain && x.loss == q.loss, "part " << x.str(u.sc.kind) << " reports gain " << pbt::num(x.gain) << " loss " << pbt::num(x.loss)
              << ", its area has " << pbt::num(q.gain) << ", " << pbt::num(q.loss));
        g += x.gain; l += x.loss; mg += fabsl(x.gain); ml += fabsl(x.loss);
    }
    CHECK(ctx, fabsl(v.gain - g) <= 1e-15L * mg, "partition " << v.str() << " but its parts sum to gain " << pbt::num(g));
    CHECK(ctx, fabsl(v.loss - l) <= 1e-15L * ml, "partition " << v.str() << " but its parts sum to loss " << pbt::num(l));
    if (mixed(u.sc, v) && mg > 0 && ml > 0) { ctx.nontrivial = true; }
}

static void run(Source &s, Ctx &ctx) {
    Setup u;
    gen_setup(s, ctx, u, gen_kind(s), Limits().with_huge(140, 160).with_giant(500), 3);
    Table table = u.exact ? u.ref : u.sys.read();
    int n = 1 + (int)s.below(3);
    for (int i = 0; i < n; i++) {
        float p = gen_p_for(s, u.ref);
        if (ctx.want_text) { ctx.say("best partition for p=" + pbt::num(p) + "\n"); }
        check_one(ctx, u, table, u.sys.best(p).view());
    }
    if (u.sc.cells() <= 90 && s.chance(1, 2)) {
        float thr, lo, hi; gen_search(s, ctx, u.ref, 7, thr, lo, hi);
        if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
        u.sys.search(thr, lo, hi);
        for (auto &x : u.sys.partitions()) { check_one(ctx, u, table, x.second.view()); }
        ctx.label("searched");
    }
}
const pbt::Property pbt::property = {"P08",
    "random data (raw or normalised) or synthetic quality tables of the three kinds, single requests and searches; each part's quality is compared with the table "
    "entry of its area, each partition's quality with the sum over its parts. Non-trivial: a partly aggregated partition with gain and loss.", run};
