#include "sys.h"

static void check_one(Ctx &ctx, const Setup &u, const View &v, float p, const char *what) {
    require_valid(ctx, u, v);
    CHECK(ctx, v.param == p, what << " reports parameter " << pbt::num(v.param) << " instead of " << pbt::num(p));
    for (auto &x : v.parts) {
        int hs = (int)u.sc.tree.below[x.h].size(), os = x.e - x.s + 1;
        CHECK(ctx, x.size == hs * os, what << ": part " << x.str(u.sc.kind) << " reports size " << x.size << " instead of " << hs * os);
        CHECK(ctx, x.hsize == hs && x.osize == os, what << ": part " << x.str(u.sc.kind) << " reports " << x.hsize << " x " << x.osize << " instead of " << hs << " x " << os);
    }
    if (mixed(u.sc, v)) { ctx.nontrivial = true; ctx.label("partially aggregated result"); }
}

static void run(Source &s, Ctx &ctx) {
    Setup u;
    gen_setup(s, ctx, u, gen_kind(s), Limits().with_huge(140, 160).with_giant(500), 4);
    int n = 1 + (int)s.below(3);
    for (int i = 0; i < n; i++) {
        float p = gen_p_for(s, u.ref);
        if (ctx.want_text) { ctx.say("best partition for p=" + pbt::num(p) + "\n"); }
        check_one(ctx, u, u.sys.best(p).view(), p, "partition");
    }
    if (u.sc.cells() <= 90 && s.chance(1, 2)) {
        float thr, lo, hi; gen_search(s, ctx, u.ref, 8, thr, lo, hi);
        if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
        u.sys.search(thr, lo, hi);
        auto m = u.sys.partitions();
        CHECK(ctx, !m.empty(), "the search lists no partition");
        for (auto &x : m) { check_one(ctx, u, x.second.view(), x.first, "listed partition"); }
        ctx.label("searched");
    }
}
const pbt::Property pbt::property = {"P04",
    "random data or synthetic quality tables of the three kinds, single requests and searches; every part of every partition is checked against the tree and "
    "the order, each cell is counted, sizes and parameter are compared. Non-trivial: some partition has more than one part and fewer than one per cell.", run};
