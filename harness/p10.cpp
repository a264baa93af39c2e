#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.mid_T = 14; lim.big_T = 30; lim.big_L = 24; lim.max_cells_combined = 36; lim.max_comps = 12; lim.with_giant(1500, 140, 150);
    Setup u;
    bool many = s.chance(1, 1500);
    if (many) { gen_many(s, ctx, u); } else { gen_setup(s, ctx, u, gen_kind(s), lim); }
    bool fine = s.chance(1, 5); if (fine) { ctx.label("fine threshold"); }
    float thr, lo, hi; gen_search(s, ctx, u.ref, fine ? 55 : 12, thr, lo, hi); if (many) { lo = 0; hi = 1; thr = ldexpf(1.0f, -(int)(9 + s.below(4))); }
    if (!many) { limit_search(u.sc, thr, lo, hi); }
    if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
    u.sys.search(thr, lo, hi);
    std::vector<float> pl = u.sys.plist();
    auto parts = u.sys.partitions();
    CHECK(ctx, !pl.empty() && pl[0] == lo, "the list does not start with " << pbt::num(lo));
    View prev;
    for (size_t k = 0; k < pl.size(); k++) {
        auto it = parts.find(pl[k]);
        CHECK(ctx, it != parts.end(), "no partition is listed under the listed parameter " << pbt::num(pl[k]));
        View v = it->second.view();
        require_best(ctx, u, v, pl[k], "listed partition");
        // up to which parameter it has to stay a best one; being best is an interval of parameters, so its end decides
        // (the width of a range is compared with the threshold in the parameter's own type)
        ld end = k + 1 < pl.size() ? (ld)pl[k + 1] - (ld)thr * (1 + 4e-7L) - 2 * ((ld)nextafterf(pl[k + 1], 2) - pl[k + 1]) : (ld)hi;
        float q = (float)end; if ((ld)q > end) { q = nextafterf(q, -1); }
        if (q > pl[k]) {
            require_best(ctx, u, v, q, ("partition listed at " + pbt::num(pl[k]) + ", still").c_str());
        }
        if (k) { CHECK(ctx, !same_areas(prev, v), "consecutive listed partitions are the same: " << v.str()); }
        prev = v;
    }
    ctx.label(pl.size() == 1 ? "1 listed" : pl.size() == 2 ? "2 listed" : pl.size() <= 5 ? "3-5 listed" : pl.size() <= 12 ? "6-12 listed" : "more than 12 listed");
    ctx.nontrivial = pl.size() >= 3;
}
const pbt::Property pbt::property = {"P10",
    "random data or synthetic tables of the three kinds, random thresholds and ranges; each listed partition must attain the independently computed optimum at its own "
    "parameter and at the last parameter it stands for (optimality of a partition is convex in p). Non-trivial: at least three listed partitions.", run};
