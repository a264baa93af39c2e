#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.mid_T = 10; lim.big_T = 22; lim.big_L = 20; lim.max_cells_combined = 24; lim.max_comps = 6;
    Setup u;
    bool many = s.chance(1, 1500);
    if (many) { gen_many(s, ctx, u); } else { gen_setup(s, ctx, u, gen_kind(s), lim); }
    float thr;
    int how = s.weighted({4, 3, 2, 1});
    if (how == 0) { thr = gen_threshold(s, 16); }
    else if (how == 1) { thr = ldexpf(1.0f, -(int)(10 + s.below(30))); }              // around the resolution of float
    else if (how == 2) { thr = ldexpf(1.0f, -(int)(30 + s.below(119))); ctx.label("threshold below float resolution"); }
    else { thr = 1e-6f; }
    float lo = 0, hi = 1;
    switch (s.weighted({4, 2, 2, 1, 2})) {
    case 4: { float t; gen_search(s, ctx, u.ref, 12, t, lo, hi); if (s.chance(1, 2)) { thr = t; } break; }
    case 0: break;
    case 1: gen_range(s, lo, hi); break;
    case 2: lo = hi = gen_p(s); ctx.label("min equals max"); break;
    default: lo = gen_p(s); hi = lo; for (int i = (int)s.below(6); i >= 0; i--) { hi = nextafterf(hi, 1); } ctx.label("range of a few floats");
    }
    if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
    if (many) { thr = std::max(thr, 2.5e-4f); }
    u.sys.search(thr, lo, hi);
    std::vector<float> pl = u.sys.plist();
    CHECK(ctx, !pl.empty(), "no parameter is listed");
    CHECK(ctx, pl[0] == lo, "the list starts with " << pbt::num(pl[0]) << " instead of " << pbt::num(lo));
    for (size_t i = 0; i < pl.size(); i++) {
        CHECK(ctx, pl[i] >= lo && pl[i] <= hi, "parameter " << pbt::num(pl[i]) << " is outside [" << pbt::num(lo) << "," << pbt::num(hi) << "]");
        if (i) { CHECK(ctx, pl[i] > pl[i - 1], "parameter " << pbt::num(pl[i]) << " follows " << pbt::num(pl[i - 1])); }
    }
    // halvings of the range until the threshold; midpoints of [0,1] are exact, others may be rounded
    bool exact = lo == 0 && hi == 1 && thr > 1e-5f;
    ld t = exact ? (ld)thr : (ld)thr - 2.4e-7L, len = (ld)hi - lo; int k = 0;
    if (t > 1e-6L || len == 0) {
        while (len > t && k < 40) { len /= 2; k++; }
        CHECK(ctx, pl.size() <= (1UL << k) + 1, pl.size() << " parameters listed, at most " << (1UL << k) + 1 << " possible after " << k << " halvings");
    }
    auto parts = u.sys.partitions();
    CHECK(ctx, parts.size() == pl.size(), pl.size() << " parameters but " << parts.size() << " partitions");
    ctx.nontrivial = pl.size() >= 3 || (lo == hi) || thr < 6e-8f;
}
const pbt::Property pbt::property = {"P24",
    "random data or tables of the three kinds, ranges down to one or a few floats, thresholds down to the smallest floats; a run that exceeds 20 s of CPU (normal: under 0.1 s) or exhausts the stack does not "
    "terminate; the list is checked for order, range and length. Non-trivial: three or more listed parameters, an empty range, or a threshold below float resolution.", run};
