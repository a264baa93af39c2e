#include "qualities_check.h"

static void run(Source &s, Ctx &ctx) {
    Setup u;
    Limits lim; lim.big_T = 40; lim.max_comps = 12; lim.with_giant(1500, 140, 150);
    bool many = s.chance(1, 800);
    if (many) { gen_many(s, ctx, u, s.chance(1, 60) ? 280 : 150); } else { gen_setup(s, ctx, u, gen_kind(s), lim); }
    if (!u.normalised && s.chance(1, 3)) {       // large or small magnitudes
        Table t = u.sys.read();
        ld f = powl(10.0L, (ld)s.below(25) - 6);
        for (auto &q : t.q) { q.gain *= f; q.loss *= f; }
        Scenario shape = u.sc;
        Sys y; y.use_table(shape, t); y.make_partitioner(); u.sys = y;
        ctx.label("magnitude changed"); if (ctx.want_text) { ctx.say("all qualities times " + pbt::num(f) + "\n"); }
    }
    float thr, lo, hi; gen_search(s, ctx, u.ref, 9, thr, lo, hi); if (many) { lo = 0; hi = 1; thr = ldexpf(1.0f, -(int)(9 + s.below(4))); }
    if (!many) { limit_search(u.sc, thr, lo, hi); }
    if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
    bool again = false;
    next:
    u.sys.search(thr, lo, hi);
    {
    std::vector<float> pl = u.sys.plist();
    auto q = u.sys.qualities();
    CHECK(ctx, !pl.empty(), "no parameter is listed");
    lp::Partitioner &b = u.sys.base();
    float pmin = b.getP(P_MIN), pmax = b.getP(P_MAX), popt = b.getP(P_OPT);
    CHECK(ctx, pmin == pl.front(), "minimum strategy: " << pbt::num(pmin) << ", first listed " << pbt::num(pl.front()));
    CHECK(ctx, pmax == pl.back(), "maximum strategy: " << pbt::num(pmax) << ", last listed " << pbt::num(pl.back()));
    CHECK(ctx, std::find(pl.begin(), pl.end(), popt) != pl.end(), "optimal strategy: " << pbt::num(popt) << " is not a listed parameter");
    auto score = [&](float p) { return (q[p].gain - 1) * (q[p].gain - 1) + q[p].loss * q[p].loss; };
    ld best = score(pl[0]);
    for (float p : pl) { best = std::min(best, score(p)); }
    CHECK(ctx, score(popt) <= best * (1 + 1e-12L) + 1e-15L, "optimal strategy: p=" << pbt::num(popt) << " at squared distance " << pbt::num(score(popt)) << ", but " << pbt::num(best) << " is listed");
    ld area = 0, mag = 0;
    for (size_t i = 0; i + 1 < pl.size(); i++) {
        ld t = (q[pl[i + 1]].gain - q[pl[i]].gain) * (q[pl[i + 1]].loss + q[pl[i]].loss) / 2; area += t; mag += fabsl(t);
    }
    if (mag < 1e30L) {
        float auc = b.computeAUC();
        ld tol = 1.2e-7L * (pl.size() + 3) * (mag + 1);
        CHECK(ctx, fabsl((ld)auc - (1 - area)) <= tol, "area " << pbt::num(auc) << ", expected " << pbt::num(1 - area));
    }
    if (!again) { ctx.nontrivial = pl.size() >= 3; }
    if (pl.size() >= 3 && popt != pl.front() && popt != pl.back()) { ctx.label("optimum strictly inside"); }
    }
    if (!again && !many && s.chance(1, 3)) {      // the same partitioner searched once more, most often in another range
        again = true; ctx.label("searched again");
        if (s.chance(1, 2)) { float p = gen_p_for(s, u.ref); lo = std::min(p, hi); } else { gen_search(s, ctx, u.ref, 9, thr, lo, hi); }
        limit_search(u.sc, thr, lo, hi);
        if (ctx.want_text) { ctx.say("then threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
        goto next;
    }
}
const pbt::Property pbt::property = {"P13",
    "random data or tables of the three kinds, qualities rescaled over 25 orders of magnitude, random thresholds, a second search by the same partitioner in a third of the cases; the three strategies and the area are recomputed from the listed "
    "qualities. Non-trivial: at least three listed parameters.", run};
