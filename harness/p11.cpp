#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Setup u;
    gen_setup(s, ctx, u, gen_kind(s));
    std::vector<View> vs;
    if (s.chance(1, 2)) {
        float thr, lo, hi; gen_search(s, ctx, u.ref, 8, thr, lo, hi);
        if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
        u.sys.search(thr, lo, hi);
        auto q = u.sys.qualities();
        for (auto &x : u.sys.partitions()) { View v = x.second.view(); v.param = x.first; v.gain = q[x.first].gain; v.loss = q[x.first].loss; vs.push_back(v); }
        ctx.label("searched");
    } else {
        int n = 2 + (int)s.below(3);
        std::vector<float> ps; for (int i = 0; i < n; i++) { ps.push_back(gen_p_for(s, u.ref)); }
        std::sort(ps.begin(), ps.end());
        for (float p : ps) { View v = u.sys.best(p).view(); v.param = p; vs.push_back(v); if (ctx.want_text) { ctx.say("p=" + pbt::num(p) + " "); } }
    }
    for (size_t i = 0; i + 1 < vs.size(); i++) { for (size_t j = i + 1; j < vs.size() && j < i + 4; j++) {
        const View &x = vs[i], &y = vs[j]; ld p = x.param, q = y.param;
        if (p == q) { continue; }
        // both are best up to eps, which is what rounding may cost
        ld eps = std::max(tol_of(u, x.param), tol_of(u, y.param));
        ld tg = eps * (1 + 2 * (1 - q) / (q - p)), tl = eps * (1 + 2 * p / (q - p));
        CHECK(ctx, y.gain >= x.gain - tg, "gain falls from " << pbt::num(x.gain) << " at p=" << pbt::num(x.param) << " to " << pbt::num(y.gain) << " at p=" << pbt::num(y.param));
        CHECK(ctx, y.loss >= x.loss - tl, "loss falls from " << pbt::num(x.loss) << " at p=" << pbt::num(x.param) << " to " << pbt::num(y.loss) << " at p=" << pbt::num(y.param));
        if (y.gain > x.gain + tg && y.loss > x.loss + tl) { ctx.nontrivial = true; }
    } }
    if (!u.exact) {
        View a = u.sys.best(0).view(), b = u.sys.best(1).view();
        const GL &all = u.ref.at(u.sc.tree.root, 0, u.sc.T - 1);
        CHECK(ctx, a.loss <= tol_of(u, 0), "the best partition at p=0 loses " << pbt::num(a.loss));
        CHECK(ctx, b.gain >= all.gain - tol_of(u, 1), "the best partition at p=1 gains " << pbt::num(b.gain) << ", the complete aggregation " << pbt::num(all.gain));
    }
}
const pbt::Property pbt::property = {"P11",
    "random data or synthetic tables of the three kinds; best partitions at up to four random parameters or along a searched list are compared pairwise, and p=0 and p=1 "
    "with their known extremes. Non-trivial: a pair with strictly more gain and loss at the higher parameter.", run};
