#include "sys.h"

static void fin(Ctx &ctx, ld x, const char *what) { CHECK(ctx, std::isfinite(x), what << " is not finite: " << pbt::num(x)); }
static void fin(Ctx &ctx, const View &v) {
    fin(ctx, v.gain, "gain of a partition"); fin(ctx, v.loss, "loss of a partition");
    for (auto &p : v.parts) { fin(ctx, p.gain, "gain of a part"); fin(ctx, p.loss, "loss of a part"); }
}

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.mid_T = 14; lim.big_T = 40; lim.big_L = 30; lim.max_comps = 40; lim.max_cells_combined = 50;
    Kind kind = gen_kind(s);
    lim.with_giant(9000, 150, 150);
    bool large = s.chance(1, 5000);
    Scenario sc;
    if (large) {        // sizes beyond those of arrays somebody may find large enough
        ctx.label("large case");
        if (kind == COMBINED) { kind = HIERARCHICAL; }
        sc.kind = kind;
        if (kind == ORDERED) { sc.T = 513 + (int)s.below(700); sc.tree.leaves = 1; sc.tree.parents.assign(1, -1); sc.tree.derive(); }
        else { sc.T = 1; sc.tree = gen_tree(s, 513 + (int)s.below(600)); }
        sc.vdims = gen_vdims(s, kind, 1, sc.cells());
    } else { sc = gen_shape(s, ctx, kind, lim); large = sc.cells() > 180 || sc.T > 70; }
    int fam = s.weighted({8, 2, 2, 1});
    gen_data(s, ctx, sc, fam == 0 ? -1 : fam == 1 ? HOMOGENEOUS : fam == 2 ? ZERO : NEARLY);
    if (s.chance(1, 6)) { double f = s.chance(1, 3) ? std::ldexp(1.0, (int)s.below(1851) - 900) : std::pow(10.0, (double)s.below(61) - 30); for (auto &a : sc.v) { for (auto &b : a) { for (double &x : b) { x *= f; } } } ctx.label("scaled data"); }
    if (ctx.want_text) { ctx.say(sc.str()); }
    Sys y; y.build_values(sc, s.chance(1, 3));
    for (int l = 0; l < sc.tree.leaves; l++) { for (int k = 0; k < sc.comps(); k++) { V1 f = y.flat(l, k); CHECK(ctx, (int)f.size() == sc.T, "a series has " << f.size() << " values instead of " << sc.T); } }
    y.make_qualities(); y.compute();
    if (s.chance(1, 5)) { y.compute(); }
    int norm = (int)s.below(3);
    for (int i = 0; i < norm; i++) { y.normalize(); if (ctx.want_text) { ctx.say("normalize; "); } }
    if (norm) { ctx.label("normalised"); }
    Table t = y.read();
    for (auto &q : t.q) { fin(ctx, q.gain, "gain of an area"); fin(ctx, q.loss, "loss of an area"); }
    y.make_partitioner(s.chance(1, 2));
    Handle h; int steps = large ? 1 : 1 + (int)s.below(3);
    for (int i = 0; i < steps; i++) {
        if (s.chance(1, 2)) {
            float p = gen_p_for(s, t); if (ctx.want_text) { ctx.say("best(" + pbt::num(p) + "); "); }
            h = y.best(p); fin(ctx, h.view());
        } else {
            float thr, lo, hi; gen_search(s, ctx, t, 8, thr, lo, hi); if (large) { thr = std::max(thr, 0.4f); }
            if (ctx.want_text) { ctx.say("search(" + pbt::num(thr) + "," + pbt::num(lo) + "," + pbt::num(hi) + "); "); }
            y.search(thr, lo, hi); ctx.label("searched");
            for (auto &x : y.partitions()) { fin(ctx, x.second.view()); h = x.second; }
            for (auto &x : y.qualities()) { fin(ctx, x.second.gain, "listed gain"); fin(ctx, x.second.loss, "listed loss"); }
            for (auto &r : y.rows()) { fin(ctx, r.gain, "gain of a row"); fin(ctx, r.loss, "loss of a row"); }
            for (int st : {P_MIN, P_MAX, P_OPT}) { float p = y.base().getP(st); fin(ctx, p, "a strategy's parameter"); CHECK(ctx, p >= 0 && p <= 1, "strategy " << st << " gives parameter " << pbt::num(p)); }
            ld big = 0; for (auto &x : y.qualities()) { big = std::max(big, std::max(fabsl(x.second.gain), fabsl(x.second.loss))); }
            float auc = y.base().computeAUC(); if (big < 1e17L) { fin(ctx, auc, "the area"); }   // a float
        }
    }
    for (auto &a : y.aggregates(h)) { for (double x : a.sum) { fin(ctx, x, "an aggregate's sum"); } for (double x : a.mean) { fin(ctx, x, "an aggregate's mean"); } }
    if (kind != ORDERED) { lp::HValuesMetaData m = y.meta(); CHECK(ctx, m.getPath().size() == sc.tree.parents.size(), "the path does not have every node"); }
    if (sc.cells() == 1) { ctx.label("a single cell"); }
    ctx.nontrivial = sc.cells() > 1;
}
const pbt::Property pbt::property = {"P23",
    "random data of the three kinds (degenerate shapes and values preferred) driven through values, qualities, up to two normalisations, partitions, searches, strategies and aggregates, with library and driver "
    "built with AddressSanitizer, UndefinedBehaviorSanitizer and checked standard containers; any report, crash or non-finite number fails. Non-trivial: more than one cell.", run};
