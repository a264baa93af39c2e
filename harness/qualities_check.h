#ifndef QUALITIES_CHECK_H
#define QUALITIES_CHECK_H
#include "sys.h"

inline void compare_tables(Ctx &ctx, const Scenario &sc, const Table &ref, const Table &got, ld rel, const char *what) {
    for (int h = 0; h < ref.H; h++) { for (int a = 0; a < ref.T; a++) { for (int b = a; b < ref.T; b++) {
        const GL &r = ref.at(h, a, b), &g = got.at(h, a, b);
        ld tol = rel * r.noise;
        PartView p; p.h = h; p.s = a; p.e = b;
        CHECK(ctx, fabsl(g.gain - r.gain) <= tol, what << ": gain of " << p.str(sc.kind) << " is " << pbt::num(g.gain) << ", expected " << pbt::num(r.gain));
        CHECK(ctx, fabsl(g.loss - r.loss) <= tol, what << ": loss of " << p.str(sc.kind) << " is " << pbt::num(g.loss) << ", expected " << pbt::num(r.loss));
        CHECK(ctx, g.gain >= -tol && g.loss >= -tol, what << ": " << p.str(sc.kind) << " has negative gain or loss " << pbt::num(g.gain) << ", " << pbt::num(g.loss));
    } } }
}

inline void check_qualities(Source &s, Ctx &ctx, Kind kind) {
    Limits lim;
    if (kind == ORDERED) { lim.big_T = ctx.thorough ? 220 : 110; }
    if (kind == HIERARCHICAL) { lim.big_L = ctx.thorough ? 160 : 70; }
    lim.max_comps = 120; lim.with_huge(ctx.thorough ? 300 : 180, ctx.thorough ? 400 : 200).with_giant();
    lim.vast = 40000;
    Scenario sc = gen_scenario(s, ctx, kind, lim);
    gen_unit(s, ctx, sc);
    if (ctx.want_text) { ctx.say(sc.str()); }
    bool cells = s.chance(1, 3);
    Sys y; y.build_values(sc, cells); y.make_qualities(); y.compute();
    int want = kind == ORDERED ? sc.T : sc.tree.size();
    CHECK(ctx, (int)y.qsize() == want, "quality table of size " << y.qsize() << " instead of " << want);
    Table ref = data_table(sc), got = y.read();
    compare_tables(ctx, sc, ref, got, REL, "quality");
    // elementary areas carry exactly nothing
    for (int l = 0; l < sc.tree.leaves; l++) { for (int t = 0; t < sc.T; t++) {
        const GL &q = got.at(l, t, t);
        CHECK(ctx, fabsl(q.gain) <= 1e-15L * ref.at(l, t, t).noise && fabsl(q.loss) <= 1e-15L * ref.at(l, t, t).noise,
              "a single cell has gain " << pbt::num(q.gain) << " and loss " << pbt::num(q.loss));
    } }
    for (auto &q : ref.q) { if (q.gain > 1e-6L * q.noise && q.loss > 1e-6L * q.noise) { ctx.nontrivial = true; } }
}
#endif
