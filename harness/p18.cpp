#include "qualities_check.h"

static Sys start(const Scenario &sc, bool cells) { Sys y; y.build_values(sc, cells); y.make_qualities(); y.compute(); return y; }

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.max_comps = 24; lim.big_T = 50; lim.with_giant(600);
    Kind kind = gen_kind(s);
    Scenario a = gen_scenario(s, ctx, kind, lim), b = a;
    int n = a.tree.size(), L = a.tree.leaves;
    std::vector<int> node(n); for (int i = 0; i < n; i++) { node[i] = i; }   // node of a -> node of b
    bool flip = false; double factor = 1;
    std::string what;
    int mode = s.weighted({kind == ORDERED ? 0 : 3, 2, 2, kind == HIERARCHICAL ? 0 : 3, 3});
    if (mode == 0) {
        what = "renumbered nodes";
        std::vector<int> pl = s.permutation(L), pi = s.permutation(n - L);
        for (int i = 0; i < n; i++) { node[i] = i < L ? pl[i] : L + pi[i - L]; }
        for (int i = 0; i < n; i++) { b.tree.parents[node[i]] = a.tree.parents[i] < 0 ? -1 : node[a.tree.parents[i]]; }
        b.tree.derive();
        for (int l = 0; l < L; l++) { b.v[node[l]] = a.v[l]; }
    } else if (mode == 1) {
        what = "reordered components";
        std::vector<int> p = s.permutation(a.comps());
        for (int l = 0; l < L; l++) { for (int k = 0; k < a.comps(); k++) { b.v[l][p[k]] = a.v[l][k]; } }
    } else if (mode == 2) {
        what = "zero components added";
        int z = 1 + (int)s.below(3), at = (int)s.below(a.comps() + 1);
        b.vdims.assign(1, a.comps() + z);
        for (int l = 0; l < L; l++) { b.v[l].insert(b.v[l].begin() + at, z, V1(a.T, 0)); }
    } else if (mode == 3) {
        what = "reversed order"; flip = true;
        for (auto &x : b.v) { for (auto &y : x) { std::reverse(y.begin(), y.end()); } }
    } else {
        int how = (int)s.below(4);
        factor = how == 0 ? std::ldexp(1.0, (int)s.below(121) - 60) : how == 1 ? std::pow(10.0, (double)s.below(37) - 18) : how == 2 ? std::ldexp(1.0, (int)s.below(1801) - 900) : (double)(1 + s.below(5000)) / 1000.0;
        what = "values times " + pbt::num(factor);
        for (auto &x : b.v) { for (auto &y : x) { for (double &z : y) { z *= factor; } } }
    }
    ctx.label(mode == 4 ? "other unit" : what);
    bool norm = s.chance(1, 3); Table ra = data_table(a), rb = data_table(b); float p = gen_p_for(s, ra);
    if (ctx.want_text) { ctx.say(a.str() + what + ":\n" + b.str() + "p=" + pbt::num(p) + "\n"); }
    Sys x = start(a, false), y = start(b, s.chance(1, 3));
    ld f = factor;
    if (norm && well_conditioned(ra, a.tree.root) && well_conditioned(rb, b.tree.root)) {
        x.normalize(); y.normalize(); ctx.label("normalised"); f = 1;
        ra = normalized(ra, a.tree.root); rb = normalized(rb, b.tree.root);
    }
    Table ta = x.read(), tb = y.read();
    ld eg = rb.err_gain + f * ra.err_gain, el = rb.err_loss + f * ra.err_loss;
    for (int h = 0; h < n; h++) { for (int i = 0; i < a.T; i++) { for (int j = i; j < a.T; j++) {
        const GL &u = ta.at(h, i, j), &v = flip ? tb.at(node[h], a.T - 1 - j, a.T - 1 - i) : tb.at(node[h], i, j);
        PartView q; q.h = h; q.s = i; q.e = j;
        CHECK(ctx, fabsl(f * u.gain - v.gain) <= eg && fabsl(f * u.loss - v.loss) <= el, what << ": " << q.str(kind) << " had gain " << pbt::num(u.gain) << " loss " << pbt::num(u.loss)
              << ", its image has " << pbt::num(v.gain) << ", " << pbt::num(v.loss));
    } } }
    x.make_partitioner(); y.make_partitioner();
    View va = x.best(p).view(), vb = y.best(p).view();
    ld wa = f * ((ld)p * va.gain - (1 - (ld)p) * va.loss), wb = (ld)p * vb.gain - (1 - (ld)p) * vb.loss;
    ld tol = f * value_tolerance(ra, p, a.cells()) + value_tolerance(rb, p, a.cells());
    CHECK(ctx, fabsl(wa - wb) <= tol, what << ", p=" << pbt::num(p) << ": best value " << pbt::num(wa) << " became " << pbt::num(wb) << ": " << va.str() << " / " << vb.str());
    ctx.nontrivial = mixed(a, va);
}
const pbt::Property pbt::property = {"P18",
    "random data of the three kinds and a random symmetry of it (nodes renumbered, components permuted or zero-padded, order reversed, other unit); the two quality tables and the "
    "best values at a random p are compared. Non-trivial: a partly aggregated best partition.", run};
