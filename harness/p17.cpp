#include "qualities_check.h"

// both systems show the same data: areas correspond through map_h (combined/hierarchical node of b for node of a)
static void same_tables(Ctx &ctx, const Scenario &sc, const Table &ref, const Table &a, const Table &b, int (*)(int), const std::vector<int> &node, const char *what) {
    for (size_t i = 0; i < node.size(); i++) { if (node[i] < 0) { continue; }
        for (int x = 0; x < sc.T; x++) { for (int y = x; y < sc.T; y++) {
            const GL &p = a.at((int)i, x, y), &q = b.at(node[i], x, y); ld tol = REL * ref.at((int)i, x, y).noise;
            PartView v; v.h = (int)i; v.s = x; v.e = y;
            CHECK(ctx, fabsl(p.gain - q.gain) <= tol && fabsl(p.loss - q.loss) <= tol, what << ": " << v.str(sc.kind) << " has gain " << pbt::num(p.gain) << " loss " << pbt::num(p.loss)
                  << " in one layout, " << pbt::num(q.gain) << ", " << pbt::num(q.loss) << " in the other");
        } } }
}
static Sys start(Scenario sc, bool cells) { Sys y; y.build_values(sc, cells); y.make_qualities(); y.compute(); y.make_partitioner(); return y; }
static void same_best(Ctx &ctx, const Table &ref, int cells, Sys &a, Sys &b, float p, const char *what) {
    View x = a.best(p).view(), y = b.best(p).view();
    ld vx = (ld)p * x.gain - (1 - (ld)p) * x.loss, vy = (ld)p * y.gain - (1 - (ld)p) * y.loss, tol = value_tolerance(ref, p, cells) * 2;
    CHECK(ctx, fabsl(vx - vy) <= tol, what << ", p=" << pbt::num(p) << ": best partitions of different value " << pbt::num(vx) << " and " << pbt::num(vy) << ": " << x.str() << " / " << y.str());
    if (x.parts.size() > 1 && (int)x.parts.size() < cells) { ctx.nontrivial = true; }
}
static std::vector<int> identity(int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) { v[i] = i; } return v; }
// another choice of vector dimensions with the same number of components
static std::vector<int> other_dims(Source &s, Kind kind, int comps, const std::vector<int> &not_this) {
    std::vector<std::vector<int> > all;
    if (comps == 1) { all.push_back(std::vector<int>()); }
    all.push_back({comps});
    for (int a = 1; a <= comps; a++) { if (comps % a == 0) { all.push_back({a, comps / a});
        if (kind != COMBINED) { for (int b = 1; b <= comps / a; b++) { if ((comps / a) % b == 0) { all.push_back({a, b, comps / a / b}); } } } } }
    for (size_t i = 0; i < all.size(); i++) { if (all[i] == not_this) { all.erase(all.begin() + i); break; } }
    return all[s.below(all.size())];
}
static int dummy(int x) { return x; }

static void run(Source &s, Ctx &ctx) {
    int mode = s.weighted({3, 2, 2, 1});
    Limits lim; lim.max_comps = 36; lim.with_giant(600);
    float p = 0.5f;
    if (mode == 0) {
        Kind kind = gen_kind(s);
        Scenario sc = gen_scenario(s, ctx, kind, lim); Table ref = data_table(sc); p = gen_p_for(s, ref);
        Scenario o = sc; o.vdims = other_dims(s, kind, sc.comps(), sc.vdims);
        ctx.label("other vector dimensions");
        if (ctx.want_text) { ctx.say(sc.str() + "and the same with vector dimensions " + o.str().substr(0, 60) + " p=" + pbt::num(p) + "\n"); }
        bool c1 = s.chance(1, 3), c2 = s.chance(1, 3);
        Sys a = start(sc, c1), b = start(o, c2);
        same_tables(ctx, sc, ref, a.read(), b.read(), dummy, identity(sc.tree.size()), "vector dimensions");
        same_best(ctx, ref, sc.cells(), a, b, p, "vector dimensions");
    } else if (mode == 1) {
        Scenario sc = gen_shape(s, ctx, ORDERED, lim);
        if (sc.vdims.size() > 2) { sc.vdims.pop_back(); }
        while (sc.T > 40) { sc.T -= 30; }
        gen_data(s, ctx, sc);
        Table ref = data_table(sc); p = gen_p_for(s, ref);
        Scenario c = sc; c.kind = COMBINED;
        int chain = 1 + (int)s.below(3);            // one leaf under a chain
        c.tree = Tree(); c.tree.leaves = 1; c.tree.parents.assign(1 + chain, -1);
        std::vector<int> num = s.permutation(chain);
        int prev = 0; for (int i = 0; i < chain; i++) { c.tree.parents[prev] = 1 + num[i]; prev = 1 + num[i]; }
        c.tree.derive();
        ctx.label("ordered as combined");
        if (ctx.want_text) { ctx.say(sc.str() + "and as combined data with one leaf under " + pbt::num(chain) + " node(s), p=" + pbt::num(p) + "\n"); }
        Sys a = start(sc, false), b = start(c, false);
        Table ta = a.read(), tb = b.read();
        for (int h = 0; h < c.tree.size(); h++) { same_tables(ctx, sc, ref, ta, tb, dummy, std::vector<int>(1, h), "ordered and combined"); }
        same_best(ctx, ref, sc.T, a, b, p, "ordered and combined");
    } else if (mode == 2) {
        Scenario sc = gen_shape(s, ctx, HIERARCHICAL, lim);
        if (sc.vdims.size() > 2) { sc.vdims.pop_back(); }
        gen_data(s, ctx, sc);
        Table ref = data_table(sc); p = gen_p_for(s, ref);
        Scenario c = sc; c.kind = COMBINED;
        ctx.label("hierarchical as combined");
        if (ctx.want_text) { ctx.say(sc.str() + "and as combined data with one slice, p=" + pbt::num(p) + "\n"); }
        Sys a = start(sc, false), b = start(c, false);
        same_tables(ctx, sc, ref, a.read(), b.read(), dummy, identity(sc.tree.size()), "hierarchical and combined");
        same_best(ctx, ref, sc.tree.leaves, a, b, p, "hierarchical and combined");
    } else {
        Scenario sc = gen_scenario(s, ctx, ORDERED, lim);
        Scenario f; f.kind = HIERARCHICAL; f.vdims = sc.vdims; f.T = 1; f.tree.leaves = sc.T;
        f.tree.parents.assign(sc.T + 1, sc.T); f.tree.parents[sc.T] = -1; f.tree.derive();
        f.v.assign(sc.T, std::vector<std::vector<double> >(sc.comps(), V1(1)));
        for (int k = 0; k < sc.comps(); k++) { for (int t = 0; t < sc.T; t++) { f.v[t][k][0] = sc.v[0][k][t]; } }
        ctx.label("ordered as one-level hierarchy");
        if (ctx.want_text) { ctx.say(sc.str() + "and as leaves of a one-level hierarchy\n"); }
        Sys a = start(sc, false), b = start(f, false);
        Table ref = data_table(sc); Table ta = a.read(), tb = b.read();
        const GL &x = ta.at(0, 0, sc.T - 1), &y = tb.at(sc.T, 0, 0); ld tol = REL * ref.at(0, 0, sc.T - 1).noise;
        CHECK(ctx, fabsl(x.gain - y.gain) <= tol && fabsl(x.loss - y.loss) <= tol, "complete aggregation has gain " << pbt::num(x.gain) << " loss " << pbt::num(x.loss) << " when ordered, "
              << pbt::num(y.gain) << ", " << pbt::num(y.loss) << " as a one-level hierarchy");
        ctx.nontrivial = sc.T > 2 && x.gain > 1e-3L * ref.at(0, 0, sc.T - 1).noise;
    }
}
const pbt::Property pbt::property = {"P17",
    "the same random data in two layouts (other vector dimensions; ordered and combined with one leaf; hierarchical and combined with one slice; ordered and a one-level "
    "hierarchy); quality tables and best-partition values are compared. Non-trivial: a partly aggregated best partition (complete aggregation with a gain in the last layout).", run};
