#include "qualities_check.h"

static void run(Source &s, Ctx &ctx) {
    Kind kind = gen_kind(s);
    Scenario sc = gen_shape(s, ctx, kind, Limits().with_huge().with_giant(500, 450));
    Sys y; Table noise; bool table = s.chance(1, 4), degenerate = false;
    if (table) {
        Table t = gen_table(s, ctx, sc);
        GL &r = t.at(sc.tree.root, 0, sc.T - 1);
        if (r.gain == 0) { r.gain = 3; }
        if (r.loss == 0) { r.loss = 5; }
        if (ctx.want_text) { Scenario e = sc; e.v.clear(); ctx.say(e.str() + table_str(t)); }
        y.use_table(sc, t);
    } else {
        int fam = s.weighted({6, 1, 1, 1}) ;
        gen_data(s, ctx, sc, fam == 0 ? -1 : fam == 1 ? HOMOGENEOUS : fam == 2 ? ZERO : NEARLY);
        if (fam == 0 && s.chance(1, 8)) {   // a single cell carries everything
            for (auto &a : sc.v) { for (auto &b : a) { for (double &x : b) { x = 0; } } }
            sc.v[s.below(sc.tree.leaves)][s.below(sc.comps())][s.below(sc.T)] = (double)(1 + s.below(1000)) / 37.0;
        }
        gen_unit(s, ctx, sc);
        if (ctx.want_text) { ctx.say(sc.str()); }
        y.build_values(sc, s.chance(1, 4)); y.make_qualities(); y.compute();
        noise = data_table(sc);
    }
    Table a = y.read();
    y.normalize();
    Table b = y.read();
    GL r = a.at(sc.tree.root, 0, sc.T - 1);
    // what the definition says about the complete aggregation decides which case this is
    ld total_noise = table ? 0 : noise.at(sc.tree.root, 0, sc.T - 1).noise;
    bool g0 = !table, l0 = !table;      // no component has two non-zero cells; every component is constant
    for (int k = 0; k < sc.comps() && !table; k++) {
        int nonzero = 0;
        for (int l = 0; l < sc.tree.leaves; l++) { for (int t = 0; t < sc.T; t++) { nonzero += sc.v[l][k][t] != 0; if (sc.v[l][k][t] != sc.v[0][k][0]) { l0 = false; } } }
        if (nonzero > 1) { g0 = false; }
    }
    bool gn = table || noise.at(sc.tree.root, 0, sc.T - 1).gain > 1e-10L * total_noise;
    bool ln_ = table || noise.at(sc.tree.root, 0, sc.T - 1).loss > 1e-10L * total_noise;
    degenerate = g0 || l0;
    for (int h = 0; h < a.H; h++) { for (int i = 0; i < a.T; i++) { for (int j = i; j < a.T; j++) {
        const GL &x = a.at(h, i, j), &n = b.at(h, i, j);
        PartView p; p.h = h; p.s = i; p.e = j;
        CHECK(ctx, std::isfinite(n.gain) && std::isfinite(n.loss), "normalised quality of " << p.str(kind) << " is not finite: " << pbt::num(n.gain) << ", " << pbt::num(n.loss));
        if (gn) { CHECK(ctx, fabsl(n.gain - x.gain / r.gain) <= 1e-14L * fabsl(x.gain / r.gain), "normalised gain of " << p.str(kind) << " is " << pbt::num(n.gain)
                        << ", expected " << pbt::num(x.gain) << "/" << pbt::num(r.gain)); }
        if (ln_) { CHECK(ctx, fabsl(n.loss - x.loss / r.loss) <= 1e-14L * fabsl(x.loss / r.loss), "normalised loss of " << p.str(kind) << " is " << pbt::num(n.loss)
                        << ", expected " << pbt::num(x.loss) << "/" << pbt::num(r.loss)); }
        ld tol = 1e-12L * total_noise;
        if (g0) { CHECK(ctx, fabsl(n.gain) <= tol, "no area of this data has a gain, but the normalised gain of " << p.str(kind) << " is " << pbt::num(n.gain)); }
        if (l0) { CHECK(ctx, fabsl(n.loss) <= tol, "no area of this data has a loss, but the normalised loss of " << p.str(kind) << " is " << pbt::num(n.loss)); }
    } } }
    const GL &root = b.at(sc.tree.root, 0, sc.T - 1);
    if (gn) { CHECK(ctx, fabsl(root.gain - 1) < 1e-15L, "the complete aggregation has normalised gain " << pbt::num(root.gain)); }
    if (ln_) { CHECK(ctx, fabsl(root.loss - 1) < 1e-15L, "the complete aggregation has normalised loss " << pbt::num(root.loss)); }
    y.normalize();
    Table c = y.read();
    for (size_t i = 0; i < b.q.size(); i++) {
        CHECK(ctx, fabsl(b.q[i].gain - c.q[i].gain) <= 1e-14L * fabsl(b.q[i].gain) && fabsl(b.q[i].loss - c.q[i].loss) <= 1e-14L * fabsl(b.q[i].loss),
              "normalising again changes (" << pbt::num(b.q[i].gain) << "," << pbt::num(b.q[i].loss) << ") to (" << pbt::num(c.q[i].gain) << "," << pbt::num(c.q[i].loss) << ")");
    }
    if (table) { ctx.label("supplied table"); }
    if (degenerate) { ctx.label("degenerate: no gain or no loss at all"); }
    ctx.nontrivial = sc.cells() > 1 && (degenerate || (gn && ln_));
}
const pbt::Property pbt::property = {"P09",
    "random data (homogeneous, all-zero and single-cell data among them) and supplied tables of the three kinds; the table after normalize() is compared entry by "
    "entry with the table before it divided by the complete aggregation, and with the table after a second normalize(). Non-trivial: more than one cell and "
    "a total that is clearly non-zero or exactly degenerate.", run};
