#include "sys.h"

// best triple (value, gain, -loss), lexicographically; sums keep that order
struct Best { ld value, gain, loss; };
static bool better(const Best &a, const Best &b) {
    if (a.value != b.value) { return a.value > b.value; }
    if (a.gain != b.gain) { return a.gain > b.gain; }
    return a.loss < b.loss;
}
static Best add(const Best &a, const Best &b) { Best r = {a.value + b.value, a.gain + b.gain, a.loss + b.loss}; return r; }

struct Lex {
    const Table &t; const Tree &tree; ld p; std::vector<Best> memo; std::vector<char> known;
    long ties = 0;
    Lex(const Table &t, const Tree &tree, ld p) : t(t), tree(tree), p(p), memo(t.q.size()), known(t.q.size(), 0) {}
    Best best(int h, int s, int e) {
        size_t k = ((size_t)h * t.T + s) * t.T + e;
        if (known[k]) { return memo[k]; }
        const GL &q = t.at(h, s, e);
        Best b = {value_at(q, p), q.gain, q.loss};
        auto offer = [&](const Best &c) { if (c.value == b.value && (c.gain != b.gain || c.loss != b.loss)) { ties++; } if (better(c, b)) { b = c; } };
        if (!tree.children[h].empty()) { Best c = {0, 0, 0}; for (int x : tree.children[h]) { c = add(c, best(x, s, e)); } offer(c); }
        for (int c = s; c < e; c++) { offer(add(best(h, s, c), best(h, c + 1, e))); }
        known[k] = 1; memo[k] = b; return b;
    }
};

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.big_T = 26; lim.big_L = 30; lim.max_cells_combined = 60; lim.with_giant(6000);
    Kind kind = gen_kind(s);
    Scenario sc = gen_shape(s, ctx, kind, lim);
    Table t; t.init(sc.tree.size(), sc.T);
    int mode = s.weighted({2, 3, 2});
    int range = mode == 0 ? 40 : 4;
    for (int h = 0; h < t.H; h++) { for (int a = 0; a < t.T; a++) { for (int b = a; b < t.T; b++) {
        GL &q = t.at(h, a, b);
        q.gain = (ld)s.below(range); q.loss = (ld)s.below(range);
        if (mode == 2) { ld n = (ld)sc.tree.below[h].size() * (b - a + 1) - 1; q.gain = n + (s.chance(1, 4) ? 1 : 0); q.loss = n + (s.chance(1, 4) ? 1 : 0); }   // nearly additive: ties everywhere
    } } }
    static const float ps[] = {0, 1, 0.5f, 0.25f, 0.75f, 0.125f, 0.875f};
    float p = ps[s.below(7)];
    if (ctx.want_text) { Scenario e = sc; e.v.clear(); ctx.say(e.str() + table_str(t) + "p=" + pbt::num(p) + "\n"); }
    Sys y; y.use_table(sc, t, s.chance(1, 8)); y.make_partitioner(s.chance(1, 2));
    View v = y.best(p).view();
    Setup u; u.sc = sc; require_valid(ctx, u, v);
    Lex lex(t, sc.tree, p);
    Best b = lex.best(sc.tree.root, 0, sc.T - 1);
    GL got = ref_quality(t, v); Best g = {ref_value(t, v, p), got.gain, got.loss};
    CHECK(ctx, !better(b, g), "p=" << pbt::num(p) << ": returned partition has value " << pbt::num(g.value) << " gain " << pbt::num(g.gain) << " loss " << pbt::num(g.loss)
          << ", another admissible one has value " << pbt::num(b.value) << " gain " << pbt::num(b.gain) << " loss " << pbt::num(b.loss) << "; returned " << v.str());
    CHECK(ctx, !better(g, b), "the returned partition is not reachable by admissible splits: " << v.str());
    if (p == 0 || p == 1) { ctx.label("p=0 or p=1"); }
    ctx.nontrivial = lex.ties > 0;
}
const pbt::Property pbt::property = {"P20",
    "random quality tables of small integers of the three kinds, most of them full of ties, p a multiple of 1/8 (0 and 1 among them), so that all arithmetic is exact; the returned partition is "
    "compared with the lexicographic optimum (value, gain, -loss) over all admissible partitions, which no partition can dominate. Non-trivial: at least one tie in value between "
    "different gains or losses had to be decided.", run};
