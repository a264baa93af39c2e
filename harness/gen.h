// Generators of trees, data, quality tables and parameters.
#ifndef GEN_H
#define GEN_H
#include "ref.h"
using pbt::Source;
using pbt::Ctx;

// Internal nodes get the numbers leaves.., in creation order (children first,
// root last), in reverse order (root first), or shuffled.
inline Tree gen_tree(Source &s, int leaves, int max_extra = 3) {
    std::vector<std::vector<int> > kids;      // of internal node i (creation order); entries: leaf or leaves+i
    std::vector<int> open;
    for (int l = 0; l < leaves; l++) { open.push_back(l); }
    int shape = s.weighted({3, 3, 2, 1, 1});
    // 0: random grouping, 1: level by level, 2: caterpillar (leaves at all depths), 3: flat, 4: random with chains
    int extra = shape == 4 ? 1 + (int)s.below(s.chance(1, 6) ? 4 * max_extra : max_extra) : (int)s.weighted({6, 1, 1});
    auto close = [&](std::vector<int> group) {
        std::vector<int> rest;
        for (int x : open) { if (std::find(group.begin(), group.end(), x) == group.end()) { rest.push_back(x); } }
        kids.push_back(group);
        rest.push_back(leaves + (int)kids.size() - 1);
        open = rest;
    };
    if (shape == 1) {
        while (open.size() > 1) {
            std::vector<int> next; int arity = 2 + (int)s.below(3); bool mixed = s.chance(1, 3);
            // contiguous or interleaved groups
            int groups = ((int)open.size() + arity - 1) / arity; bool inter = s.chance(1, 3);
            std::vector<std::vector<int> > g(groups);
            for (size_t i = 0; i < open.size(); i++) { g[inter ? i % groups : i / arity].push_back(open[i]); }
            for (auto &x : g) {
                if (x.empty()) { continue; }
                if (mixed && x.size() == 1 && groups > 1) { next.push_back(x[0]); continue; }
                kids.push_back(x); next.push_back(leaves + (int)kids.size() - 1);
            }
            open = next;
        }
    } else if (shape == 2) {
        while (open.size() > 1) {
            int take = std::min<int>((int)open.size() - 1, 1 + (int)s.below(2));
            std::vector<int> group(open.end() - 1, open.end());
            group.insert(group.begin(), open.begin(), open.begin() + take);
            close(group);
        }
    } else if (shape == 3) {
        if (open.size() > 1) { close(open); }
    } else {
        while (open.size() > 1) {
            int n = (int)open.size();
            int g = 2 + (int)s.below(std::min(n - 1, 5));
            if (g > n) { g = n; }
            bool contiguous = s.chance(1, 2);
            std::vector<int> group;
            if (contiguous) {
                int at = (int)s.below(n - g + 1);
                group.assign(open.begin() + at, open.begin() + at + g);
            } else {
                std::vector<int> pool = open;
                for (int i = 0; i < g; i++) { int k = (int)s.below(pool.size()); group.push_back(pool[k]); pool.erase(pool.begin() + k); }
            }
            close(group);
            if (extra > 0 && s.chance(1, 3)) {       // single-child node somewhere
                extra--; close(std::vector<int>(1, open[s.below(open.size())]));
            }
        }
    }
    while (extra-- > 0) { close(std::vector<int>(1, open[0])); }
    if (open[0] < leaves) { close(std::vector<int>(1, open[0])); }   // a root above a lone leaf
    int m = (int)kids.size();
    std::vector<int> number(m);
    int how = s.weighted({2, 1, 3});
    if (how == 0) { for (int i = 0; i < m; i++) { number[i] = i; } }
    else if (how == 1) { for (int i = 0; i < m; i++) { number[i] = m - 1 - i; } }
    else { number = s.permutation(m); }
    Tree t; t.leaves = leaves; t.parents.assign(leaves + m, -1);
    auto id = [&](int x) { return x < leaves ? x : leaves + number[x - leaves]; };
    for (int i = 0; i < m; i++) { for (int x : kids[i]) { t.parents[id(x)] = leaves + number[i]; } }
    t.derive();
    return t;
}

// One family of values per data set; all of them are finite and non-negative.
enum Family { SMALL_INT, FRACTION, BLOCKS, SPARSE, RANDOM01, POW2, SCALES, HOMOGENEOUS, ZERO, RAMP, NEARLY, SUBTREES, FAMILIES };
inline const char *family_name(int f) {
    static const char *n[] = {"small integers", "fractions", "blocks", "sparse", "random in (0,1)", "powers of two", "mixed magnitudes",
                              "homogeneous", "all zero", "ramp", "nearly homogeneous", "subtrees alike"};
    return n[f];
}
inline double gen_value(Source &s, int family) {
    switch (family) {
    case SMALL_INT: return (double)s.below(10);
    case FRACTION: return (double)s.below(101) / 100.0;
    case BLOCKS: return (double)s.below(4) / 4;
    case SPARSE: return s.chance(1, 3) ? (double)(1 + s.below(9)) / 8 : 0.0;
    case RANDOM01: return (double)s.below(1u << 30) / (1u << 30);
    case POW2: return ldexp(1.0, (int)s.below(6) - 2);
    case SCALES: { int e = (int)s.below(25) - 12; return (double)(1 + s.below(99)) * pow(10.0, e); }
    default: return 1;
    }
}

inline void gen_data(Source &s, Ctx &ctx, Scenario &sc, int family = -1) {
    if (family < 0) {
        static const int order[] = {SMALL_INT, FRACTION, BLOCKS, SPARSE, RANDOM01, POW2, SCALES, HOMOGENEOUS, ZERO, RAMP, NEARLY, SUBTREES};
        family = order[s.weighted({5, 5, 6, 4, 5, 2, 2, 1, 1, 1, 1, sc.kind == ORDERED ? 0 : 12})];
    }
    ctx.label(std::string("data: ") + family_name(family));
    int L = sc.tree.leaves, K = sc.comps(), T = sc.T;
    sc.v.assign(L, std::vector<std::vector<double> >(K, std::vector<double>(T, 0)));
    double unit = 1;
    if (family == HOMOGENEOUS || family == NEARLY) { unit = s.weighted({1, 1, 1}) == 0 ? 1.0 : (double)(1 + s.below(999)) / 1000.0; }
    for (int k = 0; k < K; k++) {
        double cur = 0; bool start = true;
        std::vector<double> like;      // per leaf: a node passes its value on to most of its children
        if (family == SUBTREES) {
            int n = sc.tree.size(); std::vector<double> node(n, 0);
            std::vector<int> todo(1, sc.tree.root); node[sc.tree.root] = (double)s.below(8);
            while (!todo.empty()) {
                int h = todo.back(); todo.pop_back();
                for (int c : sc.tree.children[h]) { node[c] = s.chance(1, 4) ? (double)s.below(8) : node[h]; todo.push_back(c); }
            }
            like.assign(node.begin(), node.begin() + L);
        }
        for (int l = 0; l < L; l++) { for (int t = 0; t < T; t++) {
            double x = 0;
            switch (family) {
            case BLOCKS: // piecewise constant over slices and neighbouring leaves
                if (start || s.chance(1, 4)) { cur = gen_value(s, BLOCKS); start = false; }
                x = cur; break;
            case HOMOGENEOUS: x = unit * (k + 1); break;
            case NEARLY: x = unit; if (s.chance(1, 8)) { x = unit * (1 + (double)s.below(1000) / 1e6); } break;
            case ZERO: x = 0; break;
            case SUBTREES: x = like[l]; if (s.chance(1, 6)) { x += (double)(1 + s.below(4)) / 4; } break;
            case RAMP: x = (double)(l + t + k); break;
            default: x = gen_value(s, family);
            }
            sc.v[l][k][t] = x;
        } }
    }
    // now and then a dead component, leaf or slice
    if (family < HOMOGENEOUS || family == SUBTREES) {
        int dead = s.weighted({6, 1, 1, 1});
        if (dead == 1) { int k = (int)s.below(K); for (int l = 0; l < L; l++) { for (int t = 0; t < T; t++) { sc.v[l][k][t] = 0; } } ctx.label("dead component"); }
        if (dead == 2) { int l = (int)s.below(L); for (int k = 0; k < K; k++) { for (int t = 0; t < T; t++) { sc.v[l][k][t] = 0; } } }
        if (dead == 3) { int t = (int)s.below(T); for (int k = 0; k < K; k++) { for (int l = 0; l < L; l++) { sc.v[l][k][t] = 0; } } }
    }
}

// changes the unit of the data, from moderate factors to the ends of the range of double
inline void gen_unit(Source &s, Ctx &ctx, Scenario &sc) {
    int how = s.weighted({6, 1, 1, 1, 1});
    if (how == 0) { return; }
    double f = how == 1 ? std::ldexp(1.0, (int)s.below(201) - 100) : how == 2 ? std::pow(10.0, (double)s.below(61) - 30) : how == 3 ? (double)(1 + s.below(1000)) / 7.0
               : std::ldexp(1.0, (int)s.below(1851) - 900);
    for (auto &a : sc.v) { for (auto &b : a) { for (double &x : b) { x *= f; } } }
    ctx.label(how == 4 ? "extreme unit" : "scaled data");
}

inline std::vector<int> gen_vdims(Source &s, Kind kind, int max_comps = 60, int cells = 1000) {
    int n = kind == COMBINED ? (int)s.below(3) : (int)s.below(4);
    std::vector<int> d;
    // now and then one wide dimension, wider still where there are few cells
    int wide = -1, room = std::min(300, 1500 / std::max(1, cells));
    if (n > 0 && max_comps >= 4 && room >= 8 && s.chance(1, 40)) { wide = (int)s.below(n); }
    if (n > 1 && wide < 0 && max_comps >= 4 && room >= 64 && s.chance(1, 100)) {     // or two
        for (int i = 0; i < n; i++) { d.push_back(1); }
        int x = (int)s.below(n), y = (x + 1 + (int)s.below(n - 1)) % n, most = 2 * room;
        d[x] = 8 + (int)s.below(18); d[y] = std::max(1, std::min(8 + (int)s.below(18), most / d[x]));
        return d;
    }
    int left = wide >= 0 ? std::max(1, std::min(max_comps, room / 8)) : max_comps;
    for (int i = 0; i < n; i++) {
        if (i == wide) { d.push_back(8 + (int)s.below((s.chance(1, 3) ? room : std::min(room, 40)) - 7)); left = std::max(1, std::min(left, room / d.back())); continue; }
        int x = 1 + s.weighted({3, 4, 3, 2, 1, 1, 1});
        x = std::max(1, std::min(x, left));
        left = std::max(1, left / x);
        d.push_back(x);
    }
    return d;
}

// tens of thousands of leaves below one node, or below up to forty nodes under the root
inline Tree gen_vast_tree(Source &s) {
    Tree t; int L = t.leaves = s.chance(1, 2) ? 32700 + (int)s.below(2000) : 65500 + (int)s.below(3000);
    int g = s.chance(1, 3) ? 0 : 1 + (int)s.below(40), size = g ? (L + g - 1) / g : L; bool first = s.chance(1, 2), inter = s.chance(1, 2);
    g = (L + size - 1) / size; if (g == 1) { g = 0; }
    int root = first ? L : L + g, group = first ? L + 1 : L;
    t.parents.assign(L + g + 1, root); t.parents[root] = -1;
    if (g) { for (int l = 0; l < L; l++) { t.parents[l] = group + (inter ? l % g : l / size); } }
    t.derive();
    return t;
}

// budget bounds the work: small cases dominate, larger ones are rarer
struct Limits { int small_T = 7, mid_T = 24, big_T = 70; int small_L = 8, mid_L = 18, big_L = 45; int max_cells_combined = 90; int max_comps = 60;
    int huge_T = 0, huge_L = 0;           // one case in a hundred, if set
    int giant = 0;                        // one case in `giant` beyond these: sizes at which narrow types and caches give way
    int giant_T = 280, giant_cells = 2000; // of combined data
    int vast = 0;                         // one hierarchy in `vast` has tens of thousands of leaves
    bool vast_all = false;                // or one case of any kind as many leaves or slices
    Limits &with_huge(int t = 180, int l = 220) { huge_T = t; huge_L = l; return *this; }
    Limits &with_giant(int one_in = 1500, int combined_T = 280, int cells = 2000) { giant = one_in; giant_T = combined_T; giant_cells = cells; return *this; } };

inline int gen_size(Source &s, int small, int mid, int big, int huge = 0) {
    switch (s.weighted({700, 230, 60, huge ? 10 : 0})) {
    case 0: return 1 + (int)s.below(small);
    case 1: return 1 + (int)s.below(mid);
    case 2: return 1 + (int)s.below(big);
    default: return big + 1 + (int)s.below(huge - big);
    }
}

inline Scenario gen_shape(Source &s, Ctx &ctx, Kind kind, const Limits &lim = Limits()) {
    Scenario sc; sc.kind = kind;
    int comps = lim.max_comps;
    if (lim.vast && kind == HIERARCHICAL && s.chance(1, lim.vast)) {
        ctx.label("vast hierarchy");
        sc.T = 1; sc.tree = gen_vast_tree(s);
        return sc;
    }
    if (lim.vast_all && kind != HIERARCHICAL && s.chance(1, lim.vast)) {
        ctx.label("vast data");
        bool wide = kind == COMBINED && s.chance(1, 2);
        sc.tree.leaves = 1; sc.tree.parents.assign(1, -1);
        if (kind == COMBINED) { sc.tree.leaves = 1 + (int)s.below(2); sc.tree.parents.assign(sc.tree.leaves + 1, sc.tree.leaves); sc.tree.parents.back() = -1; }
        sc.tree.derive();
        if (wide) { sc.tree = gen_vast_tree(s); sc.T = 1 + (int)s.below(2); } else { sc.T = s.chance(1, 2) ? 32700 + (int)s.below(2000) : 65500 + (int)s.below(3000); }
        return sc;
    }
    if (lim.giant && s.chance(1, lim.giant)) {
        ctx.label("giant case");
        comps = 2;
        if (kind == ORDERED) {
            sc.T = 200 + (int)s.below(400);
            sc.tree.leaves = 1; sc.tree.parents.assign(1, -1); sc.tree.derive();
        } else if (kind == HIERARCHICAL) {
            sc.T = 1; sc.tree = gen_tree(s, 230 + (int)s.below(400));
        } else {
            int how = (int)s.below(4), L;
            if (how == 0) { sc.T = 3 + (int)s.below(9); L = 33 + (int)s.below(60); }
            else if (how == 1) { sc.T = 33 + (int)s.below(35); L = 3 + (int)s.below(6); }
            else if (how == 2) { sc.T = 129 + (int)s.below(std::max(1, lim.giant_T - 128)); L = 1 + (int)s.below(2); }
            else { sc.T = 1 + (int)s.below(3); L = 129 + (int)s.below(300); }
            while (sc.T * L > lim.giant_cells) { if (L > sc.T) { L--; } else { sc.T--; } }
            sc.tree = gen_tree(s, L);
            comps = 1;
        }
    } else if (kind == ORDERED) {
        sc.T = gen_size(s, lim.small_T, lim.mid_T, lim.big_T, lim.huge_T);
        sc.tree.leaves = 1; sc.tree.parents.assign(1, -1); sc.tree.derive();
        if (sc.T > 30) { comps = sc.T > 70 ? 2 : 6; }
    } else if (kind == HIERARCHICAL) {
        sc.T = 1;
        int L = gen_size(s, lim.small_L, lim.mid_L, lim.big_L, lim.huge_L);
        if (L > 45) { comps = std::min(comps, 4); }
        if (L < 3 && s.chance(1, 2)) { L += 3; }
        sc.tree = gen_tree(s, L);
    } else {
        int L = gen_size(s, 4, 8, 20, lim.huge_L ? 40 : 0);
        sc.T = gen_size(s, 4, 8, 20, lim.huge_T ? 40 : 0);
        int cells = lim.max_cells_combined; if (lim.huge_L && (L > 20 || sc.T > 20)) { cells *= 3; }
        while (L * sc.T > cells) { if (L > sc.T) { L--; } else { sc.T--; } }
        sc.tree = gen_tree(s, L);
        comps = L * sc.T > 24 ? 4 : 12;
    }
    sc.vdims = gen_vdims(s, kind, comps, sc.cells());
    for (int d : sc.vdims) { if (d > 7) { ctx.label("wide vector dimension"); break; } }
    ctx.label(std::string(kind_name(kind)));
    ctx.label(std::string(kind_name(kind)) + " " + std::to_string(sc.vdims.size()) + " vector dim(s)");
    if (sc.T > 24) { ctx.label("more than 24 slices"); }
    if (sc.tree.leaves > 24) { ctx.label("more than 24 leaves"); }
    if (sc.T == 1 && kind != HIERARCHICAL) { ctx.label("one slice"); }
    if (kind != ORDERED) {
        if (sc.tree.uneven()) { ctx.label("leaves at different depths"); }
        if (sc.tree.root != sc.tree.size() - 1) { ctx.label("root not numbered last"); }
        if (sc.tree.height() >= 3) { ctx.label("height >= 3"); }
        if (sc.tree.leaves == 1) { ctx.label("one leaf"); }
        for (auto &c : sc.tree.children) { if (c.size() == 1) { ctx.label("single-child node"); break; } }
    }
    return sc;
}

inline Scenario gen_scenario(Source &s, Ctx &ctx, Kind kind, const Limits &lim = Limits()) {
    Scenario sc = gen_shape(s, ctx, kind, lim);
    gen_data(s, ctx, sc);
    return sc;
}

inline float gen_p(Source &s) {
    switch (s.weighted({4, 2, 1, 1, 3, 2, 1})) {
    case 0: { int m = 1 + (int)s.below(10); return (float)s.below((1u << m) + 1) / (float)(1u << m); }
    case 1: return 0.5f;
    case 2: return 0.0f;
    case 3: return 1.0f;
    case 4: return (float)s.below((1u << 24) + 1) / 16777216.0f;
    case 5: return (float)s.below(101) / 100.0f;
    default: { // very close to 0 or 1
        float tiny = std::ldexp(1.0f, -(int)(1 + s.below(60)));
        return s.chance(1, 2) ? tiny : 1.0f - tiny; }
    }
}

// A synthetic quality table of small dyadic numbers: all arithmetic on it is exact.
inline Table gen_table(Source &s, Ctx &ctx, const Scenario &sc) {
    Table t; t.init(sc.tree.size(), sc.T);
    int mode = s.weighted({8, 8, 4, 2, 1}); // free, ties likely, signed, gains and losses of different magnitude, many break-even points
    int eg = 0, el = 0;
    if (mode == 3) { eg = -(int)s.below(41); el = -(int)s.below(41); }
    int range = mode == 1 ? 3 : 40;
    for (int h = 0; h < t.H; h++) { for (int a = 0; a < t.T; a++) { for (int b = a; b < t.T; b++) {
        GL &q = t.at(h, a, b);
        q.gain = (ld)s.below(range) / 4; q.loss = (ld)s.below(range) / 4;
        if (mode == 2) { q.gain -= 5; q.loss -= 5; }
        if (mode == 3) { q.gain = ldexpl(q.gain, eg); q.loss = ldexpl(q.loss, el); }
    } } }
    if (mode == 4) { // each small area of its own breaks even at a parameter of its own: a search lists many
        for (GL &q : t.q) { q.gain = 0; q.loss = ldexpl(1, 12); }
        auto even = [&](GL &q) { int x = 1 + (int)s.below(1023); q.gain = 1024 - x; q.loss = x; };    // at x/1024
        bool pairs = t.T > 1 && (sc.kind == ORDERED || s.chance(1, 2));
        for (int h = 0; h < t.H; h++) {
            if (h < sc.tree.leaves) {
                for (int a = 0; a < t.T; a++) { t.at(h, a, a) = GL(); }
                if (pairs) { for (int a = (int)s.below(2); a + 1 < t.T; a += 2) { even(t.at(h, a, a + 1)); } }
            } else if (!pairs) {
                bool low = true; for (int c : sc.tree.children[h]) { low = low && c < sc.tree.leaves; }
                if (low) { for (int a = 0; a < t.T; a++) { even(t.at(h, a, a)); } }
            }
        }
    }
    ctx.label(mode == 4 ? "table: many break-even points" : mode == 3 ? "table: gains and losses of different magnitude" : mode == 1 ? "table: many ties" : mode == 2 ? "table: signed" : "table: free");
    return t;
}
inline std::string table_str(const Table &t) {
    std::ostringstream o; o << "quality table (node: [start-end] gain,loss):\n";
    for (int h = 0; h < t.H; h++) { o << " node " << h << ":"; for (int a = 0; a < t.T; a++) { for (int b = a; b < t.T; b++) {
        o << " [" << a << "-" << b << "] " << (double)t.at(h, a, b).gain << "," << (double)t.at(h, a, b).loss; } } o << "\n"; }
    return o.str();
}
#endif
