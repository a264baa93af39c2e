// The reference model: what the library is supposed to compute, written from
// the definitions and sharing no code with it.
#ifndef REF_H
#define REF_H
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "pbt.h"

typedef long double ld;

enum Kind { ORDERED, HIERARCHICAL, COMBINED };
inline const char *kind_name(Kind k) { return k == ORDERED ? "ordered" : k == HIERARCHICAL ? "hierarchical" : "combined"; }

// A rooted tree: leaves are 0..leaves-1, parents of the others follow.
struct Tree {
    int leaves = 1;
    std::vector<int> parents;                 // -1 for the root
    // derived by derive()
    int root = 0;
    std::vector<std::vector<int> > children, below;   // below: the leaves under each node
    std::vector<int> depth;
    int size() const { return (int)parents.size(); }
    void derive() {
        int n = size();
        children.assign(n, std::vector<int>()); below.assign(n, std::vector<int>()); depth.assign(n, 0);
        for (int h = 0; h < n; h++) { if (parents[h] < 0) { root = h; } else { children[parents[h]].push_back(h); } }
        for (int l = 0; l < leaves; l++) { for (int h = l; h >= 0; h = parents[h]) { below[h].push_back(l); } }
        for (int h = 0; h < n; h++) { for (int a = parents[h]; a >= 0; a = parents[a]) { depth[h]++; } }
    }
    bool uneven() const { for (int l = 1; l < leaves; l++) { if (depth[l] != depth[0]) { return true; } } return false; }
    int height() const { int m = 0; for (int l = 0; l < leaves; l++) { m = std::max(m, depth[l]); } return m; }
};

// Data: cell value for (leaf, component, slice). Ordered data has the one-node
// tree, hierarchical data has one slice.
struct Scenario {
    Kind kind = ORDERED;
    std::vector<int> vdims;                   // vector dimensions, 0 to 3 (combined: 0 to 2) of them
    Tree tree;
    int T = 1;
    std::vector<std::vector<std::vector<double> > > v;   // [leaf][component][slice]
    int comps() const { int k = 1; for (int d : vdims) { k *= d; } return k; }
    int cells() const { return tree.leaves * T; }
    std::string str() const {
        std::ostringstream o; o << std::setprecision(17);
        o << kind_name(kind) << " data, vector dimensions [";
        for (size_t i = 0; i < vdims.size(); i++) { o << (i ? "," : "") << vdims[i]; }
        o << "]";
        if (kind != ORDERED) {
            o << ", " << tree.leaves << " leaves, parents [";
            for (size_t i = 0; i < tree.parents.size(); i++) { o << (i ? "," : "") << tree.parents[i]; }
            o << "]";
        }
        o << ", " << T << " slice(s)\nvalues [leaf][component][slice]: [";
        for (size_t l = 0; l < v.size(); l++) {
            o << (l ? ",[" : "[");
            for (size_t k = 0; k < v[l].size(); k++) {
                o << (k ? ",[" : "[");
                for (size_t t = 0; t < v[l][k].size(); t++) { o << (t ? "," : "") << v[l][k][t]; }
                o << "]";
            }
            o << "]";
        }
        o << "]\n";
        return o.str();
    }
};

inline ld xlog2(ld x) { return x > 0 ? x * log2l(x) : 0; }

struct GL {
    ld gain = 0, loss = 0;
    ld noise = 0;      // magnitude of the terms that cancel in gain and loss
};

// gain and loss of the area (node, slices s..e)
inline GL area_quality(const Scenario &sc, int node, int s, int e) {
    GL q;
    const std::vector<int> &leaves = sc.tree.below[node];
    ld n = (ld)leaves.size() * (e - s + 1);
    for (int k = 0; k < sc.comps(); k++) {
        ld sum = 0, info = 0, mag = 0;
        for (int l : leaves) { for (int t = s; t <= e; t++) {
            ld x = sc.v[l][k][t]; sum += x; ld y = xlog2(x); info += y; mag += fabsl(y);
        } }
        ld g = xlog2(sum) - info;
        q.gain += g;
        q.loss += sum * log2l(n) - g;
        q.noise += mag + fabsl(xlog2(sum)) + sum * (1 + log2l(n));
    }
    return q;
}

// (node, interval) -> quality
struct Table {
    int H = 0, T = 0;
    std::vector<GL> q;
    void init(int h, int t) { H = h; T = t; q.assign((size_t)h * t * t, GL()); }
    GL &at(int h, int s, int e) { return q[((size_t)h * T + s) * T + e]; }
    const GL &at(int h, int s, int e) const { return q[((size_t)h * T + s) * T + e]; }
    ld max_noise = 0;  // absolute error bound allowed on any entry before scaling
    ld err_gain = 0, err_loss = 0;   // absolute error allowed on an entry
    ld max_gain() const { ld m = 0; for (auto &x : q) { m = std::max(m, fabsl(x.gain)); } return m; }
    ld max_loss() const { ld m = 0; for (auto &x : q) { m = std::max(m, fabsl(x.loss)); } return m; }
};

static const ld REL = 1e-12L;      // relative error granted to one entry, against its noise magnitude

inline Table data_table(const Scenario &sc) {
    Table t; t.init(sc.tree.size(), sc.T);
    // the same sums as area_quality, but incremental over slices, so that large cases stay cheap
    int K = sc.comps();
    for (int h = 0; h < t.H; h++) {
        const std::vector<int> &leaves = sc.tree.below[h];
        for (int k = 0; k < K; k++) {
            std::vector<ld> col(sc.T, 0), inf(sc.T, 0), mag(sc.T, 0);
            for (int s = 0; s < sc.T; s++) { for (int l : leaves) {
                ld x = sc.v[l][k][s]; col[s] += x; ld y = xlog2(x); inf[s] += y; mag[s] += fabsl(y);
            } }
            for (int s = 0; s < sc.T; s++) {
                ld sum = 0, info = 0, m = 0;
                for (int e = s; e < sc.T; e++) {
                    sum += col[e]; info += inf[e]; m += mag[e];
                    ld n = (ld)leaves.size() * (e - s + 1);
                    ld xl = xlog2(sum), g = xl - info;
                    GL &q = t.at(h, s, e);
                    q.gain += g; q.loss += sum * log2l(n) - g;
                    q.noise += m + fabsl(xl) + sum * (1 + log2l(n));
                }
            }
        }
    }
    for (auto &x : t.q) { t.max_noise = std::max(t.max_noise, x.noise); }
    t.err_gain = t.err_loss = REL * t.max_noise;
    return t;
}

// Dividing by the complete aggregation. Only meaningful when it is not degenerate.
inline bool well_conditioned(const Table &t, int root) {
    const GL &r = t.at(root, 0, t.T - 1);
    return r.gain > 1e-6L * t.max_noise && r.loss > 1e-6L * t.max_noise;
}
inline Table normalized(const Table &t, int root) {
    Table n = t;
    GL r = t.at(root, 0, t.T - 1);
    for (auto &x : n.q) { x.gain /= r.gain; x.loss /= r.loss; }
    n.err_gain = 2 * t.err_gain / r.gain + REL * n.max_gain();
    n.err_loss = 2 * t.err_loss / r.loss + REL * n.max_loss();
    return n;
}

// The library keeps p in single precision and may form 1-p in it as well.
inline ld one_minus_error(float p) {
    long double q = p; long double scaled = q * 16777216.0L;
    return scaled == floorl(scaled) ? 0 : 6.1e-8L;   // exact for multiples of 2^-24
}
inline ld value_of(const GL &q, float p) { return (ld)p * q.gain - (1 - (ld)p) * q.loss; }
inline ld value_at(const GL &q, ld p) { return p * q.gain - (1 - p) * q.loss; }

// Allowed difference between trade-off values of two partitions of at most `parts` parts
inline ld value_tolerance(const Table &t, float p, int parts) {
    ld q = p, loss = t.max_loss();
    ld one = q * (t.err_gain + 1e-17L * t.max_gain()) + (1 - q) * (t.err_loss + 1e-17L * loss);
    return 4 * one * (parts + 1) + 2 * one_minus_error(p) * loss * parts + 1e-4900L;
}

// Best value over all partitions reachable from the whole by splitting a node
// into its children or an interval in two.
struct Optimum {
    const Table &t; const Tree &tree; ld p;
    std::vector<ld> memo; std::vector<char> known;
    Optimum(const Table &t, const Tree &tree, ld p) : t(t), tree(tree), p(p), memo(t.q.size()), known(t.q.size(), 0) {}
    ld best(int h, int s, int e) {
        size_t k = ((size_t)h * t.T + s) * t.T + e;
        if (known[k]) { return memo[k]; }
        ld b = value_at(t.at(h, s, e), p);
        if (!tree.children[h].empty()) {
            ld c = 0; for (int x : tree.children[h]) { c += best(x, s, e); }
            b = std::max(b, c);
        }
        for (int c = s; c < e; c++) { b = std::max(b, best(h, s, c) + best(h, c + 1, e)); }
        known[k] = 1; memo[k] = b;
        return b;
    }
    ld best() { return best(tree.root, 0, t.T - 1); }
};

// For one node only the suffixes matter: O(T^2)
inline ld optimum(const Table &t, const Tree &tree, ld p) {
    if (t.H == 1) {
        std::vector<ld> b(t.T + 1, 0);
        for (int e = 0; e < t.T; e++) {                       // best of the first e+1 slices
            ld m = value_at(t.at(0, 0, e), p);
            for (int s = 1; s <= e; s++) { m = std::max(m, b[s] + value_at(t.at(0, s, e), p)); }
            b[e + 1] = m;
        }
        return b[t.T];
    }
    Optimum o(t, tree, p);
    return o.best();
}
#endif
