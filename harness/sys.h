// One interface over the three families of the library (ordered, hierarchical,
// combined; 0 to 3 vector dimensions), driven through its public API only.
#ifndef SYS_H
#define SYS_H
#include <list>
#include <memory>
#include <tuple>
#include "oaggregationn.h"
#include "haggregationn.h"
#include "daggregationn.h"
#include "opartitioner.h"
#include "hpartitioner.h"
#include "dpartitioner.h"
#include "gen.h"

namespace lp = lpaggreg;
typedef std::vector<double> V1;
typedef std::vector<V1> V2;
typedef std::vector<V2> V3;
typedef std::vector<V3> V4;

struct PartView {
    int h = 0, s = 0, e = 0;
    int size = 0, hsize = 1, osize = 1;
    ld gain = 0, loss = 0;
    bool same_area(const PartView &o) const { return h == o.h && s == o.s && e == o.e; }
    bool operator<(const PartView &o) const { return std::tie(h, s, e) < std::tie(o.h, o.s, o.e); }
    std::string str(Kind k) const {
        std::string r;
        if (k != ORDERED) { r += "node " + pbt::num(h); }
        if (k == COMBINED) { r += " "; }
        if (k != HIERARCHICAL) { r += "[" + pbt::num(s) + "-" + pbt::num(e) + "]"; }
        return r;
    }
};
struct View {
    Kind kind = ORDERED;
    float param = 0;
    ld gain = 0, loss = 0;
    std::vector<PartView> parts;
    std::string str() const {
        std::string r = "p=" + pbt::num(param) + " parts {";
        for (size_t i = 0; i < parts.size(); i++) { r += (i ? ", " : "") + parts[i].str(kind); }
        return r + "} gain " + pbt::num(gain) + " loss " + pbt::num(loss);
    }
    std::vector<PartView> sorted() const { std::vector<PartView> p = parts; std::sort(p.begin(), p.end()); return p; }
};
inline bool same_areas(const View &a, const View &b) {
    if (a.parts.size() != b.parts.size()) { return false; }
    std::vector<PartView> x = a.sorted(), y = b.sorted();
    for (size_t i = 0; i < x.size(); i++) { if (!x[i].same_area(y[i])) { return false; } }
    return true;
}
inline bool identical(const View &a, const View &b) {
    if (a.param != b.param || a.gain != b.gain || a.loss != b.loss || !same_areas(a, b)) { return false; }
    std::vector<PartView> x = a.sorted(), y = b.sorted();
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i].size != y[i].size || x[i].hsize != y[i].hsize || x[i].gain != y[i].gain || x[i].loss != y[i].loss) { return false; }
    }
    return true;
}

// A partition object of the library, of any kind
struct Handle {
    Kind kind = ORDERED;
    std::shared_ptr<lp::OPartition> o;
    std::shared_ptr<lp::HPartition> h;
    std::shared_ptr<lp::DPartition> d;
    bool null() const { return !o && !h && !d; }
    View view() const {
        View v; v.kind = kind;
        auto q = [](PartView &p, const std::shared_ptr<lp::Quality> &x) { p.gain = x->getGain(); p.loss = x->getLoss(); };
        if (kind == ORDERED) {
            v.param = o->getParameter(); v.gain = o->getQuality()->getGain(); v.loss = o->getQuality()->getLoss();
            for (lp::OPart x : o->getParts()) {
                PartView p; p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); p.osize = p.size; q(p, x.getQuality()); v.parts.push_back(p);
            }
        } else if (kind == HIERARCHICAL) {
            v.param = h->getParameter(); v.gain = h->getQuality()->getGain(); v.loss = h->getQuality()->getLoss();
            for (lp::HPart x : h->getParts()) {
                PartView p; p.h = x.getH(); p.size = x.getSize(); p.hsize = p.size; q(p, x.getQuality()); v.parts.push_back(p);
            }
        } else {
            v.param = d->getParameter(); v.gain = d->getQuality()->getGain(); v.loss = d->getQuality()->getLoss();
            for (lp::DPart x : d->getParts()) {
                PartView p; p.h = x.getH(); p.s = x.getStart(); p.e = x.getEnd(); p.size = x.getSize(); p.hsize = x.getHSize(); p.osize = x.getOSize();
                q(p, x.getQuality()); v.parts.push_back(p);
            }
        }
        return v;
    }
    bool equals(const Handle &b) const {
        if (kind == ORDERED) { return *o == *b.o; }
        if (kind == HIERARCHICAL) { return *h == *b.h; }
        return *d == *b.d;
    }
    bool differs(const Handle &b) const {
        if (kind == ORDERED) { return *o != *b.o; }
        if (kind == HIERARCHICAL) { return *h != *b.h; }
        return *d != *b.d;
    }
};

// A row of the flat list; fields a kind does not have keep -1
struct Row { float p; int h = -1, size = -1, s = -1, e = -1; ld gain = 0, loss = 0; };

struct AggView { PartView part; std::vector<double> sum, mean; bool shape_ok = true; };

class Sys {
public:
    Kind kind; Tree tree; int T; std::vector<int> vd;
    // values
    std::shared_ptr<lp::OValuesN1> o1; std::shared_ptr<lp::OValuesN2> o2; std::shared_ptr<lp::OValuesN3> o3; std::shared_ptr<lp::OValuesN4> o4;
    std::shared_ptr<lp::HValuesN1> h1; std::shared_ptr<lp::HValuesN2> h2; std::shared_ptr<lp::HValuesN3> h3; std::shared_ptr<lp::HValuesN4> h4;
    std::shared_ptr<lp::DValuesN2> d2; std::shared_ptr<lp::DValuesN3> d3; std::shared_ptr<lp::DValuesN4> d4;
    std::shared_ptr<lp::OValues> ov; std::shared_ptr<lp::HValues> hv; std::shared_ptr<lp::DValues> dv;
    // qualities and partitioners
    std::shared_ptr<lp::OQualities> oq; std::shared_ptr<lp::HQualities> hq; std::shared_ptr<lp::DQualities> dq;
    std::shared_ptr<lp::OPartitioner> op; std::shared_ptr<lp::HPartitioner> hp; std::shared_ptr<lp::DPartitioner> dp;

    // ---- values
    int dims() const { return (int)vd.size(); }
    int comps() const { int k = 1; for (int d : vd) { k *= d; } return k; }
    // component number -> coordinates in the vector dimensions, row-major
    void coords(int k, int *c) const {
        c[0] = c[1] = c[2] = 0;
        for (int i = dims() - 1; i >= 0; i--) { c[i] = k % vd[i]; k /= vd[i]; }
    }
    void shape(const Scenario &sc) { kind = sc.kind; tree = sc.tree; T = sc.T; vd = sc.vdims; }

    // nested lists (by_cells=false), or an empty container filled cell by cell
    void build_values(const Scenario &sc, bool by_cells) {
        shape(sc);
        int c[3];
        int A = dims() > 0 ? vd[0] : 1, B = dims() > 1 ? vd[1] : 1, C = dims() > 2 ? vd[2] : 1, L = tree.leaves;
        const std::vector<int> &par = tree.parents;
        if (by_cells) {
            if (kind == ORDERED) {
                switch (dims()) {
                case 0: o1.reset(new lp::OValuesN1((unsigned)T)); break;
                case 1: o2.reset(new lp::OValuesN2(A, T)); break;
                case 2: o3.reset(new lp::OValuesN3(A, B, T)); break;
                default: o4.reset(new lp::OValuesN4(A, B, C, T));
                }
            } else if (kind == HIERARCHICAL) {
                switch (dims()) {
                case 0: h1.reset(new lp::HValuesN1((unsigned)L, par)); break;
                case 1: h2.reset(new lp::HValuesN2((unsigned)L, A, par)); break;
                case 2: h3.reset(new lp::HValuesN3((unsigned)L, A, B, par)); break;
                default: h4.reset(new lp::HValuesN4((unsigned)L, A, B, C, par));
                }
            } else {
                switch (dims()) {
                case 0: d2.reset(new lp::DValuesN2((unsigned)L, T, par)); break;
                case 1: d3.reset(new lp::DValuesN3((unsigned)L, A, T, par)); break;
                default: d4.reset(new lp::DValuesN4((unsigned)L, A, B, T, par));
                }
            }
            for (int l = 0; l < L; l++) { for (int k = 0; k < comps(); k++) { for (int t = 0; t < T; t++) { set(l, k, t, sc.v[l][k][t]); } } }
        } else if (kind == ORDERED) {
            auto at = [&](int k) -> const V1 & { return sc.v[0][k]; };
            switch (dims()) {
            case 0: o1.reset(new lp::OValuesN1(at(0))); break;
            case 1: { V2 v; for (int a = 0; a < A; a++) { v.push_back(at(a)); } o2.reset(new lp::OValuesN2(v)); break; }
            case 2: { V3 v(A, V2(B)); for (int k = 0; k < comps(); k++) { coords(k, c); v[c[0]][c[1]] = at(k); } o3.reset(new lp::OValuesN3(v)); break; }
            default: { V4 v(A, V3(B, V2(C))); for (int k = 0; k < comps(); k++) { coords(k, c); v[c[0]][c[1]][c[2]] = at(k); } o4.reset(new lp::OValuesN4(v)); }
            }
        } else if (kind == HIERARCHICAL) {
            switch (dims()) {
            case 0: { V1 v; for (int l = 0; l < L; l++) { v.push_back(sc.v[l][0][0]); } h1.reset(new lp::HValuesN1(v, par)); break; }
            case 1: { V2 v(L, V1(A)); for (int l = 0; l < L; l++) { for (int a = 0; a < A; a++) { v[l][a] = sc.v[l][a][0]; } } h2.reset(new lp::HValuesN2(v, par)); break; }
            case 2: { V3 v(L, V2(A, V1(B))); for (int l = 0; l < L; l++) { for (int k = 0; k < comps(); k++) { coords(k, c); v[l][c[0]][c[1]] = sc.v[l][k][0]; } }
                      h3.reset(new lp::HValuesN3(v, par)); break; }
            default: { V4 v(L, V3(A, V2(B, V1(C)))); for (int l = 0; l < L; l++) { for (int k = 0; k < comps(); k++) { coords(k, c); v[l][c[0]][c[1]][c[2]] = sc.v[l][k][0]; } }
                       h4.reset(new lp::HValuesN4(v, par)); }
            }
        } else {
            switch (dims()) {
            case 0: { V2 v; for (int l = 0; l < L; l++) { v.push_back(sc.v[l][0]); } d2.reset(new lp::DValuesN2(v, par)); break; }
            case 1: { V3 v; for (int l = 0; l < L; l++) { v.push_back(sc.v[l]); } d3.reset(new lp::DValuesN3(v, par)); break; }
            default: { V4 v(L, V3(A, V2(B))); for (int l = 0; l < L; l++) { for (int k = 0; k < comps(); k++) { coords(k, c); v[l][c[0]][c[1]] = sc.v[l][k]; } }
                       d4.reset(new lp::DValuesN4(v, par)); }
            }
        }
        if (o1) { ov = o1; } if (o2) { ov = o2; } if (o3) { ov = o3; } if (o4) { ov = o4; }
        if (h1) { hv = h1; } if (h2) { hv = h2; } if (h3) { hv = h3; } if (h4) { hv = h4; }
        if (d2) { dv = d2; } if (d3) { dv = d3; } if (d4) { dv = d4; }
    }
    void set(int l, int k, int t, double x) {
        int c[3]; coords(k, c);
        if (o1) { (*o1)(t, x); } else if (o2) { (*o2)(c[0], t, x); } else if (o3) { (*o3)(c[0], c[1], t, x); } else if (o4) { (*o4)(c[0], c[1], c[2], t, x); }
        else if (h1) { (*h1)(l, x); } else if (h2) { (*h2)(l, c[0], x); } else if (h3) { (*h3)(l, c[0], c[1], x); } else if (h4) { (*h4)(l, c[0], c[1], c[2], x); }
        else if (d2) { (*d2)(l, t, x); } else if (d3) { (*d3)(l, c[0], t, x); } else if (d4) { (*d4)(l, c[0], c[1], t, x); }
    }
    double get(int l, int k, int t) {
        int c[3]; coords(k, c);
        if (o1) { return (*o1)(t); } if (o2) { return (*o2)(c[0], t); } if (o3) { return (*o3)(c[0], c[1], t); } if (o4) { return (*o4)(c[0], c[1], c[2], t); }
        if (h1) { return (*h1)(l); } if (h2) { return (*h2)(l, c[0]); } if (h3) { return (*h3)(l, c[0], c[1]); } if (h4) { return (*h4)(l, c[0], c[1], c[2]); }
        if (d2) { return (*d2)(l, t); } if (d3) { return (*d3)(l, c[0], t); }
        return (*d4)(l, c[0], c[1], t);
    }
    // the flattened view: series k of leaf l
    V1 flat(int l, int k) {
        if (kind == ORDERED) { return (*ov)[k]; }
        if (kind == HIERARCHICAL) { return V1(1, (*hv)[l][k]); }
        return (*dv)[l][k];
    }
    int vsize() { return kind == ORDERED ? ov->getVsize() : kind == HIERARCHICAL ? hv->getVsize() : dv->getVsize(); }
    int osize() { return kind == ORDERED ? ov->getOsize() : kind == HIERARCHICAL ? 1 : dv->getOsize(); }
    lp::HValuesMetaData meta() { return hv ? hv->getMetaData() : dv ? dv->getMetaData() : lp::HValuesMetaData(tree.leaves, tree.parents); }

    // ---- qualities
    void make_qualities() {
        if (kind == ORDERED) { oq.reset(new lp::OQualities(ov)); }
        else if (kind == HIERARCHICAL) { hq.reset(new lp::HQualities(hv)); }
        else { dq.reset(new lp::DQualities(dv)); }
    }
    void compute() { if (oq) { oq->computeQualities(); } else if (hq) { hq->computeQualities(); } else { dq->computeQualities(); } }
    void normalize() { if (oq) { oq->normalize(); } else if (hq) { hq->normalize(); } else { dq->normalize(); } }
    unsigned qsize() { return oq ? oq->size() : hq ? hq->size() : dq->size(); }

    typedef std::map<std::pair<ld, ld>, std::shared_ptr<lp::Quality> > Shared;
    static std::shared_ptr<lp::Quality> make_q(const GL &q, Shared *one) {
        if (!one) { return std::make_shared<lp::Quality>(q.gain, q.loss); }
        std::shared_ptr<lp::Quality> &r = (*one)[std::make_pair(q.gain, q.loss)];
        if (!r) { r.reset(new lp::Quality(q.gain, q.loss)); }
        return r;
    }
    static oqualities make_o(const Table &t, int h, Shared *one) {
        oqualities q(new lp::UpperTriangularMatrix<std::shared_ptr<lp::Quality> >(t.T));
        for (int s = 0; s < t.T; s++) { for (int e = s; e < t.T; e++) {
            if (one) { (*q)(s, e, make_q(t.at(h, s, e), one)); continue; }
            (*q)(s, e)->setGain(t.at(h, s, e).gain); (*q)(s, e)->setLoss(t.at(h, s, e).loss); } }
        return q;
    }
    // a table supplied by the user in place of data; with equal_shared, areas of equal quality share one object
    void use_table(const Scenario &shape_of, const Table &t, bool equal_shared = false) {
        shape(shape_of);
        Shared shared, *one = equal_shared ? &shared : nullptr;
        if (kind == ORDERED) { oq.reset(new lp::OQualities(make_o(t, 0, one))); return; }
        lp::HValuesMetaData md(tree.leaves, tree.parents);
        if (kind == HIERARCHICAL) {
            hqualities q(new std::vector<std::shared_ptr<lp::Quality> >());
            for (int h = 0; h < t.H; h++) { q->push_back(make_q(t.at(h, 0, 0), one)); }
            hq.reset(new lp::HQualities(q, md));
        } else {
            dqualities q(new std::vector<oqualities>());
            for (int h = 0; h < t.H; h++) { q->push_back(make_o(t, h, one)); }
            dq.reset(new lp::DQualities(q, md));
        }
    }
    // the library's table
    Table read() {
        Table t; t.init(kind == ORDERED ? 1 : tree.size(), T);
        for (int h = 0; h < t.H; h++) { for (int s = 0; s < T; s++) { for (int e = s; e < T; e++) {
            std::shared_ptr<lp::Quality> q = oq ? (*oq->getQualities())(s, e) : hq ? (*hq->getQualities())[h] : (*(*dq->getQualities())[h])(s, e);
            t.at(h, s, e).gain = q->getGain(); t.at(h, s, e).loss = q->getLoss();
        } } }
        return t;
    }

    // ---- partitions
    void make_partitioner(bool from_object = true) {
        if (oq) { op.reset(from_object ? new lp::OPartitioner(*oq) : new lp::OPartitioner(oq->getQualities())); }
        else if (hq) { hp.reset(from_object ? new lp::HPartitioner(*hq) : new lp::HPartitioner(hq->getQualities(), hq->getMetaData())); }
        else { dp.reset(from_object ? new lp::DPartitioner(*dq) : new lp::DPartitioner(dq->getQualities(), dq->getMetaData())); }
    }
    Handle best(float p) {
        Handle h; h.kind = kind;
        if (op) { h.o = op->computeBestPartition(p); } else if (hp) { h.h = hp->computeBestPartition(p); } else { h.d = dp->computeBestPartition(p); }
        return h;
    }
    void search(float thr) {
        if (op) { op->computeBestPartitions(thr); } else if (hp) { hp->computeBestPartitions(thr); } else { dp->computeBestPartitions(thr); }
    }
    void search(float thr, float lo, float hi) {
        if (op) { op->computeBestPartitions(thr, lo, hi); } else if (hp) { hp->computeBestPartitions(thr, lo, hi); } else { dp->computeBestPartitions(thr, lo, hi); }
    }
    lp::Partitioner &base() { if (op) { return *op; } if (hp) { return *hp; } return *dp; }
    std::vector<float> plist() { return base().getPList(); }
    std::map<float, Handle> partitions() {
        std::map<float, Handle> m;
        if (op) { for (auto &x : op->getPartitions()) { Handle h; h.kind = kind; h.o = x.second; m[x.first] = h; } }
        else if (hp) { for (auto &x : hp->getPartitions()) { Handle h; h.kind = kind; h.h = x.second; m[x.first] = h; } }
        else { for (auto &x : dp->getPartitions()) { Handle h; h.kind = kind; h.d = x.second; m[x.first] = h; } }
        return m;
    }
    std::map<float, GL> qualities() {
        std::map<float, GL> m;
        for (auto &x : base().getQualityList()) { GL g; g.gain = x.second->getGain(); g.loss = x.second->getLoss(); m[x.first] = g; }
        return m;
    }
    std::vector<Row> rows() {
        std::vector<Row> r;
        if (op) { for (auto &t : op->getPartitionsTuples()) { Row x; std::tie(x.p, x.s, x.e, x.gain, x.loss) = t; r.push_back(x); } }
        else if (hp) { for (auto &t : hp->getPartitionsTuples()) { Row x; std::tie(x.p, x.h, x.size, x.gain, x.loss) = t; r.push_back(x); } }
        else { for (auto &t : dp->getPartitionsTuples()) { Row x; std::tie(x.p, x.h, x.size, x.s, x.e, x.gain, x.loss) = t; r.push_back(x); } }
        return r;
    }

    // ---- aggregates
    std::vector<AggView> aggregates(const Handle &h);

private:
    static void put(const double &v, std::vector<double> &o, const std::vector<int> &, size_t, bool &) { o.push_back(v); }
    template<class X> static void put(const std::vector<X> &v, std::vector<double> &o, const std::vector<int> &d, size_t i, bool &ok) {
        if (i >= d.size() || (int)v.size() != d[i]) { ok = false; }
        for (auto &x : v) { put(x, o, d, i + 1, ok); }
    }
    template<class A> AggView conv(A &x, PartView p) {
        AggView a; a.part = p;
        put(x.getSum(), a.sum, vd, 0, a.shape_ok); put(x.getMean(), a.mean, vd, 0, a.shape_ok);
        return a;
    }
    template<class A> void agg_o(const A &g, std::vector<AggView> &r) {
        for (auto &x : g.getAggregates()) { PartView p; lp::OPart y = x.getPart(); p.s = y.getStart(); p.e = y.getEnd(); p.size = y.getSize(); r.push_back(conv(x, p)); }
    }
    template<class A> void agg_h(const A &g, std::vector<AggView> &r) {
        for (auto &x : g.getAggregates()) { PartView p; lp::HPart y = x.getPart(); p.h = y.getH(); p.size = y.getSize(); r.push_back(conv(x, p)); }
    }
    template<class A> void agg_d(const A &g, std::vector<AggView> &r) {
        for (auto &x : g.getAggregates()) { PartView p; lp::DPart y = x.getPart(); p.h = y.getH(); p.s = y.getStart(); p.e = y.getEnd(); p.size = y.getSize(); r.push_back(conv(x, p)); }
    }
};

inline std::vector<AggView> Sys::aggregates(const Handle &h) {
    std::vector<AggView> r;
    if (o1) { agg_o(lp::OAggregationN1(h.o, o1), r); } else if (o2) { agg_o(lp::OAggregationN2(h.o, o2), r); }
    else if (o3) { agg_o(lp::OAggregationN3(h.o, o3), r); } else if (o4) { agg_o(lp::OAggregationN4(h.o, o4), r); }
    else if (h1) { agg_h(lp::HAggregationN1(h.h, h1), r); } else if (h2) { agg_h(lp::HAggregationN2(h.h, h2), r); }
    else if (h3) { agg_h(lp::HAggregationN3(h.h, h3), r); } else if (h4) { agg_h(lp::HAggregationN4(h.h, h4), r); }
    else if (d2) { agg_d(lp::DAggregationN2(h.d, d2), r); } else if (d3) { agg_d(lp::DAggregationN3(h.d, d3), r); }
    else if (d4) { agg_d(lp::DAggregationN4(h.d, d4), r); }
    return r;
}

// ---------------------------------------------------------------- shared steps
// The source of the qualities a partitioner works on
struct Setup {
    Scenario sc; Sys sys;
    Table ref;                  // reference table, with the error allowed on the library's entries
    bool exact = false;         // synthetic table: arithmetic on it is exact
    bool normalised = false;
    int parts_max() const { return sc.cells(); }
};

inline Kind gen_kind(Source &s) { return (Kind)s.weighted({1, 1, 1}); }

// from data (optionally normalised) or from a synthetic table
inline void gen_setup(Source &s, Ctx &ctx, Setup &u, Kind kind, const Limits &lim = Limits(), int table_weight = 2) {
    bool table = s.weighted({8, table_weight}) == 1;
    u.sc = gen_shape(s, ctx, kind, lim);
    if (table) {
        u.ref = gen_table(s, ctx, u.sc); u.exact = true;
        bool shared = s.chance(1, 8); if (shared) { ctx.label("table: equal qualities are one object"); }
        u.sys.use_table(u.sc, u.ref, shared);
        if (ctx.want_text) { Scenario shape = u.sc; shape.v.clear(); ctx.say(shape.str() + table_str(u.ref)); }
    } else {
        gen_data(s, ctx, u.sc);
        if (s.chance(1, 8)) { gen_unit(s, ctx, u.sc); }
        u.ref = data_table(u.sc);
        bool norm = s.chance(2, 5);
        bool cells = s.chance(1, 4);
        if (ctx.want_text) { ctx.say(u.sc.str()); }
        u.sys.build_values(u.sc, cells);
        u.sys.make_qualities();
        u.sys.compute();
        if (norm && well_conditioned(u.ref, u.sc.tree.root)) {
            u.sys.normalize(); u.ref = normalized(u.ref, u.sc.tree.root); u.normalised = true;
            ctx.label("normalised"); ctx.say("normalised\n");
        }
    }
    bool obj = !s.chance(1, 3);
    u.sys.make_partitioner(obj);
}

// a shape and table whose search lists dozens to hundreds of parameters
inline void gen_many(Source &s, Ctx &ctx, Setup &u, int most = 150) {
    ctx.label("many listed parameters");
    Scenario &sc = u.sc; sc.kind = (Kind)s.weighted({1, 4, 1});
    int g; switch (s.weighted({6, 3, 1})) { case 0: g = 20 + (int)s.below(60); break; case 1: g = 20 + (int)s.below(most - 19); break; default: g = most - (int)s.below(20); }
    if (sc.kind == ORDERED) {
        sc.T = 2 * std::min(g, 20 + (int)s.below(60)); sc.tree.leaves = 1; sc.tree.parents.assign(1, -1); sc.tree.derive();
    } else {
        if (sc.kind == COMBINED) { g = 4 + (int)s.below(9); }
        sc.T = sc.kind == COMBINED ? 3 + (int)s.below(4) : 1;
        std::vector<int> group; for (int i = 0; i < g; i++) { for (int k = 1 + (int)s.chance(1, 4); k > 0; k--) { group.push_back(i); } }
        int L = (int)group.size(); sc.tree.leaves = L; sc.tree.parents.clear();
        for (int x : group) { sc.tree.parents.push_back(L + x); }
        for (int i = 0; i < g; i++) { sc.tree.parents.push_back(L + g); }
        sc.tree.parents.push_back(-1); sc.tree.derive();
    }
    sc.vdims.clear();
    u.ref.init(sc.tree.size(), sc.T);
    for (GL &q : u.ref.q) { q.gain = 0; q.loss = ldexpl(1, 12); }
    auto even = [&](GL &q) { int x = 1 + (int)s.below(1023); q.gain = 1024 - x; q.loss = x; };
    for (int l = 0; l < sc.tree.leaves; l++) { for (int a = 0; a < sc.T; a++) { u.ref.at(l, a, a) = GL(); } }
    if (sc.kind == ORDERED) { for (int a = 0; a + 1 < sc.T; a += 2) { even(u.ref.at(0, a, a + 1)); } }
    else { for (int h = sc.tree.leaves; h < sc.tree.size() - 1; h++) { for (int a = 0; a < sc.T; a++) { even(u.ref.at(h, a, a)); } } }
    u.exact = true; u.sys.use_table(sc, u.ref);
    if (ctx.want_text) { Scenario shape = sc; shape.v.clear(); ctx.say(shape.str() + table_str(u.ref)); }
    u.sys.make_partitioner(s.chance(1, 2));
}

// A parameter; often one where aggregating some area and leaving it apart are
// worth (nearly) the same, so that best partitions are neither whole nor all single cells.
inline float gen_p_for(Source &s, const Table &t) {
    int how = s.weighted({3, 2, 2, 2});
    if (how == 0 || t.q.empty()) { return gen_p(s); }
    auto even = [&]() -> ld {
        int h = (int)s.below(t.H), a = (int)s.below(t.T), b = a + (int)s.below(t.T - a);
        const GL &q = t.at(h, a, b);
        ld sum = q.gain + q.loss;
        return sum > 0 && q.loss >= 0 && q.gain >= 0 ? q.loss / sum : 0.5L;
    };
    ld p = even();
    if (how == 2) { p = (p + even()) / 2; }
    if (how == 3) { p += ((ld)s.below(2001) - 1000) / 20000; }
    if (!(p > 0)) { p = 0; } else if (p > 1) { p = 1; }
    return (float)p;
}

inline bool tiles(const Scenario &sc, const View &v, std::string &why) {
    std::vector<int> covered(sc.cells(), 0);
    for (auto &p : v.parts) {
        if (p.h < 0 || p.h >= sc.tree.size() || p.s < 0 || p.e >= sc.T || p.s > p.e) { why = "part outside the data: " + p.str(sc.kind); return false; }
        for (int l : sc.tree.below[p.h]) { for (int t = p.s; t <= p.e; t++) { covered[l * sc.T + t]++; } }
    }
    for (int l = 0; l < sc.tree.leaves; l++) { for (int t = 0; t < sc.T; t++) {
        int c = covered[l * sc.T + t];
        if (c != 1) { why = "cell (leaf " + pbt::num(l) + ", slice " + pbt::num(t) + ") covered " + pbt::num(c) + " times"; return false; }
    } }
    return true;
}

// gain and loss of a partition by the reference table
inline GL ref_quality(const Table &ref, const View &v) {
    GL g; for (auto &p : v.parts) { const GL &q = ref.at(p.h, p.s, p.e); g.gain += q.gain; g.loss += q.loss; } return g;
}
inline ld ref_value(const Table &ref, const View &v, ld p) {
    ld x = 0; for (auto &y : v.parts) { x += value_at(ref.at(y.h, y.s, y.e), p); } return x;
}
inline ld tol_of(const Setup &u, float p) { return value_tolerance(u.ref, p, u.parts_max()); }

inline void require_valid(Ctx &ctx, const Setup &u, const View &v) {
    std::string why;
    CHECK(ctx, tiles(u.sc, v, why), "not a partition: " << why << "; " << v.str());
}
// v is a best partition at p
inline void require_best(Ctx &ctx, const Setup &u, const View &v, float p, const char *what) {
    require_valid(ctx, u, v);
    ld opt = optimum(u.ref, u.sc.tree, p), got = ref_value(u.ref, v, p), tol = tol_of(u, p);
    CHECK(ctx, got >= opt - tol, what << " at p=" << pbt::num(p) << ": value " << pbt::num(got) << ", but a partition of value " << pbt::num(opt)
          << " exists (tolerance " << pbt::num(tol) << "); returned " << v.str());
    CHECK(ctx, got <= opt + tol, what << " at p=" << pbt::num(p) << ": value " << pbt::num(got) << " is above the best admissible " << pbt::num(opt)
          << ", the parts are not reachable by admissible splits; returned " << v.str());
}
// more than one part and not all elementary: a decision was made
inline bool mixed(const Scenario &sc, const View &v) { return v.parts.size() > 1 && (int)v.parts.size() < sc.cells(); }

inline float gen_threshold(Source &s, int smallest = 12) {
    switch (s.weighted({12, 8, 4, 1})) {
    case 0: return ldexpf(1.0f, -(int)(1 + s.below(smallest)));
    case 3: if (s.chance(1, 3)) { return (float)(1 + s.below(9)) / 8; } return 0.5f + (float)(1 + s.below(700)) / 1000.0f;       // coarse: up to beyond the whole range
    case 1: return (float)(1 + s.below(500)) / 1000.0f;
    default: return 0.001f;
    }
}
inline void gen_range(Source &s, float &lo, float &hi) {
    lo = 0; hi = 1;
    if (s.chance(1, 3)) {
        lo = gen_p(s); hi = gen_p(s);
        if (lo > hi) { std::swap(lo, hi); }
    }
}
// threshold and range of a search; now and then a narrow range around a parameter at which the
// best partition changes, with a threshold to match, so that listed parameters lie close together
inline void gen_search(Source &s, Ctx &ctx, const Table &ref, int smallest, float &thr, float &lo, float &hi) {
    thr = gen_threshold(s, smallest); gen_range(s, lo, hi);
    if (!s.chance(1, 5)) { return; }
    float c = gen_p_for(s, ref), w = ldexpf(1.0f, -(int)(3 + s.below(19)));
    lo = std::max(0.0f, c - w * (float)s.below(1001) / 1000.0f); hi = std::min(1.0f, lo + w);
    if (!(hi >= lo)) { hi = lo; }
    thr *= w; ctx.label("narrow range");
}
// bounds the work of a search in large data
inline void limit_search(const Scenario &sc, float &thr, float lo, float hi) {
    if (sc.cells() > 120) { thr = std::max(thr, std::max(1e-9f, hi - lo) * (sc.kind == HIERARCHICAL ? 0.02f : sc.kind == COMBINED && (long)sc.tree.size() * sc.T > 400 ? 0.3f : 0.08f)); }
}
#endif
