// The C++ code inside /repo/R/lpaggreg.R (check.py extracts it and compiles it
// against rstub/) against the library and the reference.
#include "rstub/RcppArmadillo.h"
#include "sys.h"

extern "C" SEXP r_oaggregate(SEXP micro, SEXP th);
extern "C" SEXP r_haggregate(SEXP micro, SEXP h, SEXP th);
extern "C" SEXP r_daggregate(SEXP micro, SEXP h, SEXP th);

static SEXP element(Ctx &ctx, SEXP list, const std::string &name) {
    CHECK(ctx, list->type == VECSXP && list->attr.count("names"), "no named list where " << name << " is expected");
    const std::vector<std::string> &n = list->attr["names"]->s;
    for (size_t i = 0; i < n.size() && i < list->l.size(); i++) { if (n[i] == name) { return list->l[i]; } }
    CHECK(ctx, false, "there is no " << name << " in the result");
    return R_NilValue;
}
static std::vector<double> column(Ctx &ctx, SEXP frame, const std::string &name, int rows) {
    SEXP c = Rf_coerceVector(element(ctx, frame, name), REALSXP);
    CHECK(ctx, rows < 0 || (int)c->d.size() == rows, "column " << name << " has " << c->d.size() << " entries of " << rows);
    return c->d;
}
static double single(Ctx &ctx, SEXP x, const char *name) {
    CHECK(ctx, Rf_xlength(x) == 1, name << " is not one number");
    return Rf_asReal(x);
}
static bool same(double a, ld b) {
    double y = (double)b;
    return a == y || (std::isnan(a) && std::isnan(y)) || std::fabs(a - y) <= 1e-12 * std::fabs(y);
}

static void one(Source &s, Ctx &ctx) {
    Kind kind = gen_kind(s);
    Scenario sc; sc.kind = kind;
    Limits lim; lim.with_huge(150, 180); lim.with_giant(3000, 140, 150);
    sc = gen_shape(s, ctx, kind, lim);
    int n = kind == COMBINED ? 1 : 2;             // an R array has three dimensions
    while ((int)sc.vdims.size() > n) { sc.vdims.pop_back(); }
    while ((int)sc.vdims.size() < n) { sc.vdims.push_back(1 + s.weighted({3, 3, 2, 1})); }
    gen_data(s, ctx, sc);
    if (s.chance(1, 6)) { gen_unit(s, ctx, sc); }
    bool fine = s.chance(1, 6); if (fine) { ctx.label("fine threshold"); }
    float thr = fine ? ldexpf(1.0f, -(int)(9 + s.below(9))) : gen_threshold(s, 9);
    limit_search(sc, thr, 0, 1);
    if (ctx.want_text) { ctx.say(sc.str()); ctx.say("threshold " + pbt::num(thr) + "\n"); }

    // R array: the first index runs fastest
    int T = sc.T, L = sc.tree.leaves, A = sc.vdims[0], B = n == 2 ? sc.vdims[1] : 1;
    int d0 = kind == ORDERED ? A : L, d1 = kind == ORDERED ? B : A, d2 = kind == HIERARCHICAL ? B : T;
    bool whole = true;
    std::vector<double> flat((size_t)d0 * d1 * d2);
    for (int i = 0; i < d0; i++) { for (int j = 0; j < d1; j++) { for (int k = 0; k < d2; k++) {
        double x = kind == ORDERED ? sc.v[0][i * B + j][k] : kind == HIERARCHICAL ? sc.v[i][j * B + k][0] : sc.v[i][j][k];
        flat[i + (size_t)d0 * (j + (size_t)d1 * k)] = x;
        if (x != std::floor(x) || x > 1e6) { whole = false; }
    } } }
    bool as_integers = whole && s.chance(1, 2);
    SEXP micro = rstub::alloc(as_integers ? INTSXP : REALSXP);
    if (as_integers) { micro->i.assign(flat.begin(), flat.end()); ctx.label("array of integers"); } else { micro->d = flat; }
    SEXP dim = rstub::alloc(INTSXP); dim->i = {d0, d1, d2}; micro->attr["dim"] = dim;
    SEXP h = R_NilValue;
    std::vector<int> parents;
    if (kind != ORDERED) {
        for (int p : sc.tree.parents) { parents.push_back(p + 1); }     // numbered from 1, 0: none
        bool ints = s.chance(1, 3);
        h = rstub::alloc(ints ? INTSXP : REALSXP);
        if (ints) { h->i = parents; } else { h->d.assign(parents.begin(), parents.end()); }
    }
    SEXP th = Rf_ScalarReal(thr);
    SEXP r = kind == ORDERED ? r_oaggregate(micro, th) : kind == HIERARCHICAL ? r_haggregate(micro, h, th) : r_daggregate(micro, h, th);

    // R passes vectors by reference: the caller's must be as before
    CHECK(ctx, dim->i == std::vector<int>({d0, d1, d2}) && micro->attr["dim"] == dim, "the dimensions of the caller's array changed");
    CHECK(ctx, (as_integers ? std::vector<double>(micro->i.begin(), micro->i.end()) : micro->d) == flat, "the caller's array changed");
    if (kind != ORDERED) { CHECK(ctx, (h->type == INTSXP ? h->i : std::vector<int>(h->d.begin(), h->d.end())) == parents, "the caller's hierarchy changed"); }
    CHECK(ctx, th->d.size() == 1 && th->d[0] == thr, "the caller's threshold changed");

    // the same by the library, from nested lists
    Setup u; u.sc = sc; u.ref = data_table(sc);
    u.sys.build_values(sc, false); u.sys.make_qualities(); u.sys.compute(); u.sys.normalize(); u.sys.make_partitioner();
    u.sys.search(thr);
    bool known = well_conditioned(u.ref, sc.tree.root);
    if (known) { u.ref = normalized(u.ref, sc.tree.root); u.normalised = true; }
    std::vector<Row> want = u.sys.rows();
    auto quals = u.sys.qualities();
    std::vector<float> pl = u.sys.plist();

    SEXP f = element(ctx, r, "Partitions");
    std::vector<double> cp = column(ctx, f, "Parameter", -1);
    int rows = (int)cp.size();
    std::vector<double> node(rows, 1), size(rows, -1), start(rows, 1), end(rows, 1);
    if (kind != ORDERED) { node = column(ctx, f, "Node", rows); size = column(ctx, f, "Size", rows); }
    if (kind != HIERARCHICAL) { start = column(ctx, f, "Start", rows); end = column(ctx, f, "End", rows); }
    std::vector<double> gain = column(ctx, f, "Gain", rows), loss = column(ctx, f, "Loss", rows);
    CHECK(ctx, rows == (int)want.size(), "the data frame has " << rows << " rows, the library " << want.size());
    std::map<float, View> by_p;
    typedef std::tuple<double, double, double, double, int> Key;
    std::vector<Key> ka, kb;
    for (int i = 0; i < rows; i++) {
        CHECK(ctx, i == 0 || cp[i - 1] <= cp[i], "row " << i + 1 << ": the parameters do not increase");
        ka.push_back(Key(cp[i], node[i] - 1, start[i] - 1, end[i] - 1, i));
        const Row &w = want[i];
        kb.push_back(Key(w.p, kind == ORDERED ? 0 : w.h, kind == HIERARCHICAL ? 0 : w.s, kind == HIERARCHICAL ? 0 : w.e, i));
        PartView p; p.h = (int)node[i] - 1; p.s = (int)start[i] - 1; p.e = (int)end[i] - 1; p.size = (int)size[i]; p.gain = gain[i]; p.loss = loss[i];
        View &v = by_p[(float)cp[i]]; v.kind = kind; v.param = (float)cp[i]; v.parts.push_back(p); v.gain += p.gain; v.loss += p.loss;
    }
    std::sort(ka.begin(), ka.end()); std::sort(kb.begin(), kb.end());
    for (int i = 0; i < rows; i++) {
        Key a = ka[i], b = kb[i]; int x = std::get<4>(a), y = std::get<4>(b);
        std::get<4>(a) = std::get<4>(b) = 0;
        CHECK(ctx, a == b, "the data frame has (parameter " << pbt::num(std::get<0>(a)) << ", node " << std::get<1>(a) + 1 << ", " << std::get<2>(a) + 1 << "-" << std::get<3>(a) + 1
              << "), the library (" << pbt::num(std::get<0>(b)) << ", node " << std::get<1>(b) + 1 << ", " << std::get<2>(b) + 1 << "-" << std::get<3>(b) + 1 << ") in numbers from 1");
        CHECK(ctx, same(gain[x], want[y].gain) && same(loss[x], want[y].loss), "row " << x + 1 << " has gain " << pbt::num(gain[x]) << " loss " << pbt::num(loss[x]) << ", the library "
              << pbt::num(want[y].gain) << ", " << pbt::num(want[y].loss));
        if (kind != ORDERED) { CHECK(ctx, size[x] == want[y].size, "row " << x + 1 << " has size " << size[x] << ", the library " << want[y].size); }
    }

    // and by the definitions
    CHECK(ctx, by_p.size() == pl.size(), by_p.size() << " parameters in the data frame, " << pl.size() << " listed by the library");
    bool checked = false;
    for (auto &e : by_p) {
        const View &v = e.second;
        if (known && pl.size() <= 40) { require_best(ctx, u, v, e.first, "the rows"); checked = true; } else { require_valid(ctx, u, v); }
        for (auto &p : v.parts) {
            if (kind != ORDERED) {
                int leaves = (int)sc.tree.below[p.h].size(), want_size = kind == COMBINED ? leaves * (p.e - p.s + 1) : leaves;
                CHECK(ctx, p.size == want_size, "the row of node " << p.h + 1 << " says size " << p.size << ", it has " << want_size);
            }
            if (known) {
                const GL &q = u.ref.at(p.h, p.s, p.e);
                CHECK(ctx, fabsl(q.gain - p.gain) <= 4 * u.ref.err_gain + 1e-12L * fabsl(q.gain) && fabsl(q.loss - p.loss) <= 4 * u.ref.err_loss + 1e-12L * fabsl(q.loss),
                      "node " << p.h + 1 << " " << p.s + 1 << "-" << p.e + 1 << ": normalised gain " << pbt::num(p.gain) << " loss " << pbt::num(p.loss) << ", by definition "
                      << pbt::num(q.gain) << ", " << pbt::num(q.loss));
            }
        }
    }

    SEXP qf = element(ctx, r, "Qualities");
    std::vector<double> qp = column(ctx, qf, "Parameter", (int)pl.size()), qg = column(ctx, qf, "Gain", (int)pl.size()), ql = column(ctx, qf, "Loss", (int)pl.size());
    for (size_t i = 0; i < pl.size(); i++) {
        CHECK(ctx, qp[i] == pl[i], "parameter " << i + 1 << " of the qualities is " << pbt::num(qp[i]) << ", listed " << pbt::num(pl[i]));
        CHECK(ctx, same(qg[i], quals[pl[i]].gain) && same(ql[i], quals[pl[i]].loss), "quality at " << pbt::num(qp[i]) << ": " << pbt::num(qg[i]) << ", " << pbt::num(ql[i]) << ", the library "
              << pbt::num(quals[pl[i]].gain) << ", " << pbt::num(quals[pl[i]].loss));
        const View &v = by_p[pl[i]];
        CHECK(ctx, fabsl(v.gain - qg[i]) <= 1e-12L * (fabsl(v.gain) + v.parts.size()) && fabsl(v.loss - ql[i]) <= 1e-12L * (fabsl(v.loss) + v.parts.size()),
              "quality at " << pbt::num(qp[i]) << " is not the sum of its rows");
    }
    double popt = single(ctx, element(ctx, r, "POpt"), "POpt"), auc = single(ctx, element(ctx, r, "AUC"), "AUC");
    CHECK(ctx, same(popt, u.sys.base().getP(P_OPT)), "POpt is " << pbt::num(popt) << ", the library's optimal parameter " << pbt::num(u.sys.base().getP(P_OPT)));
    CHECK(ctx, same(auc, u.sys.base().computeAUC()), "AUC is " << pbt::num(auc) << ", the library's " << pbt::num(u.sys.base().computeAUC()));
    if (pl.size() >= 3) { ctx.nontrivial = true; }
    if (checked) { ctx.label("compared with the reference"); }
}
// several calls in one R session
static void run(Source &s, Ctx &ctx) {
    rstub::reset();
    int calls = 1 + s.weighted({6, 3, 1});
    if (calls > 1) { ctx.label("several calls"); }
    for (int i = 0; i < calls; i++) {
        if (ctx.want_text && i) { ctx.say("then\n"); }
        one(s, ctx);
    }
}
const pbt::Property pbt::property = {"P25",
    "random three-dimensional arrays (of doubles or integers) and hierarchies numbered from 1, random thresholds, through the C++ code of R/lpaggreg.R; every data frame row, quality, "
    "optimal parameter and area is compared with the library's own answer for the same data as nested lists, and with the reference table and optimum. Non-trivial: at least three "
    "listed parameters.", run};
