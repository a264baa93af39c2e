#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Kind kind = gen_kind(s);
    Limits lim; lim.small_T = 5; lim.mid_T = 9; lim.big_T = 20; lim.small_L = 4; lim.mid_L = 8; lim.big_L = 15; lim.max_comps = 80; lim.with_giant(5000); lim.vast = 80000; lim.vast_all = true;
    Scenario sc = gen_shape(s, ctx, kind, lim);
    bool nested = s.chance(1, 2);
    int L = sc.tree.leaves, K = sc.comps(), T = sc.T;
    sc.v.assign(L, std::vector<std::vector<double> >(K, std::vector<double>(T, 0)));
    double next = 1;
    bool odd = s.chance(1, 4);
    auto fresh = [&]() {   // all different, so that a mix-up cannot hide
        next += 1;
        if (odd) {
            switch (s.weighted({8, 1, 1, 1, 1, 1, 1})) {
            case 1: return ldexp(next, -1074); case 2: return -ldexp(next, 990); case 3: return 9007199254740992.0 + 2 * next; case 4: return next * 1e-16;
            case 5: return nextafter(next, 0); case 6: return 1 - ldexp(next, -53); default: break;
            }
        }
        return s.chance(1, 6) ? -next / 3 : next;
    };
    if (odd) { ctx.label("extreme and barely different values"); }
    if (nested) { for (auto &a : sc.v) { for (auto &b : a) { for (double &x : b) { x = fresh(); } } } ctx.label("from nested lists"); } else { ctx.label("filled cell by cell"); }
    if (ctx.want_text) { ctx.say(sc.str()); }
    Sys y;
    if (nested) { y.build_values(sc, false); }
    else { // empty: every cell must read 0 before anything is stored
        Scenario zero = sc; y.build_values(zero, true);
        // build_values(by_cells) stored zeros; an untouched container must look the same
        Sys raw; raw.shape(sc); int A = raw.dims() > 0 ? raw.vd[0] : 1, B = raw.dims() > 1 ? raw.vd[1] : 1, C = raw.dims() > 2 ? raw.vd[2] : 1;
        const std::vector<int> &par = sc.tree.parents;
        if (kind == ORDERED) {
            if (raw.dims() == 0) { raw.o1.reset(new lp::OValuesN1((unsigned)T)); raw.ov = raw.o1; }
            if (raw.dims() == 1) { raw.o2.reset(new lp::OValuesN2(A, T)); raw.ov = raw.o2; }
            if (raw.dims() == 2) { raw.o3.reset(new lp::OValuesN3(A, B, T)); raw.ov = raw.o3; }
            if (raw.dims() == 3) { raw.o4.reset(new lp::OValuesN4(A, B, C, T)); raw.ov = raw.o4; }
        } else if (kind == HIERARCHICAL) {
            if (raw.dims() == 0) { raw.h1.reset(new lp::HValuesN1((unsigned)L, par)); raw.hv = raw.h1; }
            if (raw.dims() == 1) { raw.h2.reset(new lp::HValuesN2((unsigned)L, A, par)); raw.hv = raw.h2; }
            if (raw.dims() == 2) { raw.h3.reset(new lp::HValuesN3((unsigned)L, A, B, par)); raw.hv = raw.h3; }
            if (raw.dims() == 3) { raw.h4.reset(new lp::HValuesN4((unsigned)L, A, B, C, par)); raw.hv = raw.h4; }
        } else {
            if (raw.dims() == 0) { raw.d2.reset(new lp::DValuesN2((unsigned)L, T, par)); raw.dv = raw.d2; }
            if (raw.dims() == 1) { raw.d3.reset(new lp::DValuesN3((unsigned)L, A, T, par)); raw.dv = raw.d3; }
            if (raw.dims() == 2) { raw.d4.reset(new lp::DValuesN4((unsigned)L, A, B, T, par)); raw.dv = raw.d4; }
        }
        y = raw;
    }
    auto where = [&](int l, int k, int t) { int c[3]; y.coords(k, c); std::ostringstream o; o << "cell (leaf " << l << ", component " << c[0] << "/" << c[1] << "/" << c[2] << ", slice " << t << ")"; return o.str(); };
    auto check_all = [&](const char *when) {
        CHECK(ctx, y.vsize() == K, when << ": reports " << y.vsize() << " components instead of " << K);
        CHECK(ctx, y.osize() == T, when << ": reports " << y.osize() << " slices instead of " << T);
        if (y.o3) { CHECK(ctx, (int)y.o3->getI() == y.vd[0] && (int)y.o3->getJ() == y.vd[1], when << ": wrong dimensions reported"); }
        if (y.o4) { CHECK(ctx, (int)y.o4->getI() == y.vd[0] && (int)y.o4->getJ() == y.vd[1] && (int)y.o4->getK() == y.vd[2], when << ": wrong dimensions reported"); }
        if (y.h3) { CHECK(ctx, (int)y.h3->getI() == y.vd[0] && (int)y.h3->getJ() == y.vd[1], when << ": wrong dimensions reported"); }
        if (y.h4) { CHECK(ctx, (int)y.h4->getI() == y.vd[0] && (int)y.h4->getJ() == y.vd[1] && (int)y.h4->getK() == y.vd[2], when << ": wrong dimensions reported"); }
        if (y.d4) { CHECK(ctx, (int)y.d4->getI() == y.vd[0] && (int)y.d4->getJ() == y.vd[1], when << ": wrong dimensions reported"); }
        for (int l = 0; l < L; l++) { for (int k = 0; k < K; k++) {
            for (int t = 0; t < T; t++) { double g = y.get(l, k, t); CHECK(ctx, g == sc.v[l][k][t], when << ": " << where(l, k, t) << " reads " << pbt::num(g) << " instead of " << pbt::num(sc.v[l][k][t])); }
            V1 f = y.flat(l, k);
            CHECK(ctx, f == sc.v[l][k], when << ": series " << k << " of the flattened view (leaf " << l << ") is not the data's component " << where(l, k, 0)
                  << (f.size() != sc.v[l][k].size() ? ", it has another length" : f.empty() ? "" : ", it starts with " + pbt::num(f[0])));
        } }
    };
    check_all("after construction");
    int n = s.chance(1, 40) ? 14 + (int)s.below(60) : (int)s.below(14), stores = 0;
    for (int i = 0; i < n; i++) {
        int l = (int)s.below(L), k = (int)s.below(K), t = (int)s.below(T);
        switch (s.weighted({3, 1, 1})) {
        case 0: { double x = fresh(); sc.v[l][k][t] = x; if (ctx.want_text) { ctx.say("store " + pbt::num(x) + " in " + where(l, k, t) + "\n"); } y.set(l, k, t, x); stores++; break; }
        case 1: { double g = y.get(l, k, t); CHECK(ctx, g == sc.v[l][k][t], where(l, k, t) << " reads " << pbt::num(g) << " instead of " << pbt::num(sc.v[l][k][t])); break; }
        default: { V1 f = y.flat(l, k); CHECK(ctx, f == sc.v[l][k], "the flattened view of " << where(l, k, t) << " does not show the stored values"); }
        }
    }
    if (L * T > 30000) {     // every cell of vast data in turn
        for (int l = 0; l < L; l++) { for (int k = 0; k < K; k++) { for (int t = 0; t < T; t++) { next += 1; sc.v[l][k][t] = next; y.set(l, k, t, next); } } }
        stores++;
    }
    check_all("after the updates");
    ctx.nontrivial = L * K * T > 1 && (nested || stores > 0);
    bool unequal = false; for (size_t i = 1; i < sc.vdims.size(); i++) { unequal |= sc.vdims[i] != sc.vdims[0]; }
    if (unequal) { ctx.label("unequal vector dimensions"); }
}
const pbt::Property pbt::property = {"P16",
    "random shapes of the eleven containers, from nested lists or empty, then up to 13 (one case in 40: up to 73) random stores and reads; all cells, dimensions and the flattened view are compared "
    "with a model array. Non-trivial: more than one cell and at least one stored value.", run};
