#include "sys.h"

template<class T> struct Elem;
template<> struct Elem<int> { typedef int M; static int make(long i) { return i % 5 == 3 ? -(int)i : i % 97 == 1 ? 2147483647 - (int)i : (int)i; } static ld val(int x) { return x; } };
template<> struct Elem<double> { typedef double M; static double make(long i) { return i % 5 == 3 ? -(i + 1e-9) : i + 0.25; } static ld val(double x) { return x; } };
template<> struct Elem<long double> { static long double make(long i) { return i % 5 == 3 ? -(i + 0.125L) : i + ldexpl(1, -44); } static ld val(long double x) { return x; } };
template<> struct Elem<std::shared_ptr<lp::Quality> > {
    static std::shared_ptr<lp::Quality> make(long i) { return std::shared_ptr<lp::Quality>(new lp::Quality(i + 0.5L, 0)); }
    static ld val(const std::shared_ptr<lp::Quality> &x) { return x ? x->getGain() : -999; } };
template<> struct Elem<std::shared_ptr<lp::Tradeoff> > {
    static std::shared_ptr<lp::Tradeoff> make(long i) { return std::shared_ptr<lp::Tradeoff>(new lp::Tradeoff(i + 0.5L, std::shared_ptr<lp::Quality>(new lp::Quality(1, 2)))); }
    static ld val(const std::shared_ptr<lp::Tradeoff> &x) { return x ? x->getValue() : -999; } };

template<class T> static void drive(Source &s, Ctx &ctx, int n, bool pointers) {
    typedef Elem<T> E;
    bool given = !pointers && s.chance(1, 2);
    long next = 7; ld init = 0;
    T start = T(); if (given) { start = E::make(next++); init = E::val(start); ctx.label("initial value given"); }
    lp::UpperTriangularMatrix<T> m = given ? lp::UpperTriangularMatrix<T>(n, start) : lp::UpperTriangularMatrix<T>(n);
    std::vector<std::vector<ld> > model(n, std::vector<ld>(n, init));
    auto all = [&](const char *when) {
        CHECK(ctx, m.getSize() == n, when << ": reports size " << m.getSize() << " instead of " << n);
        CHECK(ctx, m.getElements() == n * (n + 1) / 2, when << ": reports " << m.getElements() << " elements instead of " << n * (n + 1) / 2);
        std::vector<ld> a, b;
        for (int i = 0; i < n; i++) { for (int j = i; j < n; j++) {
            ld g = E::val(m(i, j));
            CHECK(ctx, g == model[i][j], when << ": cell (" << i << "," << j << ") of a table of size " << n << " holds " << pbt::num(g) << " instead of " << pbt::num(model[i][j]));
            a.push_back(model[i][j]);
        } }
        for (int k = 0; k < n * (n + 1) / 2; k++) { b.push_back(E::val(m[k])); }
        CHECK(ctx, b.back() == model[0][n - 1], when << ": the linear view ends with " << pbt::num(b.back()) << ", the complete interval holds " << pbt::num(model[0][n - 1]));
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        CHECK(ctx, a == b, when << ": the linear view is not an enumeration of the cells");
    };
    all("fresh");
    int ops = (int)s.below(30);
    bool full = s.chance(1, 3);
    if (full) { // write every cell once, all values different
        for (int i = 0; i < n; i++) { for (int j = i; j < n; j++) { T v = E::make(next++); model[i][j] = E::val(v); m(i, j, v); } }
        ctx.label("all cells written"); if (ctx.want_text) { ctx.say("all cells written; "); }
    }
    for (int k = 0; k < ops; k++) {
        int i = (int)s.below(n), j = i + (int)s.below(n - i);
        if (s.chance(1, 4)) {
            ld g = E::val(m(i, j)); CHECK(ctx, g == model[i][j], "cell (" << i << "," << j << ") of a table of size " << n << " holds " << pbt::num(g) << " instead of " << pbt::num(model[i][j]));
        } else {
            T v = E::make(next++); if (ctx.want_text) { ctx.say("write (" + pbt::num(i) + "," + pbt::num(j) + "); "); }
            model[i][j] = E::val(v); m(i, j, v);
            if (k < 4) { all("after a write"); }
        }
    }
    lp::UpperTriangularMatrix<T> copy(m);
    all("after the writes");
    if (n) { T v = E::make(next++); copy(0, n - 1, v); CHECK(ctx, E::val(copy(0, n - 1)) == E::val(v), "a write to a copy is lost"); all("after a write to a copy"); }
    ctx.nontrivial = n > 1 && (full || ops > 0);
}
// default cells of pointer tables are separate objects
static void separate(Source &s, Ctx &ctx, int n) {
    lp::UpperTriangularMatrix<std::shared_ptr<lp::Quality> > m(n);
    std::vector<std::vector<std::pair<ld, ld> > > model(n, std::vector<std::pair<ld, ld> >(n, std::make_pair((ld)0, (ld)0)));
    int ops = 1 + (int)s.below(20);
    for (int k = 0; k < ops; k++) {
        int i = (int)s.below(n), j = i + (int)s.below(n - i); ld g = (ld)(1 + s.below(9)), l = (ld)s.below(9);
        m(i, j)->addToGain(g); m(i, j)->addToLoss(l); model[i][j].first += g; model[i][j].second += l;
        if (ctx.want_text) { ctx.say("add to (" + pbt::num(i) + "," + pbt::num(j) + "); "); }
    }
    for (int i = 0; i < n; i++) { for (int j = i; j < n; j++) {
        CHECK(ctx, m(i, j)->getGain() == model[i][j].first && m(i, j)->getLoss() == model[i][j].second, "cell (" << i << "," << j << ") holds " << pbt::num(m(i, j)->getGain()) << "," << pbt::num(m(i, j)->getLoss())
              << " instead of " << pbt::num(model[i][j].first) << "," << pbt::num(model[i][j].second));
    } }
    ctx.nontrivial = n > 1; ctx.label("cells updated in place");
}

static void run(Source &s, Ctx &ctx) {
    int n = gen_size(s, 6, 16, 60, ctx.thorough ? 400 : 200), type = (int)s.below(6);
    if (s.chance(1, 4000)) { n = 200 + (int)s.below(800); ctx.label("giant case"); }
    if (ctx.want_text) { ctx.say("size " + pbt::num(n) + ", element type " + pbt::num(type) + ": "); }
    switch (type) {
    case 0: ctx.label("int"); drive<int>(s, ctx, n, false); break;
    case 1: ctx.label("double"); drive<double>(s, ctx, n, false); break;
    case 2: ctx.label("long double"); drive<long double>(s, ctx, n, false); break;
    case 3: ctx.label("quality pointers"); drive<std::shared_ptr<lp::Quality> >(s, ctx, n, true); break;
    case 4: ctx.label("trade-off pointers"); drive<std::shared_ptr<lp::Tradeoff> >(s, ctx, n, true); break;
    default: separate(s, ctx, n);
    }
}
const pbt::Property pbt::property = {"P21",
    "random sizes, element types and histories of writes and reads; every cell, the sizes and the linear view are compared with a model. Non-trivial: more than one row and at least one write.", run};
