#include "sys.h"

// weak, so that an operator that is declared but not defined fails a case and not the build
namespace lpaggreg {
    Tradeoff operator+(Tradeoff &a, Tradeoff &b) __attribute__((weak));
    Tradeoff operator-(Tradeoff &a, Tradeoff &b) __attribute__((weak));
    Tradeoff operator*(Tradeoff &a, Tradeoff &b) __attribute__((weak));
    Tradeoff operator/(Tradeoff &a, Tradeoff &b) __attribute__((weak));
}
typedef lp::Tradeoff (*BinaryT)(lp::Tradeoff &, lp::Tradeoff &);
static BinaryT binary_t(int op) {
    volatile BinaryT f;
    switch (op) { case 0: f = &lpaggreg::operator+; break; case 1: f = &lpaggreg::operator-; break; case 2: f = &lpaggreg::operator*; break; default: f = &lpaggreg::operator/; }
    return f;
}

struct MQ { ld g = 0, l = 0; };
struct MT { ld v = 0; MQ q; };

static ld gen_num(Source &s, bool nonzero) {
    ld x;
    switch (s.weighted({8, 4, 2, 1})) {
    case 3: x = ldexpl((ld)s.below(1025) - 512, (int)s.below(201) - 100); break;
    case 0: x = (ld)s.below(33) - 16; break;
    case 1: x = ((ld)s.below(2001) - 1000) / 8; break;
    default: x = ldexpl((ld)(1 + s.below(7)), (int)s.below(41) - 20);
    }
    return nonzero && x == 0 ? 2 : x;
}
static ld act(int op, ld a, ld b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static bool near(ld a, ld b) { return a == b || fabsl(a - b) <= 1e-17L * std::max(fabsl(a), fabsl(b)) || (std::isnan(a) && std::isnan(b)); }
static bool usable(ld x) { return std::isfinite(x) && fabsl(x) < 1e200L && (x == 0 || fabsl(x) > 1e-200L); }
static const char *opname[] = {"+", "-", "*", "/"};

static void arithmetic_q(Source &s, Ctx &ctx) {
    const int N = 4;
    lp::Quality q[N]; MQ m[N];
    for (int i = 0; i < N; i++) { m[i].g = gen_num(s, false); m[i].l = gen_num(s, false);
        if (s.chance(1, 2)) { q[i] = lp::Quality(m[i].g, m[i].l); } else { q[i].setGain(m[i].g); q[i].setLoss(m[i].l); } }
    int n = 1 + (int)s.below(12);
    for (int k = 0; k < n; k++) {
        int a = (int)s.below(N), b = (int)s.below(N), c = (int)s.below(N), op = (int)s.below(4), how = (int)s.below(4);
        if (op == 3 && (m[b].g == 0 || m[b].l == 0)) { op = 0; }
        MQ r; r.g = act(op, m[a].g, m[b].g); r.l = act(op, m[a].l, m[b].l);
        if (!usable(r.g) || !usable(r.l)) { continue; }
        if (ctx.want_text) { ctx.say("q" + pbt::num(how == 0 ? a : c) + " = q" + pbt::num(a) + " " + opname[op] + " q" + pbt::num(b) + (how == 0 ? " (compound); " : how == 3 ? " (add to gain, loss); " : "; ")); }
        if (how == 0) {
            if (op == 0) { q[a] += q[b]; } else if (op == 1) { q[a] -= q[b]; } else if (op == 2) { q[a] *= q[b]; } else { q[a] /= q[b]; }
            m[a] = r;
        } else if (how == 3) { ld x = gen_num(s, false), y = gen_num(s, false); q[c].addToGain(x); q[c].addToLoss(y); m[c].g += x; m[c].l += y; }
        else {
            lp::Quality t = op == 0 ? q[a] + q[b] : op == 1 ? q[a] - q[b] : op == 2 ? q[a] * q[b] : q[a] / q[b];
            q[c] = t; m[c] = r;
        }
        for (int i = 0; i < N; i++) { CHECK(ctx, near(q[i].getGain(), m[i].g) && near(q[i].getLoss(), m[i].l), "quality q" << i << " is (" << pbt::num(q[i].getGain()) << "," << pbt::num(q[i].getLoss())
                                            << ") instead of (" << pbt::num(m[i].g) << "," << pbt::num(m[i].l) << ")"); }
    }
    std::ostringstream o; o << std::setprecision(15) << q[0]; std::ostringstream w; w << std::setprecision(15) << "(" << m[0].g << "," << m[0].l << ")";
    CHECK(ctx, o.str() == w.str(), "a quality prints as " << o.str() << " instead of " << w.str());
    ctx.nontrivial = true; ctx.label("quality arithmetic");
}

static void arithmetic_t(Source &s, Ctx &ctx) {
    const int N = 4;
    std::vector<lp::Tradeoff> t; MT m[N];
    auto qp = [](const MQ &x) { return std::shared_ptr<lp::Quality>(new lp::Quality(x.g, x.l)); };
    std::vector<std::shared_ptr<lp::Quality> > given;
    for (int i = 0; i < N; i++) {
        m[i].q.g = gen_num(s, false); m[i].q.l = gen_num(s, false); m[i].v = gen_num(s, false);
        float p = (float)s.below(9) / 8;
        std::shared_ptr<lp::Quality> g = qp(m[i].q); given.push_back(g);
        ld pic = (ld)p * m[i].q.g - (1 - (ld)p) * m[i].q.l;
        switch (s.below(5)) {
        case 0: t.push_back(lp::Tradeoff(m[i].v, g)); break;
        case 1: t.push_back(lp::Tradeoff(g)); m[i].v = 0; break;
        case 2: t.push_back(lp::Tradeoff(g, p)); m[i].v = pic; break;
        case 3: { lp::Tradeoff x; x.set(g, p); t.push_back(x); m[i].v = pic; break; }
        default: { lp::Tradeoff x(g); x.computePIC(p); t.push_back(x); m[i].v = pic; }
        }
    }
    for (int i = 0; i < N; i++) {   // the value may be rounded in another order; from here on it is what it is
        ld v = t[i].getValue();
        CHECK(ctx, fabsl(v - m[i].v) <= 1e-18L * (fabsl(m[i].q.g) + fabsl(m[i].q.l)), "trade-off t" << i << " of (" << pbt::num(m[i].q.g) << "," << pbt::num(m[i].q.l) << ") is worth " << pbt::num(v) << " instead of " << pbt::num(m[i].v));
        m[i].v = v;
    }
    std::vector<MQ> gm; for (int i = 0; i < N; i++) { gm.push_back(m[i].q); }
    int n = 1 + (int)s.below(12);
    for (int k = 0; k < n; k++) {
        int a = (int)s.below(N), b = (int)s.below(N), c = (int)s.below(N), op = (int)s.below(4), how = (int)s.below(4);
        if (how == 3) {
            if (ctx.want_text) { ctx.say("t" + pbt::num(c) + " = t" + pbt::num(a) + "; "); }
            if (s.chance(1, 2)) { t[c] = t[a]; } else { lp::Tradeoff copy(t[a]); copy += t[b]; t[c] = t[a]; }
            m[c] = m[a];
        } else {
            if (op == 3 && (m[b].q.g == 0 || m[b].q.l == 0 || m[b].v == 0)) { op = 0; }
            MT r; r.q.g = act(op, m[a].q.g, m[b].q.g); r.q.l = act(op, m[a].q.l, m[b].q.l); r.v = act(op, m[a].v, m[b].v);
            if (!usable(r.q.g) || !usable(r.q.l) || !usable(r.v)) { continue; }
            if (ctx.want_text) { ctx.say("t" + pbt::num(how == 0 ? a : c) + " = t" + pbt::num(a) + " " + opname[op] + " t" + pbt::num(b) + (how == 0 ? " (compound); " : "; ")); }
            if (how == 0) { if (op == 0) { t[a] += t[b]; } else if (op == 1) { t[a] -= t[b]; } else if (op == 2) { t[a] *= t[b]; } else { t[a] /= t[b]; } m[a] = r; }
            else { CHECK(ctx, binary_t(op) != nullptr, "operator" << opname[op] << " of trade-offs is declared but not defined"); lp::Tradeoff x = op == 0 ? t[a] + t[b] : op == 1 ? t[a] - t[b] : op == 2 ? t[a] * t[b] : t[a] / t[b]; t[c] = x; m[c] = r; }
        }
        for (int i = 0; i < N; i++) {
            CHECK(ctx, near(t[i].getValue(), m[i].v) && near(t[i].getQuality()->getGain(), m[i].q.g) && near(t[i].getQuality()->getLoss(), m[i].q.l), "trade-off t" << i << " is " << pbt::num(t[i].getValue()) << " ("
                  << pbt::num(t[i].getQuality()->getGain()) << "," << pbt::num(t[i].getQuality()->getLoss()) << ") instead of " << pbt::num(m[i].v) << " (" << pbt::num(m[i].q.g) << "," << pbt::num(m[i].q.l) << ")");
            CHECK(ctx, given[i]->getGain() == gm[i].g && given[i]->getLoss() == gm[i].l, "the quality given to trade-off t" << i << " was changed");
        }
    }
    ctx.nontrivial = true; ctx.label("trade-off arithmetic");
}

static void equality(Source &s, Ctx &ctx) {
    ld scale = ldexpl(1, (int)s.below(61) - 30);
    ld g = (ld)s.below(100) / 7 * scale, l = (ld)s.below(100) / 7 * scale;
    lp::Quality a(g, l);
    ld big = std::max(g, l);
    static const char *names[] = {"same", "within precision", "gain differs", "loss differs", "both differ"};
    int mode = (int)s.below(5);
    ld dg = 0, dl = 0;
    bool close = s.chance(1, 2);        // to the limit itself: the mean of the larger fields times the library's constant
    ld limit = 1e-13L;
    ld tiny = close ? big * limit * (ld)(50 + s.below(45)) / 100 : 1e-15L * big * (ld)s.below(100) / 100, far = close ? big * limit * (ld)(110 + s.below(300)) / 100 : big * powl(10.0L, -(ld)s.below(11)) * (1 + (ld)s.below(9));
    if (mode == 1) { dg = s.chance(1, 2) ? tiny : 0; dl = s.chance(1, 2) ? tiny : 0; }
    if (mode == 2 || mode == 4) { dg = far; }
    if (mode == 3 || mode == 4) { dl = far; }
    if (s.chance(1, 2)) { dg = dg < g ? -dg : dg; } if (s.chance(1, 2)) { dl = dl < l ? -dl : dl; }
    if (close) { ctx.label("near the limit of equality"); }
    lp::Quality b(g + dg, l + dl);
    if (ctx.want_text) { ctx.say("(" + pbt::num(g) + "," + pbt::num(l) + ") and (" + pbt::num(g + dg) + "," + pbt::num(l + dl) + ")\n"); }
    bool same = mode < 2 || big == 0;
    CHECK(ctx, (a == b) == same && (b == a) == same, "qualities (" << names[mode] << ") compare " << ((a == b) ? "equal" : "unequal") << "/" << ((b == a) ? "equal" : "unequal"));
    CHECK(ctx, (a != b) == !same, "!= disagrees with == on qualities");
    CHECK(ctx, a == a && !(a != a), "a quality differs from itself");
    ctx.nontrivial = big > 0 && mode > 0; ctx.label("quality equality");
}

static void order(Source &s, Ctx &ctx) {
    struct X { ld v, g, l; };
    auto gen = [&]() { X x; x.v = (ld)s.below(3); x.g = (ld)s.below(3); x.l = (ld)s.below(3); if (s.chance(1, 6)) { x.v = gen_num(s, false); } return x; };
    X x = gen(), y = gen();
    auto make = [](const X &a) { return lp::Tradeoff(a.v, std::shared_ptr<lp::Quality>(new lp::Quality(a.g, a.l))); };
    lp::Tradeoff a = make(x), b = make(y);
    int want = x.v != y.v ? (x.v > y.v ? 1 : -1) : x.g != y.g ? (x.g > y.g ? 1 : -1) : x.l != y.l ? (x.l < y.l ? 1 : -1) : 0;
    if (ctx.want_text) { ctx.say("value " + pbt::num(x.v) + " gain " + pbt::num(x.g) + " loss " + pbt::num(x.l) + " against value " + pbt::num(y.v) + " gain " + pbt::num(y.g) + " loss " + pbt::num(y.l) + "\n"); }
    CHECK(ctx, (a > b) == (want > 0), "> says " << (a > b) << " where the order is " << want);
    CHECK(ctx, (a < b) == (want < 0), "< says " << (a < b) << " where the order is " << want);
    CHECK(ctx, (a >= b) == (want >= 0), ">= says " << (a >= b) << " where the order is " << want);
    CHECK(ctx, (a <= b) == (want <= 0), "<= says " << (a <= b) << " where the order is " << want);
    if (x.v != y.v) { CHECK(ctx, !(a == b) && a != b, "trade-offs of different value compare equal"); }
    if (want == 0) { CHECK(ctx, a == b && !(a != b), "identical trade-offs compare unequal"); }
    ctx.nontrivial = x.v == y.v && want != 0; ctx.label("trade-off order");
}

static void partition_equality(Source &s, Ctx &ctx) {
    Limits lim; lim.big_T = 12; lim.mid_T = 8; lim.big_L = 14; lim.max_cells_combined = 24; lim.with_giant(3000, 150, 150);
    Kind kind = gen_kind(s);
    Scenario sc = gen_shape(s, ctx, kind, lim); sc.v.clear();
    auto pick = [&](Handle &h) { Table t = gen_table(s, ctx, sc); float p = (float)s.below(9) / 8; Sys y; y.use_table(sc, t); y.make_partitioner(); h = y.best(p); };
    Handle a, b; pick(a); pick(b);
    View va = a.view(), vb = b.view();
    if (ctx.want_text) { ctx.say(sc.str() + va.str() + "\n" + vb.str() + "\n"); }
    bool same = same_areas(va, vb);
    CHECK(ctx, a.equals(b) == same && b.equals(a) == same, "partitions with " << (same ? "the same" : "different") << " parts compare " << (a.equals(b) ? "equal" : "unequal"));
    CHECK(ctx, a.differs(b) == !same && b.differs(a) == !same, "!= disagrees with == on partitions");
    CHECK(ctx, a.equals(a) && !a.differs(a), "a partition differs from itself");
    // parts
    size_t far = va.parts.size() * vb.parts.size() > 2000 ? 17 : 1;
    for (size_t i = 0; i < va.parts.size(); i += far) { for (size_t j = 0; j < vb.parts.size(); j += far) {
        bool eq, ne, want = va.parts[i].same_area(vb.parts[j]);
        if (kind == ORDERED) { lp::OPart x = a.o->getParts()[i], y = b.o->getParts()[j]; eq = x == y; ne = x != y; }
        else if (kind == HIERARCHICAL) { lp::HPart x = a.h->getParts()[i], y = b.h->getParts()[j]; eq = x == y; ne = x != y; }
        else { lp::DPart x = a.d->getParts()[i], y = b.d->getParts()[j]; eq = x == y; ne = x != y; }
        CHECK(ctx, eq == want && ne == !want, "parts " << va.parts[i].str(kind) << " and " << vb.parts[j].str(kind) << " compare " << (eq ? "equal" : "unequal"));
    } }
    ctx.nontrivial = va.parts.size() > 1 || vb.parts.size() > 1; ctx.label(same ? "equal partitions" : "different partitions");
}

static void run(Source &s, Ctx &ctx) {
    switch (s.weighted({2, 3, 2, 2, 2})) {
    case 0: arithmetic_q(s, ctx); break;
    case 1: arithmetic_t(s, ctx); break;
    case 2: equality(s, ctx); break;
    case 3: order(s, ctx); break;
    default: partition_equality(s, ctx);
    }
}
const pbt::Property pbt::property = {"P22",
    "random sequences of compound and binary operations and copies on four qualities or four trade-offs against a model; random pairs of qualities, trade-offs, parts and partitions, close "
    "and tied ones preferred, against the stated comparison. Non-trivial: any sequence; for pairs, one that is not settled by the first field.", run};
