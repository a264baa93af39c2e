// A finer search of the same range keeps what a coarser one lists.
#include <cfloat>
#include "sys.h"

struct Listed { std::vector<float> p; std::map<float, Handle> parts; std::map<float, GL> q; };
static Listed list_of(Sys &y, float thr, float lo, float hi) { y.search(thr, lo, hi); Listed l; l.p = y.plist(); l.parts = y.partitions(); l.q = y.qualities(); return l; }

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.with_giant(2500, 140, 150);
    Setup u;
    bool many = s.chance(1, 1500);
    if (many) { gen_many(s, ctx, u); } else { gen_setup(s, ctx, u, gen_kind(s), lim); }
    bool big = u.sc.cells() > 120;
    float coarse, lo, hi; gen_search(s, ctx, u.ref, 4, coarse, lo, hi);
    // the finer threshold: a half, any fraction, barely less, or the same
    if (many) { coarse = ldexpf(1.0f, -(int)(3 + s.below(8))); }
    float fine = coarse;
    int how = (int)s.weighted({4, 4, 2, 6, 1});
    if (how == 0) { fine = coarse / 2; } else if (how == 1) { fine = coarse * (float)(1 + s.below(1000)) / 1000.0f; }
    else if (how == 2) { fine = nextafterf(coarse, 0); } else if (how == 3) { fine = ldexpf(coarse, -(int)(1 + s.below(big ? 2 : u.sc.cells() > 50 ? 10 : many ? 7 : 30))); }
    if (big && !many) { limit_search(u.sc, coarse, lo, hi); limit_search(u.sc, fine, lo, hi); }
    if (fine > coarse) { fine = coarse; }
    if (!(fine > 0)) { fine = coarse; }
    bool finer_first = s.chance(1, 2), one_object = s.chance(1, 2);
    if (ctx.want_text) { ctx.say("searches with thresholds " + pbt::num(coarse) + " and " + pbt::num(fine) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]" + (finer_first ? ", the finer first" : "") + "\n"); }
    Sys other = u.sys; if (!one_object) { other.make_partitioner(true); }
    Listed c, f;
    if (finer_first) { f = list_of(other, fine, lo, hi); c = list_of(u.sys, coarse, lo, hi); } else { c = list_of(u.sys, coarse, lo, hi); f = list_of(other, fine, lo, hi); }
    CHECK(ctx, !c.p.empty() && !f.p.empty(), "no parameter is listed");
    CHECK(ctx, f.p.size() >= c.p.size(), "threshold " << pbt::num(coarse) << " lists " << c.p.size() << " parameters, the finer " << pbt::num(fine) << " only " << f.p.size());
    size_t at = 0;
    for (size_t k = 0; k < c.p.size(); k++) {
        float p = c.p[k];
        CHECK(ctx, c.parts.count(p), "no partition is listed under the listed parameter " << pbt::num(p));
        View v = c.parts[p].view();
        // the finer list's entry in force at p: the same partition, listed there or nearer to where it becomes best
        while (at + 1 < f.p.size() && f.p[at + 1] <= p) { at++; }
        CHECK(ctx, f.p[at] <= p && f.parts.count(f.p[at]), "the finer search lists no partition for " << pbt::num(p));
        View w = f.parts[f.p[at]].view();
        CHECK(ctx, same_areas(v, w), "threshold " << pbt::num(coarse) << " lists " << v.str() << ", but with " << pbt::num(fine) << " the partition in force there is " << w.str());
        // part for part the same; the totals are sums of them, in the order of the parts
        std::vector<PartView> x = v.sorted(), y = w.sorted(); ld mg = 0, ml = 0;
        for (size_t i = 0; i < x.size(); i++) {
            CHECK(ctx, x[i].gain == y[i].gain && x[i].loss == y[i].loss && x[i].size == y[i].size, "part " << x[i].str(u.sc.kind) << " differs between the two searches: " << v.str() << " and " << w.str());
            mg += std::fabs(x[i].gain); ml += std::fabs(x[i].loss);
        }
        ld ulps = 4 * (ld)(x.size() + 1) * LDBL_EPSILON;
        CHECK(ctx, std::fabs(v.gain - w.gain) <= ulps * mg && std::fabs(v.loss - w.loss) <= ulps * ml, "the same partition has another quality with the finer threshold: " << v.str() << " and " << w.str());
        CHECK(ctx, !k || w.param > c.p[k - 1], "the finer search lists at " << pbt::num(w.param) << " what the coarser one lists after " << pbt::num(c.p[k - 1]) << ": " << v.str());
        float q = f.p[at];
        CHECK(ctx, c.q.count(p) && f.q.count(q) && c.q[p].gain == v.gain && f.q[q].gain == w.gain && c.q[p].loss == v.loss && f.q[q].loss == w.loss, "the two lists of qualities disagree on " << v.str());
    }
    CHECK(ctx, f.p[0] == c.p[0], "the finer search starts with " << pbt::num(f.p[0]) << ", the coarser one with " << pbt::num(c.p[0]));
    ctx.label(f.p.size() > c.p.size() ? "finer lists more" : "both list the same number");
    ctx.nontrivial = c.p.size() >= 2 && f.p.size() > c.p.size();
}
const pbt::Property pbt::property = {"P29",
    "random data or synthetic tables of the three kinds, searched twice over one random range with two thresholds, in either order, on one partitioner or two; every partition the coarser search lists must be listed "
    "by the finer one, with the same parts and quality, at the same parameter or a lower one after the coarser list's previous entry. Non-trivial: the coarser search lists at least two partitions, the finer one more.", run};
