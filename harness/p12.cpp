#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Setup u;
    bool many = s.chance(1, 1500);
    if (many) { gen_many(s, ctx, u); } else { gen_setup(s, ctx, u, gen_kind(s), Limits().with_giant(800, 140, 150)); }
    float thr, lo, hi; gen_search(s, ctx, u.ref, 9, thr, lo, hi); if (many) { lo = 0; hi = 1; thr = ldexpf(1.0f, -(int)(9 + s.below(3))); }
    if (!many) { limit_search(u.sc, thr, lo, hi); }
    if (s.chance(1, 4)) { u.sys.search(gen_threshold(s, 5)); ctx.label("second search on the same object"); }
    if (ctx.want_text) { ctx.say("search threshold " + pbt::num(thr) + " in [" + pbt::num(lo) + "," + pbt::num(hi) + "]\n"); }
    u.sys.search(thr, lo, hi);
    std::vector<float> pl = u.sys.plist();
    auto parts = u.sys.partitions();
    auto quals = u.sys.qualities();
    std::vector<Row> rows = u.sys.rows();
    CHECK(ctx, !pl.empty(), "no parameter is listed");
    CHECK(ctx, parts.size() == pl.size(), pl.size() << " parameters listed, but " << parts.size() << " partitions");
    CHECK(ctx, quals.size() == pl.size(), pl.size() << " parameters listed, but " << quals.size() << " qualities");
    size_t at = 0;
    for (size_t k = 0; k < pl.size(); k++) {
        float p = pl[k];
        CHECK(ctx, parts.count(p) && !parts[p].null(), "no partition under the listed parameter " << pbt::num(p));
        CHECK(ctx, quals.count(p), "no quality under the listed parameter " << pbt::num(p));
        View v = parts[p].view();
        CHECK(ctx, v.param == p, "the partition under " << pbt::num(p) << " says it is for " << pbt::num(v.param));
        CHECK(ctx, quals[p].gain == v.gain && quals[p].loss == v.loss, "under p=" << pbt::num(p) << " the quality list says gain " << pbt::num(quals[p].gain) << " loss "
              << pbt::num(quals[p].loss) << ", the partition " << v.str());
        // rows of this parameter
        std::vector<PartView> want = v.sorted(), got;
        for (size_t i = 0; i < want.size(); i++, at++) {
            CHECK(ctx, at < rows.size(), "the flat list ends before the parts of p=" << pbt::num(p));
            const Row &r = rows[at];
            CHECK(ctx, r.p == p, "row " << at << " of the flat list is for p=" << pbt::num(r.p) << ", expected p=" << pbt::num(p));
            PartView x; x.h = u.sc.kind == ORDERED ? 0 : r.h; x.s = u.sc.kind == HIERARCHICAL ? 0 : r.s; x.e = u.sc.kind == HIERARCHICAL ? 0 : r.e;
            x.size = r.size; x.gain = r.gain; x.loss = r.loss; got.push_back(x);
        }
        std::sort(got.begin(), got.end());
        for (size_t i = 0; i < want.size(); i++) {
            CHECK(ctx, got[i].same_area(want[i]), "the flat list has part " << got[i].str(u.sc.kind) << " where the partition for p=" << pbt::num(p) << " has " << want[i].str(u.sc.kind));
            CHECK(ctx, got[i].gain == want[i].gain && got[i].loss == want[i].loss, "row of p=" << pbt::num(p) << " part " << got[i].str(u.sc.kind) << " has gain " << pbt::num(got[i].gain)
                  << " loss " << pbt::num(got[i].loss) << ", the part " << pbt::num(want[i].gain) << ", " << pbt::num(want[i].loss));
            if (u.sc.kind != ORDERED) { CHECK(ctx, got[i].size == want[i].size, "row of p=" << pbt::num(p) << " part " << got[i].str(u.sc.kind) << " has size " << got[i].size << ", the part " << want[i].size); }
        }
        if (k) { CHECK(ctx, pl[k - 1] < p, "the parameters do not increase: " << pbt::num(pl[k - 1]) << " before " << pbt::num(p)); }
        View w = u.sys.best(p).view();
        CHECK(ctx, identical(v, w), "listed: " << v.str() << "; requested: " << w.str());
    }
    CHECK(ctx, at == rows.size(), "the flat list has " << rows.size() << " rows for " << at << " parts");
    ctx.nontrivial = pl.size() >= 3;
    // asking for single partitions must leave the list alone
    CHECK(ctx, u.sys.plist() == pl && u.sys.rows().size() == rows.size(), "single requests changed the listed results");
}
const pbt::Property pbt::property = {"P12",
    "random data or synthetic tables of the three kinds, random thresholds and ranges, sometimes a second search on the same object; the four views of the result are "
    "compared entry by entry, and each listed partition with a separate request. Non-trivial: at least three listed parameters.", run};
