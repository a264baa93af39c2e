#include "sys.h"

static void run(Source &s, Ctx &ctx) {
    Setup u;
    gen_setup(s, ctx, u, ORDERED, Limits().with_huge().with_giant(500));
    int n = 1 + (int)s.below(4);
    for (int i = 0; i < n; i++) {
        float p = gen_p_for(s, u.ref);
        if (ctx.want_text) { ctx.say("best partition for p=" + pbt::num(p) + "\n"); }
        View v = u.sys.best(p).view();
        require_best(ctx, u, v, p, "best ordered partition");
        if (mixed(u.sc, v)) { ctx.nontrivial = true; ctx.label("partially aggregated result"); }
    }
}
const pbt::Property pbt::property = {"P01",
    "random ordered data (12 value families, vector dimensions) or synthetic quality tables, raw or normalised, 1 to 4 values of p; the value of the "
    "returned partition under an independent quality table is compared with the optimum over all admissible partitions. Non-trivial: a returned "
    "partition is neither the complete aggregation nor all single cells; distinct by the sequence of generator choices.", run};
