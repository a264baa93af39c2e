// Separate sets of objects, interleaved in one thread and each in a thread of its own.
#include <atomic>
#include <functional>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <cstdlib>
#include "qualities_check.h"

enum Op { BUILD, QUALITIES, COMPUTE, NORMALIZE, READ, PARTITIONER, BEST, SEARCH, RESULTS, AGGREGATES };
struct Step { int op; float p = 0, thr = 0, lo = 0, hi = 1; bool flag = false; };
struct Result { std::vector<View> views; std::vector<Table> tables; std::vector<float> numbers; std::vector<AggView> aggregates; };

struct Session {
    Scenario sc; Table table; bool synthetic = false;
    std::vector<Step> steps;
    const Session *source = nullptr;       // reads the values or the table of another session
};
struct Live {
    Sys y; Handle last; Result r; std::vector<size_t> views_upto;     // after each step
    void step(const Session &s, const Step &t, const Sys *shared) {
        switch (t.op) {
        case BUILD:
            if (shared) { y = *shared; }
            else if (s.synthetic) { y.use_table(s.sc, s.table); } else { y.build_values(s.sc, t.flag); }
            break;
        case QUALITIES: y.make_qualities(); break;
        case COMPUTE: y.compute(); break;
        case NORMALIZE: y.normalize(); break;
        case READ: r.tables.push_back(y.read()); break;
        case PARTITIONER: y.make_partitioner(t.flag); break;
        case BEST: last = y.best(t.p); r.views.push_back(last.view()); break;
        case SEARCH: y.search(t.thr, t.lo, t.hi); break;
        case RESULTS:
            for (float p : y.plist()) { r.numbers.push_back(p); }
            for (auto &x : y.partitions()) { r.views.push_back(x.second.view()); }
            for (auto &x : y.qualities()) { r.numbers.push_back(x.first); r.numbers.push_back((float)x.second.gain); r.numbers.push_back((float)x.second.loss); }
            for (auto &x : y.rows()) { r.numbers.push_back(x.p); r.numbers.push_back((float)x.gain); r.numbers.push_back((float)x.loss); }
            r.numbers.push_back(y.base().getP(P_OPT)); r.numbers.push_back(y.base().computeAUC());
            break;
        case AGGREGATES: { auto a = y.aggregates(last); r.aggregates.insert(r.aggregates.end(), a.begin(), a.end()); break; }
        }
    }
};
// What a session gives alone, against the reference model: a neighbour that came earlier in this process must not show either.
static void against_reference(Ctx &ctx, const Session &e, const Live &l, int which) {
    Setup u; u.sc = e.sc; Table raw = e.synthetic ? e.table : data_table(e.sc);
    u.ref = raw; u.exact = e.synthetic;
    bool usable = true, normalised = false, computed_again = false; size_t vi = 0, ti = 0; int computes = 0;
    auto each = [&](const std::function<void(const GL &, const GL &, const GL &)> &f, const Table &got, const Table &raw) {
        for (int h = 0; h < raw.H; h++) { for (int a = 0; a < raw.T; a++) { for (int b = a; b < raw.T; b++) { f(got.at(h, a, b), raw.at(h, a, b), u.ref.at(h, a, b)); } } }
    };
    std::string what = "session " + pbt::num(which) + ", alone after the others, ";
    for (size_t k = 0; k < e.steps.size(); k++) {
        const Step &t = e.steps[k];
        if (t.op == COMPUTE) { if (computes++) { computed_again = true; } }
        if (t.op == NORMALIZE) { normalised = true; usable = well_conditioned(raw, e.sc.tree.root); if (usable) { u.ref = normalized(raw, e.sc.tree.root); } }
        if (t.op == READ) {
            const Table &got = l.r.tables[ti++];
            if (computed_again || !normalised) {
                if (!e.synthetic) { compare_tables(ctx, e.sc, raw, got, REL, (what + "quality").c_str()); }
                else { each([&](const GL &g, const GL &r, const GL &) { CHECK(ctx, g.gain == r.gain && g.loss == r.loss, what << "shows another table than it was given"); }, got, raw); } }
            else if (usable) { each([&](const GL &g, const GL &, const GL &r) {
                CHECK(ctx, fabsl(g.gain - r.gain) <= u.ref.err_gain && fabsl(g.loss - r.loss) <= u.ref.err_loss, what << "gives a normalised entry ("
                      << pbt::num(g.gain) << "," << pbt::num(g.loss) << ") instead of (" << pbt::num(r.gain) << "," << pbt::num(r.loss) << ")"); }, got, raw); }
        }
        for (; vi < l.views_upto[k]; vi++) { if (usable) { require_best(ctx, u, l.r.views[vi], l.r.views[vi].param, (what + "best partition").c_str()); } }
    }
}
static bool eq(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string difference(const Result &a, const Result &b) {
    if (a.views.size() != b.views.size() || a.tables.size() != b.tables.size() || a.numbers.size() != b.numbers.size() || a.aggregates.size() != b.aggregates.size()) { return "a different number of results"; }
    for (size_t i = 0; i < a.views.size(); i++) { if (!identical(a.views[i], b.views[i])) { return a.views[i].str() + " instead of " + b.views[i].str(); } }
    for (size_t i = 0; i < a.tables.size(); i++) { for (size_t k = 0; k < a.tables[i].q.size(); k++) {
        if (a.tables[i].q[k].gain != b.tables[i].q[k].gain || a.tables[i].q[k].loss != b.tables[i].q[k].loss) { return "quality table entry " + pbt::num(k) + " differs"; } } }
    for (size_t i = 0; i < a.numbers.size(); i++) { if (!eq(a.numbers[i], b.numbers[i])) { return "listed number " + pbt::num(a.numbers[i]) + " instead of " + pbt::num(b.numbers[i]); } }
    for (size_t i = 0; i < a.aggregates.size(); i++) { if (a.aggregates[i].sum != b.aggregates[i].sum || a.aggregates[i].mean != b.aggregates[i].mean) { return "aggregate " + pbt::num(i) + " differs"; } }
    return "";
}

static bool right_in_a_fresh_process(const std::vector<pbt::u64> &choices, int i, bool thorough) {
    char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if (k <= 0) { return false; }
    exe[k] = 0;
    char file[] = "/tmp/p27-XXXXXX"; int fd = mkstemp(file); if (fd < 0) { return false; }
    { std::ofstream o(file); o << "{\"choices\":["; for (size_t c = 0; c < choices.size(); c++) { o << (c ? "," : "") << choices[c]; } o << "]}"; }
    close(fd);
    std::string cmd = "P27_ONLY=" + pbt::num(i) + " '" + exe + "' replay " + file + (thorough ? " --tier thorough" : "") + " >/dev/null 2>&1";
    int rc = system(cmd.c_str()); unlink(file);
    return rc == 0;
}

static void run(Source &s, Ctx &ctx) {
    Limits lim; lim.small_T = 6; lim.mid_T = 12; lim.big_T = 24; lim.small_L = 6; lim.mid_L = 10; lim.big_L = 20; lim.max_cells_combined = 24; lim.max_comps = 8;
    int n = 2 + (int)s.below(3);
    std::vector<Session> ses(n);
    for (int i = 0; i < n; i++) {
        Session &e = ses[i];
        int how = i ? s.weighted({3, 2, 2, 2}) : 0;      // own shape, the shape of another with other data, the objects of another, another hierarchy of the same size
        const Session *o = i ? &ses[s.below(i)] : nullptr;
        while (o && o->source) { o = o->source; }
        Kind kind = o && s.chance(1, 2) ? o->sc.kind : gen_kind(s);
        e.synthetic = s.chance(1, 3);
        if (how == 0) { e.sc = gen_shape(s, ctx, kind, lim); } else { e.sc = o->sc; }
        if (how == 3) {         // leaves (but, half the time, the first) exchanged
            Tree &t = e.sc.tree; int from = (int)s.below(2);
            for (int l = t.leaves - 1; l > from; l--) { std::swap(t.parents[l], t.parents[from + (int)s.below(l - from + 1)]); }
            t.derive(); ctx.label("another hierarchy of the same size");
        }
        if (how == 2) {
            e.source = o; e.synthetic = o->synthetic; e.table = o->table; ctx.label("objects shared for reading");
        } else {
            if (e.synthetic) { e.sc.v.clear(); e.table = gen_table(s, ctx, e.sc); } else { gen_data(s, ctx, e.sc); }
            if (how == 1) { ctx.label("the same shape twice"); }
        }
        auto add = [&](int op) -> Step & { Step t; t.op = op; t.flag = s.chance(1, 2); e.steps.push_back(t); return e.steps.back(); };
        add(BUILD);
        if (!e.synthetic) { add(QUALITIES); add(COMPUTE); if (s.chance(1, 3)) { add(NORMALIZE); } }
        if (s.chance(1, 2)) { add(READ); }
        add(PARTITIONER);
        int m = 1 + (int)s.below(4);
        for (int k = 0; k < m; k++) {
            if (s.chance(1, 2)) { Step &t = add(SEARCH); t.thr = gen_threshold(s, 5); if (s.chance(1, 4)) { t.lo = gen_p(s); t.hi = gen_p(s); if (t.lo > t.hi) { std::swap(t.lo, t.hi); } } add(RESULTS); }
            else { add(BEST).p = gen_p(s); if (!e.synthetic && s.chance(1, 2)) { add(AGGREGATES); } }
        }
        if (!e.synthetic && !e.source && s.chance(1, 4)) { add(COMPUTE); add(READ); }
        if (ctx.want_text) {
            ctx.say("session " + pbt::num(i) + (e.source ? " reads the objects of session " + pbt::num((int)(e.source - &ses[0])) : "") + ": " + e.sc.str());
            for (auto &t : e.steps) { static const char *names[] = {"build", "qualities", "compute", "normalize", "read", "partitioner", "best", "search", "results", "aggregates"}; ctx.say(std::string(names[t.op]) + " "); }
            ctx.say("\n");
        }
    }
    // Objects read by others are made beforehand: the values (own qualities are computed from them), or a whole table.
    auto shared_of = [&](std::vector<Live> &base) {
        base.assign(n, Live());
        for (int i = 0; i < n; i++) { for (auto &e : ses) { if (e.source == &ses[i]) { base[i].step(ses[i], ses[i].steps[0], nullptr); break; } } }
    };
    auto from = [&](const std::vector<Live> &base, int i) -> const Sys * {
        const Session *o = ses[i].source ? ses[i].source : &ses[i];
        bool used = false; for (auto &e : ses) { if (e.source == o) { used = true; } }
        return used ? &base[o - &ses[0]].y : nullptr;
    };
    // each on its own
    std::vector<Live> alone(n);
    auto run_alone = [&](int i, Live &l) { for (auto &t : ses[i].steps) { if (t.op == BUILD && ses[i].source) { Step b = ses[i].source->steps[0]; Session src = *ses[i].source; l.step(src, b, nullptr); } else { l.step(ses[i], t, nullptr); } l.views_upto.push_back(l.r.views.size()); } };
    if (const char *only = getenv("P27_ONLY")) {      // a fresh process that runs nothing but one of the sessions
        int i = atoi(only) % n; run_alone(i, alone[i]); against_reference(ctx, ses[i], alone[i], i); ctx.nontrivial = true; return;
    }
    static int wrong_alone = 0;
    for (int i = 0; i < n; i++) {
        run_alone(i, alone[i]);
        if (wrong_alone >= 40) { continue; }
        Ctx probe; std::string why;
        try { against_reference(probe, ses[i], alone[i], i); } catch (const pbt::Fail &f) { why = f.msg; }
        if (why.empty()) { continue; }
        // wrong alone, too? then it is not the others' doing
        if (right_in_a_fresh_process(s.choices(), i, ctx.thorough)) { CHECK(ctx, false, why << "; in a process of its own this session is right"); } else { wrong_alone++; ctx.label("wrong even alone"); }
    }
    if (s.chance(1, 2)) { // the other way round
        for (int i = n - 1; i >= 0; i--) { Live l; run_alone(i, l); std::string d = difference(l.r, alone[i].r); CHECK(ctx, d.empty(), "made after the others, session " << i << " gives " << d); }
    }


    if (s.chance(1, 3)) {
        ctx.label("interleaved in one thread");
        std::vector<Live> base; shared_of(base);
        std::vector<Live> live(n); std::vector<size_t> at(n, 0);
        std::string order;
        while (true) {
            std::vector<int> open; for (int i = 0; i < n; i++) { if (at[i] < ses[i].steps.size()) { open.push_back(i); } }
            if (open.empty()) { break; }
            int i = open[s.below(open.size())];
            live[i].step(ses[i], ses[i].steps[at[i]++], from(base, i));
            order += pbt::num(i) + " ";
        }
        if (ctx.want_text) { ctx.say("order of the steps: " + order + "\n"); }
        for (int i = 0; i < n; i++) { std::string d = difference(live[i].r, alone[i].r); CHECK(ctx, d.empty(), "interleaved, session " << i << " gives " << d); }
    } else {
        ctx.label("each in a thread");
        for (int round = 0; round < 2; round++) {
            std::vector<Live> base; shared_of(base);
            std::vector<Live> live(n);
            std::vector<std::thread> th;
            std::atomic<int> ready(0); bool bad = false;
            for (int i = 0; i < n; i++) {
                const Sys *sh = from(base, i); Live *l = &live[i]; const Session *e = &ses[i];
                try {
                    th.push_back(std::thread([l, e, sh, &ready, n] {
                        ready.fetch_add(1, std::memory_order_relaxed);
                        for (int spin = 0; spin < 2000 && ready.load(std::memory_order_relaxed) < n; spin++) { std::this_thread::yield(); }
                        for (auto &t : e->steps) { l->step(*e, t, sh); }
                    }));
                } catch (const std::system_error &) { bad = true; break; }     // no thread to be had: nothing about the library
            }
            for (auto &t : th) { t.join(); }
            if (bad) { ctx.label("no thread available"); return; }
            for (int i = 0; i < n; i++) { std::string d = difference(live[i].r, alone[i].r); CHECK(ctx, d.empty(), "at the same time as the others, session " << i << " gives " << d); }
        }
    }
    ctx.nontrivial = true;
    int decided = 0;
    for (auto &l : alone) { for (auto &v : l.r.views) { if (v.parts.size() > 1) { decided++; break; } } }
    ctx.nontrivial = decided >= 2;
}
const pbt::Property pbt::property = {"P27",
    "two to four random sessions (values, qualities, searches, requests, aggregates), of the same or of different shapes, some reading the same values or the same table, "
    "interleaved step by step in one thread, or run in one thread each under ThreadSanitizer; the results are compared with those of each session alone. Non-trivial: at least two "
    "sessions give a partition of more than one part.", run};
