// A small property-based testing engine.
//
// A test case is the sequence of choices its generators draw from a Source.
// The Source is fed by a seeded PRNG (search), by a recorded sequence (replay
// and shrinking) or by fuzzer bytes.  Shrinking works on the sequence, so it
// shrinks inputs and call histories alike and never leaves the generators'
// domain.  Every worker and every shrink candidate runs in a forked child, so
// that crashes and endless loops of the code under test are ordinary failures.
#ifndef PBT_H
#define PBT_H
#include <algorithm>
#include <cmath>
#include <csignal>
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

typedef uint64_t u64;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Fail { std::string msg; };

// What an isolated child reports while it runs, so that a crash loses nothing.
struct Board {
    static const size_t MAXC = 1 << 20, MAXT = 1 << 20;
    volatile u64 nchoices, ntext;
    u64 choices[MAXC];
    char text[MAXT];
};
static Board *board = nullptr;      // set in isolated children only

class Source {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    static Source random(u64 seed) { Source s; s.mode = RANDOM; s.state = seed; return s; }
    static Source replay(const std::vector<u64> &c) { Source s; s.mode = REPLAY; s.in = c; return s; }
    static Source bytes(const uint8_t *d, size_t n) { Source s; s.mode = BYTES; s.data = d; s.len = n; return s; }

    // uniform in [0,n), shrinks towards 0
    u64 below(u64 n) {
        if (n <= 1) { return 0; }
        u64 v;
        if (mode == RANDOM) {
            state += 0x9e3779b97f4a7c15ULL;
            v = mix(state) % n;
        } else if (mode == REPLAY) {
            v = pos < in.size() ? std::min(in[pos], n - 1) : 0;
            pos++;
        } else {
            v = 0;
            int width = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
            for (int i = 0; i < width; i++) { v = v << 8 | (bpos < len ? data[bpos++] : 0); }
            v %= n;
        }
        out.push_back(v);
        if (board && board->nchoices < Board::MAXC) { board->choices[board->nchoices] = v; board->nchoices = board->nchoices + 1; }
        return v;
    }
    long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }
    bool chance(int num, int den) { return below(den) >= (u64)(den - num); } // shrinks to false
    // index drawn with the given weights; shrinks towards the first entry
    int weighted(std::initializer_list<int> w) {
        long total = 0; for (int x : w) { total += x; }
        long r = (long)below(total); int i = 0;
        for (int x : w) { if (r < x) { return i; } r -= x; i++; }
        return 0;
    }
    std::vector<int> permutation(int n) { // all-zero choices give the identity
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) { p[i] = i; }
        for (int i = 0; i + 1 < n; i++) { std::swap(p[i], p[i + (int)below(n - i)]); }
        return p;
    }
    const std::vector<u64> &choices() const { return out; }

private:
    Mode mode = RANDOM;
    u64 state = 0;
    std::vector<u64> in;
    size_t pos = 0;
    const uint8_t *data = nullptr;
    size_t len = 0, bpos = 0;
    std::vector<u64> out;
};

class Ctx {
public:
    bool want_text = false;
    std::string text;                 // the case written out
    void say(const std::string &t);   // adds to the text; also survives a crash of this process
    std::set<std::string> labels;
    bool nontrivial = false;
    bool thorough = false;
    void label(const std::string &l) { labels.insert(l); }
    [[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
};

inline void Ctx::say(const std::string &t) {
    if (text.size() + t.size() > Board::MAXT) { return; }
    text += t;
    if (board) { memcpy(board->text + board->ntext, t.data(), t.size()); board->ntext = board->ntext + t.size(); }
}

inline std::string num(long double v) {
    std::ostringstream o; o << std::setprecision(21) << v; return o.str();
}
inline std::string num(double v) {
    std::ostringstream o; o << std::setprecision(17) << v; return o.str();
}
inline std::string num(float v) {
    std::ostringstream o; o << std::setprecision(9) << v; return o.str();
}
inline std::string num(long v) { return std::to_string(v); }
inline std::string num(int v) { return std::to_string(v); }
inline std::string num(unsigned v) { return std::to_string(v); }
inline std::string num(size_t v) { return std::to_string(v); }

// ---------------------------------------------------------------- the property
struct Property {
    const char *id;
    const char *rule;   // how cases are made and what makes one non-trivial
    void (*run)(Source &, Ctx &);
};
extern const Property property; // defined once per harness binary

#define CHECK(ctx, cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << msg; (ctx).fail(o_.str()); } } while (0)

// ------------------------------------------------------------------ the runner
enum Status { PASS = 0, FAILED = 1 };
struct Outcome { Status status; std::string msg; std::string text; std::vector<u64> choices; };

inline Outcome execute(Source &src, bool want_text, Ctx &ctx) {
    ctx.want_text = want_text;
    Outcome o; o.status = PASS;
    try {
        property.run(src, ctx);
    } catch (Fail &f) {
        o.status = FAILED; o.msg = f.msg;
    } catch (std::exception &e) {
        o.status = FAILED; o.msg = std::string("unexpected exception: ") + e.what();
    }
    o.text = ctx.text;
    o.choices = src.choices();
    return o;
}

inline double cpu_time() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static double CPU_LIMIT = 20;   // seconds of CPU for one case that normally takes milliseconds
inline void arm(double s) {
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)s; t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

// A process that waits for ever uses no CPU, so the timer above never stops it:
// its parent looks at the CPU time it has used, and ends it when that stands still.
static double QUIET_LIMIT = 12;   // seconds
struct Watch {
    pid_t pid; double cpu, quiet, last; bool blocked;
    explicit Watch(pid_t p = 0) : pid(p), cpu(-1), quiet(0), last(-1), blocked(false) {}
    static double clock(clockid_t id) { timespec t; if (clock_gettime(id, &t)) { return -1; } return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
    bool look(double limit) {       // true: it was ended just now
        double now = clock(CLOCK_MONOTONIC);
        if (last >= 0 && now - last < 0.25) { return false; }
        clockid_t id; double used = clock_getcpuclockid(pid, &id) == 0 ? clock(id) : -1;
        if (used > cpu + 0.002 || last < 0) { cpu = used; quiet = 0; }
        else { quiet += std::min(now - last, 1.0); }    // not more, should this process itself have been held up
        last = now;
        if (quiet < limit || blocked) { return false; }
        blocked = true; kill(pid, SIGKILL); return true;
    }
};

inline std::string describe_death(int st, bool blocked = false) {
    if (blocked) { return "does not terminate (waits for ever without using the CPU)"; }
    if (WIFSIGNALED(st)) {
        int g = WTERMSIG(st);
        if (g == SIGPROF) { return "does not terminate (CPU limit of one case exceeded)"; }
        if (g == SIGKILL) { return "killed"; }
        return std::string("crash: signal ") + std::to_string(g) + " (" + strsignal(g) + ")";
    }
    return "crash: the process ended with code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer or abort)";
}

inline bool from_outside(int st) { return WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM); }

// Cases run before and after the one looked at, in the same process: a failure
// may need state that earlier calls on other objects left behind.
static std::vector<std::vector<u64> > before, after;
static std::vector<u64> history;    // the same, given by the seeds of the cases

// runs one case in a child; make() gives its source
template<class F> inline Outcome isolated_from(F make, bool want_text, const std::string &errfile, double limit, bool thorough) {
    static Board *shared = nullptr;
    if (!shared) {
        shared = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (shared == MAP_FAILED) { perror("mmap"); exit(3); }
    }
    shared->nchoices = 0; shared->ntext = 0;
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(fd[0]);
        int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0) { dup2(e, 2); }
        int d = open("/dev/null", O_WRONLY); if (d >= 0) { dup2(d, 1); }
        Outcome o; o.status = PASS;
        auto other = [&](const std::vector<u64> &c) {
            if (o.status == FAILED) { return; }
            arm(limit); Source s = Source::replay(c); Ctx x; x.thorough = thorough; o = execute(s, false, x);
        };
        for (u64 h : history) { if (o.status == FAILED) { break; } arm(limit); Source s = Source::random(h); Ctx x; x.thorough = thorough; o = execute(s, false, x); }
        for (auto &c : before) { other(c); }
        if (o.status != FAILED) {
            arm(limit);
            board = shared;
            Source s = make();
            Ctx ctx; ctx.thorough = thorough;
            o = execute(s, want_text, ctx);
            board = nullptr;
        }
        for (auto &c : after) { other(c); }
        arm(0);
        std::string buf(1, o.status == FAILED ? 'F' : 'P'); buf += o.msg;
        size_t done = 0;
        while (done < buf.size()) { ssize_t w = write(fd[1], buf.data() + done, buf.size() - done); if (w <= 0) { break; } done += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string buf; char tmp[65536]; ssize_t r;
    Watch watch(pid);
    struct pollfd pf; pf.fd = fd[0]; pf.events = POLLIN;
    for (;;) {
        int ready = poll(&pf, 1, 300);
        if (ready < 0 && errno != EINTR) { break; }
        if (ready <= 0) { watch.look(limit < 10 ? limit : QUIET_LIMIT); continue; }
        r = read(fd[0], tmp, sizeof tmp);
        if (r < 0 && errno == EINTR) { continue; }
        if (r <= 0) { break; }
        buf.append(tmp, r);
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, WNOHANG) == 0) { watch.look(limit < 10 ? limit : QUIET_LIMIT); usleep(200); }
    Outcome o;
    o.choices.assign(shared->choices, shared->choices + shared->nchoices);
    o.text.assign(shared->text, shared->text + shared->ntext);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !buf.empty()) {
        o.status = buf[0] == 'F' ? FAILED : PASS;
        o.msg = buf.substr(1);
    } else {
        o.status = from_outside(st) && !watch.blocked ? PASS : FAILED;
        o.msg = describe_death(st, watch.blocked);
    }
    return o;
}
static bool tier_thorough = false;
inline Outcome isolated(const std::vector<u64> &c, bool want_text, const std::string &errfile = "/dev/null", double limit = 0) {
    return isolated_from([&]() { return Source::replay(c); }, want_text, errfile, limit > 0 ? limit : CPU_LIMIT, tier_thorough);
}

inline std::vector<u64> shrink(std::vector<u64> best, int budget, double seconds) {
    struct timeval t0; gettimeofday(&t0, nullptr);
    auto elapsed = [&]() { struct timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6; };
    int used = 0;
    auto shortlex_less = [](const std::vector<u64> &a, const std::vector<u64> &b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    auto spent = [&]() { return used >= budget || elapsed() > seconds; };
    auto attempt = [&](std::vector<u64> c) {
        if (spent()) { return false; }
        while (!c.empty() && c.back() == 0) { c.pop_back(); }
        if (!shortlex_less(c, best)) { return false; }
        used++;
        Outcome o = isolated(c, false, "/dev/null", 5);
        if (o.status != FAILED) { return false; }
        while (!o.choices.empty() && o.choices.back() == 0) { o.choices.pop_back(); }
        best = shortlex_less(o.choices, c) ? o.choices : c;      // keep only what was really drawn
        return true;
    };
    bool progress = true;
    while (progress && !spent()) {
        progress = false;
        for (size_t len = best.size(); len >= 1; len /= 2) {            // delete chunks
            for (size_t i = 0; i + len <= best.size() && !spent();) {
                std::vector<u64> c(best); c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) { progress = true; } else { i += len; }
            }
        }
        for (size_t len = best.size(); len >= 1; len /= 2) {            // zero chunks
            for (size_t i = 0; i + len <= best.size() && !spent(); i += len) {
                std::vector<u64> c(best); bool any = false;
                for (size_t k = i; k < i + len; k++) { any |= c[k] != 0; c[k] = 0; }
                if (any && attempt(c)) { progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && !spent(); i++) {          // lower one value
            u64 lo = 0;
            while (i < best.size() && best[i] > lo) {
                std::vector<u64> c(best); u64 mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (attempt(c)) { progress = true; } else { lo = mid + 1; }
                if (spent()) { break; }
            }
        }
        for (size_t i = 0; i < best.size() && !spent(); i++) {          // lower a size and drop what it counted
            for (size_t len = 1; len <= 8 && i < best.size() && best[i] > 0 && !spent(); len++) {
                for (size_t j = i + 1; j + len <= best.size() && j < i + 24 && !spent(); j++) {
                    std::vector<u64> c(best); c[i]--; c.erase(c.begin() + j, c.begin() + j + len);
                    if (attempt(c)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

struct Shared { volatile long current[64], failed[64], done[64], stop_at; };

inline std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += c; }
    }
    return o;
}

inline u64 hash_choices(const std::vector<u64> &c) {
    u64 h = 1469598103934665603ULL;
    for (u64 v : c) { h = mix(h ^ v); }
    return h;
}

struct Totals {
    long n = 0, nt = 0;
    std::map<std::string, long> labels;
    double slowest = 0; long slowest_case = -1;      // seconds of CPU
    std::vector<u64> distinct;
    std::vector<std::string> samples;
};

inline std::string first_sanitizer_line(const std::string &f) {
    std::ifstream in(f); std::string l;
    while (std::getline(in, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("SUMMARY") != std::string::npos) { return l.substr(0, 300); }
    }
    return "";
}

inline void write_sequence(std::ostream &out, const std::vector<u64> &c) {
    out << "[";
    for (size_t i = 0; i < c.size(); i++) { out << (i ? "," : "") << c[i]; }
    out << "]";
}
inline std::string write_replay(const std::string &path, const Outcome &o, u64 seed, const std::string &tier) {
    std::ofstream out(path);
    out << "{\"property\":\"" << property.id << "\",\"seed\":" << seed << ",\"tier\":\"" << tier << "\",\n\"failure\":\"" << json_escape(o.msg)
        << "\",\n\"case\":\"" << json_escape(o.text) << "\",\n\"before\":[";
    for (size_t i = 0; i < before.size(); i++) { out << (i ? "," : ""); write_sequence(out, before[i]); }
    out << "],\n\"choices\":";
    write_sequence(out, o.choices);
    out << "}\n";
    return path;
}

inline std::vector<u64> read_sequence(const char *&p) {      // at the character after '['
    std::vector<u64> c;
    while (*p && *p != ']') { char *e; c.push_back(strtoull(p, &e, 10)); if (e == p) { break; } p = e; if (*p == ',') { p++; } }
    if (*p == ']') { p++; }
    return c;
}
inline std::vector<u64> read_replay(const std::string &path) {
    std::ifstream in(path); std::stringstream b; b << in.rdbuf();
    std::string s = b.str();
    before.clear();
    size_t at = s.rfind("\"before\":[");
    if (at != std::string::npos) {
        const char *p = s.c_str() + at + 10;
        while (*p == '[') { p++; before.push_back(read_sequence(p)); if (*p == ',') { p++; } }
    }
    at = s.rfind("\"choices\":[");
    if (at == std::string::npos) { return std::vector<u64>(); }
    const char *p = s.c_str() + at + 11;
    return read_sequence(p);
}

inline u64 seed_of_run(u64 seed) { return mix(seed ^ mix(hash_choices(std::vector<u64>(property.id, property.id + strlen(property.id))))); }
inline u64 seed_of_case(u64 base, long i) { return mix(base + (u64)i * 0x632be59bd9b4e019ULL); }

// exit code 0: held; 1: violated (replay file written); 3: the engine itself failed
inline int main_run(u64 seed, long cases, int workers, double wall, const std::string &dir, const std::string &replay_path) {
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64 base = seed_of_run(seed);
    auto case_seed = [&](long i) { return seed_of_case(base, i); };
    struct timeval t0; gettimeofday(&t0, nullptr);
    auto elapsed = [&]() { struct timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6; };
    std::vector<pid_t> pids(workers, 0);
    std::vector<long> first_of(workers, 0);
    std::vector<std::string> file_of(workers);
    sh->stop_at = std::numeric_limits<long>::max();
    std::vector<std::string> statfiles;
    int spawned = 0;
    auto spawn = [&](int w, long first) {
        std::string f = dir + "/w" + std::to_string(spawned++);
        statfiles.push_back(f);
        sh->current[w] = sh->failed[w] = -1; first_of[w] = first; file_of[w] = f;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid) { pids[w] = pid; return; }
        int e = open((f + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); }
        int d = open("/dev/null", O_WRONLY); if (d >= 0) { dup2(d, 1); }
        Totals t;
        std::vector<u64> hashes;
        for (long i = first; i < cases && i < sh->stop_at; i += workers) {
            if (elapsed() > wall) { break; }
            sh->current[w] = i; sh->done[w] = sh->done[w] + 1;
            Source s = Source::random(case_seed(i));
            Ctx ctx; ctx.thorough = tier_thorough;
            bool text = t.samples.empty() && w < 3;
            arm(CPU_LIMIT);
            double cpu = cpu_time();
            Outcome o = execute(s, text, ctx);
            cpu = cpu_time() - cpu; if (cpu > t.slowest) { t.slowest = cpu; t.slowest_case = i; }
            t.n++;
            for (auto &l : ctx.labels) { t.labels[l]++; }
            if (ctx.nontrivial) {
                t.nt++; if (hashes.size() < 3000000) { hashes.push_back(hash_choices(o.choices)); }    // more are not counted as distinct
                if (text && o.text.size() < 3000) { t.samples.push_back(o.text); }
            }
            if (o.status == FAILED) { sh->failed[w] = i; std::ofstream(f + ".fail") << o.msg; break; }
        }
        arm(0);
        std::ofstream out(f + ".stat", std::ios::binary);
        out << t.n << " " << t.nt << " " << t.labels.size() << " " << t.samples.size() << " " << t.slowest << " " << t.slowest_case << "\n";
        for (auto &l : t.labels) { out << l.second << " " << l.first << "\n"; }
        for (auto &x : t.samples) { out << json_escape(x) << "\n"; }
        out.close();
        std::ofstream ho(f + ".hash", std::ios::binary);
        ho.write((const char *)hashes.data(), hashes.size() * sizeof(u64));
        ho.close();
        _exit(0);
    };
    for (int w = 0; w < workers; w++) { spawn(w, w); }
    int alive = workers;
    long best = -1; Outcome found; found.status = PASS;
    int unreproduced = 0, histories = 0; std::string unreproduced_msg;
    int flaky = 0; long flaky_case = -1; std::string flaky_msg;
    std::vector<std::vector<u64> > prior, found_before;
    std::vector<Watch> watches(workers);
    while (alive > 0) {
        int st; pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid < 0) { break; }
        if (pid == 0) {
            for (int k = 0; k < workers; k++) {
                if (!pids[k]) { continue; }
                if (watches[k].pid != pids[k]) { watches[k] = Watch(pids[k]); }
                watches[k].look(QUIET_LIMIT);
            }
            usleep(3000);
            continue;
        }
        int w = -1;
        for (int k = 0; k < workers; k++) { if (pids[k] == pid) { w = k; } }
        if (w < 0) { continue; }
        bool blocked = watches[w].pid == pid && watches[w].blocked;
        alive--; pids[w] = 0;
        long idx = -1;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { idx = sh->current[w]; } else if (sh->failed[w] >= 0) { idx = sh->failed[w]; }
        if (idx < 0 || (best >= 0 && (idx > best || elapsed() > 300))) { continue; }
        // believed only if it fails again, three times, on its own or after the cases that ran before it in its process
        Outcome o; int again = 0;
        auto confirm = [&]() {
            for (again = 0; again < 3; again++) {
                o = isolated_from([&]() { return Source::random(case_seed(idx)); }, true, dir + "/fail.err", CPU_LIMIT, tier_thorough);
                if (o.status != FAILED) { break; }
            }
            return again == 3;
        };
        bool sure = confirm();
        if (!sure && histories < 4 && elapsed() < 300) {
            histories++;
            std::vector<std::vector<u64> > ran;
            for (long i = first_of[w]; i < idx; i += workers) { ran.push_back(std::vector<u64>(1, (u64)i)); }
            // indices first; their choices are only needed once the history is short
            auto with = [&](const std::vector<std::vector<u64> > &h) { history.clear(); for (auto &x : h) { history.push_back(case_seed((long)x[0])); } };
            with(ran); sure = confirm();
            if (sure) {
                double until = elapsed() + 40;
                for (size_t keep = 1; keep < ran.size(); keep *= 4) {      // the last few suffice?
                    std::vector<std::vector<u64> > h(ran.end() - keep, ran.end()); with(h);
                    if (confirm()) { ran = h; break; }
                }
                for (size_t len = (ran.size() + 1) / 2; len >= 1 && elapsed() < until; len /= 2) {
                    for (size_t i = 0; i < ran.size() && elapsed() < until;) {
                        std::vector<std::vector<u64> > h(ran); h.erase(h.begin() + i, h.begin() + std::min(i + len, h.size())); with(h);
                        if (confirm()) { ran = h; } else { i += len; }
                    }
                }
                history.clear(); before.clear();
                for (auto &x : ran) { Outcome q = isolated_from([&]() { return Source::random(case_seed((long)x[0])); }, false, "/dev/null", CPU_LIMIT, tier_thorough); prior.push_back(q.choices); }
                before = prior; sure = confirm(); before.clear();
            }
            history.clear();
        }
        if (sure) {
            best = idx; found = o; found_before = prior; sh->stop_at = idx;
        } else {
            unreproduced++; unreproduced_msg = describe_death(st, blocked) + " / " + o.msg;
            if (sh->failed[w] >= 0) {       // a check said no, if only once
                flaky++; std::ifstream in(file_of[w] + ".fail"); std::stringstream b; b << in.rdbuf();
                flaky_case = idx; flaky_msg = b.str();
            } else if (blocked || !(from_outside(st) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF))) {   // or it crashed, if only once
                flaky++; flaky_case = idx; flaky_msg = describe_death(st, blocked);
                std::string san = first_sanitizer_line(file_of[w] + ".err");
                if (!san.empty()) { flaky_msg += " | " + san; }
            }
            if (unreproduced <= 20 && idx + workers < cases && elapsed() < 300) { spawn(w, idx + workers); alive++; }
        }
        prior.clear();
    }
    Totals all;
    for (auto &f : statfiles) {
        std::ifstream in(f + ".stat", std::ios::binary); long n, nt, nl, ns, sc; double sl;
        if (!(in >> n >> nt >> nl >> ns >> sl >> sc)) { continue; }
        all.n += n; all.nt += nt; if (sl > all.slowest) { all.slowest = sl; all.slowest_case = sc; }
        std::string line;
        for (long i = 0; i < nl; i++) { long c; in >> c; in.get(); std::getline(in, line); all.labels[line] += c; }
        if (nl == 0) { std::getline(in, line); }
        for (long i = 0; i < ns; i++) { if (std::getline(in, line) && !line.empty()) { all.samples.push_back(line); } }
        std::ifstream hi(f + ".hash", std::ios::binary); u64 h;
        while (hi.read((char *)&h, sizeof h)) { all.distinct.push_back(h); }
    }
    std::sort(all.distinct.begin(), all.distinct.end());
    all.distinct.erase(std::unique(all.distinct.begin(), all.distinct.end()), all.distinct.end());
    long begun = 0; for (int w = 0; w < workers; w++) { begun += sh->done[w]; }
    all.n = std::max(all.n, begun);      // a crashed worker leaves no totals
    int rc = 0;
    std::string failure;
    int confirmed = 0;
    if (best >= 0) {
        before = found_before;
        std::vector<u64> small = shrink(found.choices, 1500, 40);
        for (size_t i = 0; i < before.size() && i < 4; i++) {      // the cases before it, too
            std::vector<std::vector<u64> > all_before(before);
            std::vector<u64> c = before[i];
            after.assign(all_before.begin() + i + 1, all_before.end()); after.push_back(small); before.resize(i);
            c = shrink(c, 800, 15);
            before = all_before; before[i] = c; after.clear();
        }
        Outcome o;
        for (int r = 0; r < 3; r++) { o = isolated(small, true, dir + "/fail.err"); if (o.status == FAILED) { confirmed++; } }
        if (confirmed < 3) { o = found; } else if (o.choices.size() < small.size()) { o.choices = small; }
        if (!before.empty()) { o.msg += " [after " + std::to_string(before.size()) + " other case(s) in the same process]"; }
        std::string san = first_sanitizer_line(dir + "/fail.err");
        if (!san.empty()) { o.msg += " | " + san; }
        write_replay(replay_path, o, seed, tier_thorough ? "thorough" : "quick");
        failure = o.msg;
        std::cout << "FAILURE " << property.id << " case #" << best << ": " << o.msg << "\n" << o.text << "\n";
        rc = 1;
    }
    if (best < 0 && flaky >= 3) {    // generators and oracle are deterministic: the code under test is not
        Outcome o = isolated_from([&]() { return Source::random(case_seed(flaky_case)); }, true, "/dev/null", CPU_LIMIT, tier_thorough);
        o.msg = flaky_msg + " [" + std::to_string(flaky) + " cases failed this way, none of them on every run]";
        write_replay(replay_path, o, seed, tier_thorough ? "thorough" : "quick");
        failure = o.msg;
        std::cout << "FAILURE " << property.id << " case #" << flaky_case << ": " << o.msg << "\n" << o.text << "\n";
        rc = 1;
    }
    std::ofstream js(dir + "/result.json");
    js << "{\"evaluations\":" << all.n << ",\"nontrivial\":" << all.nt << ",\"distinct_nontrivial\":" << all.distinct.size()
       << ",\"unreproduced\":" << unreproduced << ",\"unreproduced_msg\":\"" << json_escape(unreproduced_msg) << "\""
       << ",\"slowest_case_cpu_s\":" << all.slowest << ",\"slowest_case\":" << all.slowest_case
       << ",\"wall_s\":" << elapsed() << ",\"complete\":" << (best < 0 && all.n >= cases ? "true" : "false")
       << ",\"failure\":\"" << json_escape(failure) << "\",\"rule\":\"" << json_escape(property.rule) << "\",\"labels\":{";
    bool firstl = true;
    for (auto &l : all.labels) { js << (firstl ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; firstl = false; }
    js << "},\"samples\":[";
    for (size_t i = 0; i < all.samples.size() && i < 4; i++) { js << (i ? "," : "") << "\"" << all.samples[i] << "\""; }
    js << "]}\n";
    return rc;
}

inline int main_entry(int argc, char **argv) {
    std::map<std::string, std::string> opt;
    for (int i = 2; i + 1 < argc; i += 2) { opt[argv[i]] = argv[i + 1]; }
    auto get = [&](const char *k, const char *d) { return opt.count(k) ? opt[k] : std::string(d); };
    tier_thorough = get("--tier", "quick") == "thorough";
    if (opt.count("--cpu")) { CPU_LIMIT = atof(opt["--cpu"].c_str()); }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "run") {
        return main_run(strtoull(get("--seed", "1").c_str(), nullptr, 10), atol(get("--cases", "1000").c_str()),
                        atoi(get("--workers", "8").c_str()), atof(get("--wall", "600").c_str()), get("--dir", "."), get("--replay", "replay.json"));
    }
    if (cmd == "case" && argc > 2) { // one case of a run, by its number
        for (int i = 3; i + 1 < argc; i += 2) { opt[argv[i]] = argv[i + 1]; }
        tier_thorough = opt.count("--tier") && opt["--tier"] == "thorough";
        Source s = Source::random(seed_of_case(seed_of_run(strtoull(get("--seed", "1").c_str(), nullptr, 10)), atol(argv[2])));
        Ctx ctx; ctx.thorough = tier_thorough; double cpu = cpu_time();
        Outcome o = execute(s, true, ctx);
        std::cout << (o.status == FAILED ? "FAILS: " + o.msg : std::string("passes")) << "\n" << o.text << "\n" << cpu_time() - cpu << " s\n";
        for (auto &l : ctx.labels) { std::cout << l << "; "; } std::cout << "\n";
        return o.status == FAILED ? 1 : 0;
    }
    if (cmd == "replay" && argc > 2) {
        for (int i = 3; i + 1 < argc; i += 2) { opt[argv[i]] = argv[i + 1]; }
        tier_thorough = opt.count("--tier") && opt["--tier"] == "thorough";
        Outcome o = isolated(read_replay(argv[2]), true, "/dev/stderr");
        std::cout << (o.status == FAILED ? "FAILS: " + o.msg : std::string("passes")) << "\n" << o.text << "\n";
        return o.status == FAILED ? 1 : 0;
    }
    if (cmd == "shrinkbytes" && argc > 2) { // a fuzzer's input: recover the choices, shrink, write the replay file
        for (int i = 3; i + 1 < argc; i += 2) { opt[argv[i]] = argv[i + 1]; }
        tier_thorough = get("--tier", "thorough") == "thorough";
        std::ifstream in(argv[2], std::ios::binary); std::stringstream b; b << in.rdbuf(); std::string raw = b.str();
        auto mk = [&]() { return Source::bytes((const uint8_t *)raw.data(), raw.size()); };
        Outcome o;
        for (int r = 0; r < 3; r++) { o = isolated_from(mk, true, "/dev/null", CPU_LIMIT, tier_thorough); if (o.status != FAILED) { std::cout << "not reproduced\n"; return 0; } }
        std::vector<u64> small = shrink(o.choices, 1500, 60);
        Outcome f = isolated(small, true);
        if (f.status != FAILED) { f = o; } else { f.choices = small; }
        write_replay(get("--replay", "replay.json"), f, 0, "thorough");
        std::cout << "FAILURE " << property.id << ": " << f.msg << "\n" << f.text << "\n";
        return 1;
    }
    std::cerr << "usage: " << argv[0] << " run|replay|shrinkbytes ...\n";
    return 2;
}

} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    pbt::Source s = pbt::Source::bytes(data, size);
    pbt::Ctx ctx; ctx.thorough = true; pbt::tier_thorough = true;
    pbt::Outcome o = pbt::execute(s, false, ctx);
    if (o.status == pbt::FAILED) { fprintf(stderr, "PROPERTY-FAILURE %s\n", o.msg.c_str()); __builtin_trap(); }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::main_entry(argc, argv); }
#endif
#endif
