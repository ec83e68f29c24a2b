#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <exception>
#include <map>
#include <new>
#include <unordered_set>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

long g_live_blocks = 0, g_align_mismatches = 0;
long g_alloc_countdown = -1;
long g_alloc_total = 0;

// ------------------------------------------------------------------------------------------------
static std::vector<Law> &laws() { static std::vector<Law> v; return v; }
static std::vector<Probe> &probes() { static std::vector<Probe> v; return v; }
void add(Law const &l) { laws().push_back(l); }
void add_probe(Probe const &p) { probes().push_back(p); }

constexpr size_t MAX_CHOICES = 6000;
constexpr size_t MSG = 4096, TRACE = 24000;
constexpr size_t MAX_LABELS = 96, LABEL_LEN = 56;

enum State : int { IDLE = 0, RUNNING, PASSED, FAILED };

struct Slot {                       // shared with the parent process
    volatile int state;
    volatile int law;
    volatile uint64_t index;
    volatile uint64_t started_ms;
    int nontrivial;
    uint64_t hash;
    uint32_t nchoices;
    uint64_t choices[MAX_CHOICES];
    char msg[MSG];
    uint32_t trace_len;
    char trace[TRACE];
    // counters (cumulative over the worker's life)
    uint64_t done;                  // cases finished for the current law
    uint32_t nlabels;
    struct { char name[LABEL_LEN]; uint64_t n; } labels[MAX_LABELS];
};

static Slot *S = nullptr;           // slot of this process
static bool g_trace = false;
static bool g_quiet = false;        // second run for leak accounting: no labels
static uint64_t g_rng = 0;
static uint64_t const *g_replay = nullptr;
static size_t g_replay_n = 0, g_replay_pos = 0;
static uint32_t g_pos = 0;          // choices consumed so far

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
    return splitmix(x);
}
static uint64_t now_ms()
{
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000 + (uint64_t)ts.tv_nsec / 1000000;
}

uint64_t Ctx::draw(uint64_t n)
{
    if (n <= 1) n = 1;
    uint64_t v;
    if (g_pos >= MAX_CHOICES) return 0;
    if (g_replay) {
        v = g_replay_pos < g_replay_n ? g_replay[g_replay_pos] : 0;
        ++g_replay_pos;
        if (v >= n) v %= n;
    } else
        v = n == 1 ? 0 : splitmix(g_rng) % n;
    S->choices[g_pos++] = v;
    S->nchoices = g_pos;
    return v;
}
bool Ctx::more(uint64_t den) { return draw(den) != 0; }
size_t Ctx::weighted(std::initializer_list<unsigned> w)
{
    uint64_t total = 0; for (auto x: w) total += x;
    uint64_t v = draw(total); size_t i = 0;
    for (auto x: w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}
int64_t Ctx::interesting(int64_t lo, int64_t hi)
{
    switch (draw(4)) {
    case 0: return lo <= 0 && 0 <= hi ? std::min<int64_t>(hi, (int64_t)draw(10)) : lo;
    case 1: return lo;
    case 2: return hi;
    default: return lo + (int64_t)draw((uint64_t)hi - (uint64_t)lo + ((uint64_t)hi - (uint64_t)lo == ~0ull ? 0 : 1));
    }
}
bool Ctx::tracing() const { return g_trace; }
void Ctx::note(char const *fmt, ...)
{
    if (!g_trace || S->trace_len + 2 >= TRACE) return;
    va_list ap; va_start(ap, fmt);
    int r = vsnprintf(S->trace + S->trace_len, TRACE - S->trace_len - 2, fmt, ap);
    va_end(ap);
    if (r > 0) S->trace_len += std::min<uint32_t>((uint32_t)r, TRACE - S->trace_len - 3);
    S->trace[S->trace_len++] = '\n';
    S->trace[S->trace_len] = 0;
}
void Ctx::label(char const *name)
{
    if (g_quiet || g_trace) return;
    for (uint32_t i = 0; i < S->nlabels; ++i)
        if (!strncmp(S->labels[i].name, name, LABEL_LEN - 1)) { ++S->labels[i].n; return; }
    if (S->nlabels < MAX_LABELS) {
        strncpy(S->labels[S->nlabels].name, name, LABEL_LEN - 1);
        S->labels[S->nlabels].n = 1;
        ++S->nlabels;
    }
}
void Ctx::excluded(char const *why)
{
    char b[LABEL_LEN]; snprintf(b, sizeof b, "EXCLUDED:%s", why); label(b);
}
void Ctx::nontrivial() { S->nontrivial = 1; }
void Ctx::fail(char const *fmt, ...)
{
    char b[MSG]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Fail{b};
}
void Ctx::check(bool ok, char const *fmt, ...)
{
    if (__builtin_expect(ok, 1)) return;
    char b[MSG]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Fail{b};
}

static std::string demangle(char const *n)
{
    int st; char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = p ? p : n; free(p); return r;
}

// one execution of a law in this process with the current source; fills the slot
static bool execute_once(Law const &l)
{
    S->nchoices = 0; g_pos = 0; g_replay_pos = 0;
    S->nontrivial = 0; S->msg[0] = 0; S->trace_len = 0; S->trace[0] = 0;
    Ctx c;
    auto put = [](char const *p) { strncpy(S->msg, p, MSG - 1); S->msg[MSG - 1] = 0; };
    g_align_mismatches = 0;
    try {
        l.fn(c);
        if (!g_align_mismatches) return true;
        put("memory allocated for an over-aligned type was released as ordinary memory, or the other way round");
    }
    catch (Fail const &f) { put(f.msg.c_str()); }
    catch (std::exception const &e) {
        std::string m = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what(); put(m.c_str());
    }
    catch (...) { put("unexpected non-standard exception"); }
    g_alloc_countdown = -1;
    return false;
}
static bool execute(Law const &l)
{
    S->state = RUNNING;
    bool ok = execute_once(l);
    if (ok && (l.flags & LEAKS) && !g_trace) {
        static thread_local std::vector<uint64_t> rec;
        rec.assign(S->choices, S->choices + S->nchoices);
        int nt = S->nontrivial;
        auto sr = g_replay; auto sn = g_replay_n;
        g_replay = rec.data(); g_replay_n = rec.size();
        g_quiet = true;
        // the first run may have initialised function-local statics of the library, the second one may not
        long before = g_live_blocks;
        ok = execute_once(l);
        long after = g_live_blocks;
        if (ok && after != before) {
            before = g_live_blocks; ok = execute_once(l); after = g_live_blocks;   // lazily grown caches: once more
            if (ok && after != before) {
                snprintf(S->msg, MSG, "heap blocks leaked or lost by the case: %+ld live block(s) after it completed", after - before);
                ok = false;
            }
        }
        g_quiet = false; g_replay = sr; g_replay_n = sn;
        S->nontrivial = nt;
    }
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 0; i < S->nchoices; ++i) { h ^= S->choices[i]; h *= 1099511628211ull; h ^= h >> 29; }
    S->hash = h;
    S->state = ok ? PASSED : FAILED;
    return ok;
}

// ------------------------------------------------------------------------------------------------
static std::string g_tmp;           // scratch directory for stderr logs
static uint64_t g_hang_ms = 40000;

static void child_stderr(std::string const &path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string slurp_tail(std::string const &path, size_t max = 3000)
{
    std::string r; if (FILE *f = fopen(path.c_str(), "rb")) {
        char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); if (r.size() > 200000) break; }
        fclose(f);
    }
    // keep the interesting head of a sanitizer report
    auto p = r.find("ERROR: "); auto q = r.find("runtime error:"); auto t = r.find("WARNING: ThreadSanitizer");
    size_t s = std::min(std::min(p, q), t);
    if (s != std::string::npos) { auto nl = r.rfind('\n', s); r = r.substr(nl == std::string::npos ? 0 : nl + 1); }
    if (r.size() > max) r.resize(max);
    return r;
}
static std::string status_text(int st, bool hang)
{
    char b[96];
    if (hang) return "no progress (hang) in a single case";
    if (WIFSIGNALED(st)) { snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return b; }
    snprintf(b, sizeof b, "process ended with status %d", WEXITSTATUS(st)); return b;
}

struct Outcome { bool ok = true; bool nontrivial = false; uint64_t hash = 0; std::string msg, trace; std::vector<uint64_t> choices; };

static Slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<Slot*>(p);
}

// wait for a child with the hang limit; returns status
static int wait_child(pid_t pid, bool &hang)
{
    hang = false; int st = 0; uint64_t t0 = now_ms();
    unsigned nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (r < 0 && errno != EINTR) return st;
        if (now_ms() - t0 > g_hang_ms) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
        usleep(nap); if (nap < 5000) nap += nap / 4;
    }
}

// run one case in a forked child from the given choices
static Outcome run_forked(size_t law, std::vector<uint64_t> const &choices, bool trace)
{
    static Slot *slot = new_slot();
    memset(slot, 0, sizeof *slot);
    std::string err = g_tmp + "/case.err";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        child_stderr(err);
        S = slot; g_trace = trace; g_replay = choices.data(); g_replay_n = choices.size();
        bool ok = execute(laws()[law]);
        _exit(ok ? 0 : 10);
    }
    bool hang; int st = wait_child(pid, hang);
    Outcome o; o.nontrivial = slot->nontrivial; o.hash = slot->hash;
    o.choices.assign(slot->choices, slot->choices + slot->nchoices);
    o.trace.assign(slot->trace, slot->trace_len);
    o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!o.ok) {
        if (slot->state == FAILED) o.msg = slot->msg;
        else o.msg = status_text(st, hang) + "\n" + slurp_tail(err);
    }
    return o;
}

// ------------------------------------------------------------------------------------------------
struct Options { uint64_t seed = 1; bool thorough = false; std::string out, replay, only; int workers = 8; double scale = 1; uint64_t cap_s = 0; std::string replay_dir = "."; };

struct LawStats { uint64_t cases = 0, nontrivial = 0, distinct = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool capped = false; };

struct WorkerFile { std::string path; };

static uint64_t case_seed(Options const &o, size_t law, uint64_t idx)
{
    uint64_t h = 0; for (char const *p = laws()[law].name; *p; ++p) h = mix(h, (uint64_t)*p);
    return mix(mix(o.seed, h), idx);
}

// body of a worker process: runs the indices w, w+W, ... < n of one law
static void worker(Options const &o, size_t law, uint64_t n, int w, int W, Slot *slot, std::string const &file, uint64_t deadline)
{
    S = slot;
    Law const &l = laws()[law];
    bool isolated = l.flags & ISOLATED;
    std::unordered_set<uint64_t> seen;
    uint64_t nontrivial = 0;
    for (uint64_t i = (uint64_t)w; i < n; i += (uint64_t)W) {
        if (now_ms() > deadline) break;
        slot->index = i; slot->started_ms = now_ms();
        g_rng = case_seed(o, law, i); g_replay = nullptr;
        bool ok;
        if (isolated) {
            slot->state = RUNNING; slot->nchoices = 0;
            pid_t pid = fork();
            if (pid < 0) { usleep(20000); pid = fork(); if (pid < 0) { perror("fork"); _exit(3); } }
            if (pid == 0) { bool k = execute(l); _exit(k ? 0 : 10); }
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!ok) {
                if (slot->state != FAILED) { std::string m = status_text(st, false); strncpy(slot->msg, m.c_str(), MSG - 1); slot->state = FAILED; }
            }
        } else
            ok = execute(l);
        if (!ok) _exit(10);
        ++slot->done;
        if (slot->nontrivial) { ++nontrivial; seen.insert(slot->hash); }
    }
    if (FILE *f = fopen(file.c_str(), "wb")) {
        fwrite(&nontrivial, 8, 1, f);
        for (auto h: seen) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    slot->state = IDLE;
    _exit(0);
}

static std::string json_str(std::string const &s)
{
    std::string r = "\"";
    for (unsigned char ch: s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r + "\"";
}

struct Failure { size_t law = 0; std::string mode = "choices"; std::vector<uint64_t> choices; uint64_t index = 0; int w = 0; int W = 1; uint64_t seed = 0; std::string msg, trace; bool reproduced = false; uint64_t shrink_runs = 0; };

static bool run_prefix(Failure const &f, Options const &o, std::string &msg)
{
    static Slot *slot = new_slot();
    memset(slot, 0, sizeof *slot);
    std::string err = g_tmp + "/prefix.err";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        child_stderr(err);
        worker(o, f.law, f.index + 1, f.w, f.W, slot, "/dev/null", ~0ull);
    }
    int st; uint64_t last = now_ms(), idx = ~0ull;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (slot->index != idx) { idx = slot->index; last = now_ms(); }
        if (now_ms() - last > g_hang_ms) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(1000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    msg = slot->state == FAILED ? slot->msg : status_text(st, false) + "\n" + slurp_tail(err);
    return false;
}

static void shrink(Failure &f)
{
    auto const max_runs = 1500u; uint64_t t_end = now_ms() + 60000;
    uint64_t saved_hang = g_hang_ms; g_hang_ms = 5000;
    auto better = [](std::vector<uint64_t> const &a, std::vector<uint64_t> const &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    int const attempts = laws()[f.law].flags & RACY ? 8 : 1;
    auto try_ = [&](std::vector<uint64_t> const &cand) {
        if (f.shrink_runs >= max_runs || now_ms() > t_end) return false;
        ++f.shrink_runs;
        auto o = run_forked(f.law, cand, false);
        for (int k = 1; k < attempts && o.ok && now_ms() < t_end; ++k) o = run_forked(f.law, cand, false);
        if (o.ok) return false;
        auto used = o.choices; if (used.size() > cand.size()) used = cand;
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (better(used, f.choices)) { f.choices = used; f.msg = o.msg; return true; }
        return false;
    };
    bool progress = true;
    while (progress && f.shrink_runs < max_runs && now_ms() < t_end) {
        progress = false;
        for (size_t k: {64u, 32u, 16u, 8u, 6u, 5u, 4u, 3u, 2u, 1u})
            for (size_t i = 0; i + k <= f.choices.size();) {
                auto cand = f.choices; cand.erase(cand.begin() + (long)i, cand.begin() + (long)(i + k));
                if (try_(cand)) progress = true; else i += std::max<size_t>(1, k / 2);
            }
        for (size_t i = 0; i < f.choices.size(); ++i) {
            if (!f.choices[i]) continue;
            auto cand = f.choices; cand[i] = 0;
            if (try_(cand)) { progress = true; continue; }
            uint64_t lo = 0, hi = f.choices.size() > i ? f.choices[i] : 0;
            while (hi - lo > 1 && i < f.choices.size()) {
                uint64_t mid = lo + (hi - lo) / 2; cand = f.choices; cand[i] = mid;
                if (try_(cand)) { progress = true; if (i >= f.choices.size()) break; hi = std::min(mid, f.choices[i]); } else lo = mid;
            }
        }
    }
    g_hang_ms = saved_hang;
}

static std::string write_replay(Failure const &f, Options const &o)
{
    char path[512]; uint64_t h = 7; for (auto c: f.choices) h = mix(h, c); h = mix(h, f.index);
    mkdir(o.replay_dir.c_str(), 0755);
    snprintf(path, sizeof path, "%s/%s-%08x.replay", o.replay_dir.c_str(), laws()[f.law].name, (unsigned)h);
    FILE *p = fopen(path, "wb"); if (!p) return "";
    fprintf(p, "law %s\nmode %s\n", laws()[f.law].name, f.mode.c_str());
    fprintf(p, "origin seed=%llu index=%llu worker=%d workers=%d\n", (unsigned long long)f.seed, (unsigned long long)f.index, f.w, f.W);
    fprintf(p, "choices"); for (auto c: f.choices) fprintf(p, " %llu", (unsigned long long)c); fprintf(p, "\n");
    fprintf(p, "----\n%s\n---- trace\n%s\n", f.msg.c_str(), f.trace.c_str());
    fclose(p); return path;
}

static int do_replay(Options &o)
{
    FILE *p = fopen(o.replay.c_str(), "rb"); if (!p) { perror(o.replay.c_str()); return 3; }
    std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p);
    Failure f; char law[128] = "", mode[32] = "";
    if (sscanf(s.c_str(), "law %127s mode %31s", law, mode) != 2) { fprintf(stderr, "bad replay file\n"); return 3; }
    f.law = laws().size(); for (size_t i = 0; i < laws().size(); ++i) if (!strcmp(laws()[i].name, law)) f.law = i;
    if (f.law == laws().size()) { fprintf(stderr, "unknown law %s\n", law); return 3; }
    f.mode = mode;
    auto q = s.find("origin "); unsigned long long sd = 0, ix = 0;
    if (q != std::string::npos) sscanf(s.c_str() + q, "origin seed=%llu index=%llu worker=%d workers=%d", &sd, &ix, &f.w, &f.W);
    f.seed = sd; f.index = ix; o.seed = sd;
    q = s.find("\nchoices"); if (q != std::string::npos) {
        char const *c = s.c_str() + q + 8; while (*c == ' ') { char *e; f.choices.push_back(strtoull(c, &e, 10)); c = e; }
    }
    if (f.mode == "prefix") {
        std::string msg; bool ok = run_prefix(f, o, msg);
        printf("%s\n%s\n", ok ? "PASS" : "FAIL", msg.c_str()); return ok ? 0 : 1;
    }
    auto r = run_forked(f.law, f.choices, false);
    for (int k = 0; k < 150 && r.ok && (laws()[f.law].flags & RACY); ++k) r = run_forked(f.law, f.choices, false);
    auto t = run_forked(f.law, f.choices, true);
    printf("%s\n%s\n---- trace\n%s\n", r.ok ? "PASS" : "FAIL", r.msg.c_str(), t.trace.c_str());
    return r.ok ? 0 : 1;
}

int main_(int argc, char **argv)
{
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") o.thorough = val() == "thorough";
        else if (a == "--out") o.out = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--only") o.only = val();
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--cap") o.cap_s = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--list") { for (auto &l: laws()) printf("%s\n", l.name); return 0; }
    }
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } g_tmp = tmpl;
    std::sort(laws().begin(), laws().end(), [](Law const &a, Law const &b) { return strcmp(a.name, b.name) < 0; });
    auto cleanup = [&] {
        std::string cmd; for (auto n: {"case.err", "prefix.err", "probe.err"}) unlink((g_tmp + "/" + n).c_str());
        for (int w = 0; w < 64; ++w) { unlink((g_tmp + "/w" + std::to_string(w) + ".err").c_str()); unlink((g_tmp + "/w" + std::to_string(w) + ".set").c_str()); }
        rmdir(g_tmp.c_str());
    };
    if (!o.replay.empty()) { int r = do_replay(o); cleanup(); return r; }

    if (!o.cap_s) o.cap_s = o.thorough ? 2400 : 400;
    uint64_t deadline = now_ms() + o.cap_s * 1000;
    int W = std::max(1, o.workers);
    std::vector<Slot*> slots; for (int i = 0; i < W; ++i) slots.push_back(new_slot());
    std::vector<LawStats> stats(laws().size());
    bool failed = false; Failure fail; uint64_t inconclusive = 0; std::string inconclusive_msg;

    for (size_t li = 0; li < laws().size() && !failed; ++li) {
        Law const &l = laws()[li];
        if (!o.only.empty() && o.only != l.name) continue;
        uint64_t n = (uint64_t)((double)(o.thorough ? l.thorough : l.quick) * o.scale); if (!n) n = 1;
        std::vector<pid_t> pids(W); std::vector<bool> alive(W, true);
        uint64_t until = deadline;                       // long runs: the laws which are left share the time which is left
        if (o.thorough && o.only.empty()) { uint64_t t = now_ms(); until = t + (deadline > t ? (deadline - t) / (laws().size() - li) : 0); }
        for (int w = 0; w < W; ++w) {
            memset(slots[w], 0, sizeof(Slot)); slots[w]->started_ms = now_ms();
            auto set = g_tmp + "/w" + std::to_string(w) + ".set"; unlink(set.c_str());
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                child_stderr(g_tmp + "/w" + std::to_string(w) + ".err");
                worker(o, li, n, w, W, slots[w], set, until);
            }
            setpgid(pid, pid);
            pids[w] = pid;
        }
        int left = W; int bad = -1; int bad_st = 0; bool bad_hang = false;
        std::vector<uint64_t> last_idx(W, ~0ull), last_t(W, now_ms());
        while (left && bad < 0) {
            for (int w = 0; w < W && bad < 0; ++w) if (alive[w]) {
                int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    alive[w] = false; --left;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = w; bad_st = st; }
                } else {
                    if (slots[w]->index != last_idx[w]) { last_idx[w] = slots[w]->index; last_t[w] = now_ms(); }
                    else if (now_ms() - last_t[w] > g_hang_ms) { kill(-pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; --left; bad = w; bad_st = st; bad_hang = true; }
                }
            }
            if (left && bad < 0) usleep(2000);
        }
        if (bad >= 0) for (int w = 0; w < W; ++w) if (alive[w]) { kill(-pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
        // statistics
        auto &s = stats[li]; std::unordered_set<uint64_t> all;
        for (int w = 0; w < W; ++w) {
            s.cases += slots[w]->done;
            for (uint32_t k = 0; k < slots[w]->nlabels; ++k) s.labels[slots[w]->labels[k].name] += slots[w]->labels[k].n;
            auto set = g_tmp + "/w" + std::to_string(w) + ".set";
            if (FILE *f = fopen(set.c_str(), "rb")) {
                uint64_t h; if (fread(&h, 8, 1, f) == 1) s.nontrivial += h;
                while (fread(&h, 8, 1, f) == 1) all.insert(h);
                fclose(f);
            }
        }
        s.distinct = all.size(); s.capped = bad < 0 && s.cases < n;
        if (bad >= 0) {
            Slot *b = slots[bad];
            fail = Failure{}; fail.law = li; fail.index = b->index; fail.w = bad; fail.W = W; fail.seed = o.seed;
            fail.choices.assign(b->choices, b->choices + b->nchoices);
            while (!fail.choices.empty() && fail.choices.back() == 0) fail.choices.pop_back();
            fail.msg = b->state == FAILED ? std::string(b->msg) : status_text(bad_st, bad_hang) + "\n" + slurp_tail(g_tmp + "/w" + std::to_string(bad) + ".err");
            int rep = 0; std::string m;
            bool racy = l.flags & RACY;
            auto r0 = run_forked(li, fail.choices, false);
            for (uint64_t k = 0, t = now_ms(); racy && r0.ok && k < 150 && now_ms() - t < 60000; ++k) r0 = run_forked(li, fail.choices, false);
            if (racy) {
                // a wrong result or a reported race is conclusive by itself; a signal or a hang has to be seen again
                bool conclusive = b->state == FAILED && (b->msg[0] && strncmp(b->msg, "killed", 6) != 0);
                if (!r0.ok) { fail.msg = r0.msg; shrink(fail); }
                fail.reproduced = conclusive || !r0.ok; rep = fail.reproduced ? 3 : 0;
                fail.trace = run_forked(li, fail.choices, true).trace;
            } else if (!r0.ok) {
                ++rep; fail.msg = r0.msg;
                shrink(fail);
                rep = 0; for (int k = 0; k < 3; ++k) { auto r = run_forked(li, fail.choices, false); if (!r.ok) { ++rep; fail.msg = r.msg; } }
                fail.trace = run_forked(li, fail.choices, true).trace;
            } else {
                fail.mode = "prefix";
                for (int k = 0; k < 3; ++k) if (!run_prefix(fail, o, m)) { ++rep; fail.msg = m; }
            }
            fail.reproduced = rep == 3;
            if (fail.reproduced) failed = true;
            else { ++inconclusive; inconclusive_msg = fail.msg; fprintf(stderr, "note: a failure of %s did not reproduce (%d/3): %s\n", l.name, rep, fail.msg.c_str()); }
        }
        // samples: the first non-trivial cases of this law, written out
        if (!failed) {
            int want = 2;
            for (uint64_t i = 0; i < std::min<uint64_t>(n, 60) && want; ++i) {
                // regenerate the choices of case i in a child, with tracing
                static Slot *slot = new_slot(); memset(slot, 0, sizeof *slot); fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) { child_stderr(g_tmp + "/case.err"); S = slot; g_trace = true; g_rng = case_seed(o, li, i); g_replay = nullptr; execute(l); _exit(0); }
                bool hang; wait_child(pid, hang);
                if (slot->nontrivial && slot->trace_len) {
                    std::string t(slot->trace, slot->trace_len); if (t.size() > 1200) { t.resize(1200); t += "..."; }
                    s.samples.push_back(t); --want;
                }
            }
        }
    }

    // known findings
    std::vector<int> present(probes().size(), 0);
    for (size_t i = 0; i < probes().size(); ++i) {
        if (!o.only.empty()) break;
        fflush(nullptr); pid_t pid = fork();
        if (pid == 0) {
            child_stderr(g_tmp + "/probe.err"); S = new_slot();
            bool p = false; try { p = probes()[i].fn(); } catch (...) { p = probes()[i].crash_means_present; }
            _exit(p ? 42 : 0);
        }
        bool hang; int st = wait_child(pid, hang);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) present[i] = 1;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) present[i] = 0;
        else present[i] = probes()[i].crash_means_present ? 1 : 0;
    }

    std::string replay = failed ? write_replay(fail, o) : "";
    FILE *f = o.out.empty() ? stdout : fopen(o.out.c_str(), "wb");
    if (!f) { perror("out"); return 3; }
    fprintf(f, "{\"laws\":[");
    bool first = true;
    for (size_t i = 0; i < laws().size(); ++i) {
        auto &s = stats[i]; if (!o.only.empty() && o.only != laws()[i].name) continue;
        fprintf(f, "%s\n {\"name\":%s,\"rule\":%s,\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"capped\":%s,\"labels\":{", first ? "" : ",",
                json_str(laws()[i].name).c_str(), json_str(laws()[i].rule).c_str(), (unsigned long long)s.cases,
                (unsigned long long)s.nontrivial, (unsigned long long)s.distinct, s.capped ? "true" : "false");
        first = false; bool fl = true;
        for (auto &kv: s.labels) { fprintf(f, "%s%s:%llu", fl ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second); fl = false; }
        fprintf(f, "},\"samples\":["); fl = true;
        for (auto &t: s.samples) { fprintf(f, "%s%s", fl ? "" : ",", json_str(t).c_str()); fl = false; }
        fprintf(f, "]}");
    }
    fprintf(f, "],\n\"probes\":[");
    for (size_t i = 0; i < probes().size(); ++i)
        fprintf(f, "%s{\"id\":%s,\"what\":%s,\"present\":%s}", i ? "," : "", json_str(probes()[i].id).c_str(), json_str(probes()[i].what).c_str(), present[i] ? "true" : "false");
    fprintf(f, "],\n\"inconclusive\":%llu,\"inconclusive_msg\":%s,\n\"failure\":", (unsigned long long)inconclusive, json_str(inconclusive_msg).c_str());
    if (failed)
        fprintf(f, "{\"law\":%s,\"msg\":%s,\"trace\":%s,\"replay\":%s,\"mode\":%s,\"shrink_runs\":%llu,\"choices\":%zu}", json_str(laws()[fail.law].name).c_str(),
                json_str(fail.msg).c_str(), json_str(fail.trace).c_str(), json_str(replay).c_str(), json_str(fail.mode).c_str(), (unsigned long long)fail.shrink_runs, fail.choices.size());
    else fprintf(f, "null");
    fprintf(f, "}\n");
    if (f != stdout) fclose(f);
    cleanup();
    return failed ? 1 : 0;
}

} // namespace pbt

// ------------------------------------------------------------------------------------------------
// heap accounting
#ifndef PBT_NO_HEAP
// blocks from the aligned operator new: they must go back through the aligned operator delete
static bool aligned_blocks(void *p, int op)        // 1: add, -1: remove (true if it was there)
{
    static std::atomic_flag lock = ATOMIC_FLAG_INIT; static void *tab[1024]; static std::atomic<int> n{0};
    if (op < 0 && n.load(std::memory_order_relaxed) == 0) return false;
    while (lock.test_and_set(std::memory_order_acquire)) {}
    bool r = false; int k = n.load(std::memory_order_relaxed);
    if (op > 0) { if (k == 1024) abort(); tab[k] = p; n = k + 1; }
    else for (int i = 0; i < k; ++i) if (tab[i] == p) { tab[i] = tab[k - 1]; n = k - 1; r = true; break; }
    lock.clear(std::memory_order_release);
    return r;
}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_poison_memory_region(void const volatile *, std::size_t); extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#define PBT_POISON(P, N) __asan_poison_memory_region(P, N)
#define PBT_UNPOISON(P, N) __asan_unpoison_memory_region(P, N)
#else
#define PBT_POISON(P, N) ((void)0)
#define PBT_UNPOISON(P, N) ((void)0)
#endif
static void *pbt_alloc(std::size_t n, std::size_t al)
{
    if (pbt::g_alloc_countdown > 0 && --pbt::g_alloc_countdown == 0) { pbt::g_alloc_countdown = -2; throw std::bad_alloc{}; }
    // ordinary blocks are never aligned better than promised, and what lies before them is poisoned
    void *p = al <= alignof(std::max_align_t) ? malloc((n ? n : 1) + (al > 1 ? 0 : 32)) : aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) throw std::bad_alloc{};
    if (al <= 1) { auto *r = (char *)p + ((std::uintptr_t)p % 32 ? 32 : 16); r[-1] = (char)(r - (char *)p); p = r; PBT_POISON(r - 16, 16); }
    if (al > 1) aligned_blocks(p, 1);
    ++pbt::g_live_blocks; ++pbt::g_alloc_total;
    return p;
}
void *operator new(std::size_t n) { return pbt_alloc(n, 1); }
void *operator new[](std::size_t n) { return pbt_alloc(n, 1); }
void *operator new(std::size_t n, std::align_val_t a) { return pbt_alloc(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return pbt_alloc(n, (std::size_t)a); }
static void pbt_free(void *p, bool aligned = false) noexcept
{
    if (!p) return;
    bool was = aligned_blocks(p, -1);
    if (was != aligned) ++pbt::g_align_mismatches;
    --pbt::g_live_blocks; if (!was) { PBT_UNPOISON((char *)p - 16, 16); p = (char *)p - ((char *)p)[-1]; } free(p);
}
void operator delete(void *p) noexcept { pbt_free(p); }
void operator delete[](void *p) noexcept { pbt_free(p); }
void operator delete(void *p, std::size_t) noexcept { pbt_free(p); }
void operator delete[](void *p, std::size_t) noexcept { pbt_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { pbt_free(p, true); }
void operator delete[](void *p, std::align_val_t) noexcept { pbt_free(p, true); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { pbt_free(p, true); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { pbt_free(p, true); }
#endif

extern "C" char const *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=1:symbolize=0"; }
extern "C" char const *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
