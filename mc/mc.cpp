// mc.cpp: the explorer (see mc.h).
#include "mc.h"
#include <cstdarg>
#include <atomic>
#include <map>
#include <set>
#include <deque>
#include <ctime>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

extern "C" const char *__asan_default_options(void)
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:"
           "handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:"
           "malloc_context_size=6:max_malloc_fill_size=0:symbolize=1:detect_odr_violation=0:"
           "allocator_release_to_os_interval_ms=-1";
}

namespace mc {

static std::vector<Space> spaces;
static std::vector<std::string> assumptions;
static const int MSG = 8192;

struct Slot {
    std::atomic<uint64_t> cur;       // execution being run
    std::atomic<uint64_t> started;   // its number within this worker, to notice progress
    std::atomic<uint64_t> transitions, traces, cases;
    std::atomic<uint64_t> outcomes[32];
    char msg[MSG];
};
static const uint64_t TAB = 1ULL << 25;
struct Shared {
    std::atomic<uint64_t> states, full;
    Slot slot[64];
};
static Shared *sh;
static std::atomic<uint64_t> *table;
static Slot *me;
static bool tracing_worker = false;
static const char *oname[32];

static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

std::string fmt(const char *f, ...)
{
    char buf[16384]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
    return buf;
}
void add(const std::string &name, uint64_t n, std::function<void(uint64_t)> run,
         std::function<std::string(uint64_t)> desc, uint64_t chunk)
{
    for (auto &s : spaces) if (s.name == name) { fprintf(stderr, "duplicate space %s\n", name.c_str()); exit(2); }
    if (n) spaces.push_back(Space{name, n, run, desc, chunk});
}
void assume(const std::string &t) { assumptions.push_back(t); }

void fail(const char *f, ...)
{
    va_list a; va_start(a, f); vsnprintf(me->msg, MSG, f, a); va_end(a);
    if (!tracing_worker) fprintf(stderr, "FAIL: %s\n", me->msg);
    _exit(77);
}
static void insert_state(uint64_t h)
{
    if (!h) h = 1;
    if (sh->states.load(std::memory_order_relaxed) > TAB * 7 / 10) { sh->full = 1; return; }
    uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> 39;     // 25 bits
    for (;;) {
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (table[i].compare_exchange_strong(v, h)) { sh->states++; return; }
            if (v == h) return;
        }
        i = (i + 1) & (TAB - 1);
    }
}
void step(uint64_t o) { me->transitions.fetch_add(1, std::memory_order_relaxed); insert_state(o); }
void nstep(uint64_t c) { me->transitions.fetch_add(c, std::memory_order_relaxed); }
void trace() { me->traces.fetch_add(1, std::memory_order_relaxed); }
void outcome(unsigned k) { me->outcomes[k & 31].fetch_add(1, std::memory_order_relaxed); }
void outcome_name(unsigned k, const char *n) { oname[k & 31] = n; }

static std::string logname(int slot) { const char *d = getenv("MC_TMP"); return fmt("%s/mc.%d.%d.err", d ? d : "/tmp", (int) getpid(), slot); }
static std::string slurp(const std::string &f, size_t max)
{
    std::string s; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return s;
    char buf[4096]; size_t k;
    while ((k = fread(buf, 1, sizeof buf, fp)) > 0 && s.size() < max) s.append(buf, k);
    fclose(fp); return s;
}

static pid_t launch(int slot, const Space &s, uint64_t a, uint64_t b, const std::string &log)
{
    Slot &sl = sh->slot[slot];
    sl.cur = a; sl.started = 0; sl.msg[0] = 0;
    pid_t p = fork();
    if (p) return p;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &sl; tracing_worker = true;
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); if (getenv("MC_KEEP_STDOUT") == nullptr) dup2(fd, 1); close(fd); }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN);
    for (uint64_t i = a; i < b; i++) {
        sl.cur = i; sl.started++;
        s.run(i);
        sl.cases.fetch_add(1, std::memory_order_relaxed);
    }
    _exit(0);
}

struct Result { int kind; std::string msg; };   // 0 ok, 1 violation, 2 hang, 3 killed from outside
static Result judge(int st, int slot, const std::string &log)
{
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {0, ""};
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return {1, sh->slot[slot].msg};
    std::string e = slurp(log, 20000);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) return {3, "killed"};
    std::string what;
    if (WIFSIGNALED(st)) what = fmt("terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else what = fmt("exited with status %d in the middle of a call", WEXITSTATUS(st));
    size_t p = e.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) what = e.substr(p, 1500);
    else if (!e.empty()) what += ": " + e.substr(0, 600);
    return {1, what};
}
// run [a,b] alone in a fresh process; the last execution is the one of interest
static Result run_alone(const Space &s, uint64_t a, uint64_t b, double limit, uint64_t *at)
{
    std::string log = logname(63);
    pid_t p = launch(63, s, a, b + 1, log);
    double t0 = now(); int st;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); *at = sh->slot[63].cur; return {2, fmt("no answer within %g s", limit)}; }
        usleep(1000);
    }
    *at = sh->slot[63].cur;
    Result r = judge(st, 63, log);
    unlink(log.c_str());
    return r;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

struct Viol { std::string space; uint64_t index, from; std::string msg, desc, key; bool known; };

struct Running { pid_t pid; size_t sp; uint64_t a, b, seen; double since; std::string log; };

}
using namespace mc;

int main(int argc, char **argv)
{
    std::string prop, tier = "quick", out, replay, knownfile, only;
    int jobs = 8; double budget = 600, hang = 40;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = next();
        else if (a == "--tier") tier = next();
        else if (a == "--out") out = next();
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--replay") replay = next();      // space#index or space#from-index
        else if (a == "--known") knownfile = next();
        else if (a == "--only") only = next();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (jobs < 1) jobs = 1; 
    if (jobs > 60) jobs = 60;
    sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = (std::atomic<uint64_t> *) mmap(0, TAB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    me = &sh->slot[62];
    double t0 = now();
    register_spaces(prop, tier == "thorough");
    if (spaces.empty()) { fprintf(stderr, "no spaces for %s\n", prop.c_str()); return 2; }

    if (!replay.empty()) {
        size_t h = replay.rfind('#');
        std::string nm = replay.substr(0, h), ix = replay.substr(h + 1);
        uint64_t from, idx; size_t d = ix.find('-');
        if (d == std::string::npos) from = idx = strtoull(ix.c_str(), 0, 10);
        else { from = strtoull(ix.c_str(), 0, 10); idx = strtoull(ix.c_str() + d + 1, 0, 10); }
        for (auto &s : spaces) if (s.name == nm) {
            printf("replaying %s#%llu: %s\n", nm.c_str(), (unsigned long long) idx, s.desc(idx).c_str());
            uint64_t at; Result r = run_alone(s, from, idx, 300, &at);
            if (r.kind == 0) { printf("held\n"); return 0; }
            printf("VIOLATED at %llu: %s\n", (unsigned long long) at, r.msg.c_str());
            return 1;
        }
        fprintf(stderr, "no such space: %s\n", nm.c_str()); return 2;
    }

    std::set<std::string> known;
    if (!knownfile.empty()) {
        std::string k = slurp(knownfile, 1 << 20); size_t p = 0;
        while (p < k.size()) { size_t e = k.find('\n', p); if (e == std::string::npos) e = k.size(); if (e > p) known.insert(k.substr(p, e - p)); p = e + 1; }
    }

    std::vector<Viol> viols; std::vector<std::string> notes;
    std::map<std::string, uint64_t> done;
    std::vector<Running> run(jobs, Running{0, 0, 0, 0, 0, 0, ""});
    size_t sp = 0; uint64_t pos = 0; int nviol = 0, killed = 0; bool stop = false, outoftime = false;
    std::deque<std::tuple<size_t, uint64_t, uint64_t>> redo;
    auto chunk_of = [&](const Space &s) -> uint64_t {
        if (s.chunk) return s.chunk;
        uint64_t c = s.n / (uint64_t) (jobs * 8);
        if (c < 1) c = 1; 
        if (c > 50000) c = 50000;
        return c;
    };
    int active = 0;
    for (;;) {
        for (int k = 0; k < jobs && !stop; k++) {
            if (run[k].pid) continue;
            size_t s; uint64_t a, b;
            if (!redo.empty()) { std::tie(s, a, b) = redo.front(); redo.pop_front(); }
            else {
                while (sp < spaces.size() && (pos >= spaces[sp].n || (!only.empty() && spaces[sp].name != only))) { sp++; pos = 0; }
                if (sp >= spaces.size()) break;
                if (now() - t0 > budget) { outoftime = true; break; }
                s = sp; a = pos; b = std::min(spaces[sp].n, pos + chunk_of(spaces[sp])); pos = b;
            }
            std::string log = logname(k);
            run[k] = Running{launch(k, spaces[s], a, b, log), s, a, b, 0, now(), log};
            active++;
        }
        if (!active) break;
        bool progress = false;
        for (int k = 0; k < jobs && !stop; k++) {
            if (!run[k].pid) continue;
            int st; pid_t r = waitpid(run[k].pid, &st, WNOHANG);
            Running R = run[k];
            bool hung = false;
            if (r == 0) {
                uint64_t s = sh->slot[k].started;
                if (s != R.seen) { run[k].seen = s; run[k].since = now(); continue; }
                if (now() - R.since < hang) continue;
                kill(R.pid, SIGKILL); waitpid(R.pid, &st, 0); hung = true;
            }
            progress = true;
            run[k].pid = 0; active--;
            uint64_t idx = sh->slot[k].cur;
            Result res = hung ? Result{2, "hang"} : judge(st, k, R.log);
            unlink(R.log.c_str());
            if (res.kind == 0) { done[spaces[R.sp].name] += R.b - R.a; continue; }
            if (res.kind == 3) {
                if (++killed > 20) { fprintf(stderr, "workers keep being killed\n"); return 3; }
                redo.emplace_back(R.sp, R.a, R.b); continue;
            }
            // replay before report
            const Space &S = spaces[R.sp];
            uint64_t at, from = idx;
            Result r2 = run_alone(S, idx, idx, 2.5 * hang, &at);
            if (r2.kind == 0 && !hung) { from = R.a; r2 = run_alone(S, R.a, idx, 4 * hang, &at); idx = r2.kind ? at : idx; }
            if (r2.kind == 3) { redo.emplace_back(R.sp, idx, R.b); continue; }
            if (r2.kind == 0 && hung) {
                notes.push_back(fmt("slow case %s#%llu answered when run alone", S.name.c_str(), (unsigned long long) idx));
            } else {
                if (r2.kind == 0) { r2 = res; r2.msg += " [seen once; neither the case alone nor its chunk reproduced it]"; }
                Viol v{S.name, idx, from, r2.kind == 2 ? "the call does not terminate: " + r2.msg : r2.msg, S.desc(idx), fmt("%s#%llu", S.name.c_str(), (unsigned long long) idx), false};
                v.known = known.count(v.key) > 0;
                if (!v.known) { nviol++; if (r2.kind == 2) stop = true; }      // a call that does not end: one is enough
                viols.push_back(v);
            }
            done[S.name] += idx + 1 - R.a;
            if (nviol >= 3 || stop) { stop = true; redo.clear(); }
            else if (idx + 1 < R.b) redo.emplace_back(R.sp, idx + 1, R.b);
        }
        if (stop) { for (auto &q : run) if (q.pid) { kill(q.pid, SIGKILL); int st; waitpid(q.pid, &st, 0); unlink(q.log.c_str()); } break; }
        if (!progress) usleep(2000);
    }

    uint64_t tr = 0, tc = 0, cs = 0, oc[32] = {0};
    for (int k = 0; k < 62; k++) {
        tr += sh->slot[k].transitions; tc += sh->slot[k].traces; cs += sh->slot[k].cases;
        for (int j = 0; j < 32; j++) oc[j] += sh->slot[k].outcomes[j];
    }
    bool complete = !stop && !outoftime && only.empty();
    std::string J = "{\n";
    J += fmt(" \"states\": %llu,\n \"states_counter_full\": %s,\n \"transitions\": %llu,\n \"traces\": %llu,\n \"executions\": %llu,\n \"exhaustive\": %s,\n \"wall_s\": %.2f,\n",
        (unsigned long long) sh->states, sh->full ? "true" : "false", (unsigned long long) tr, (unsigned long long) tc, (unsigned long long) cs, complete ? "true" : "false", now() - t0);
    J += " \"outcomes\": {";
    bool first = true;
    for (int j = 0; j < 32; j++) if (oc[j] && oname[j]) { J += fmt("%s%s: %llu", first ? "" : ", ", jstr(oname[j]).c_str(), (unsigned long long) oc[j]); first = false; }
    J += "},\n \"spaces\": [";
    first = true;
    for (auto &s : spaces) {
        if (!only.empty() && s.name != only) continue;
        J += fmt("%s\n  {\"name\": %s, \"size\": %llu, \"done\": %llu}", first ? "" : ",", jstr(s.name).c_str(), (unsigned long long) s.n, (unsigned long long) done[s.name]); first = false;
    }
    J += "],\n \"samples\": ["; first = true;
    for (auto &s : spaces) {
        if (!only.empty() && s.name != only) continue;
        J += fmt("%s\n  %s", first ? "" : ",", jstr(s.name + "#" + std::to_string(s.n / 2) + ": " + s.desc(s.n / 2)).c_str()); first = false;
    }
    J += "],\n \"assumptions\": ["; first = true;
    for (auto &s : assumptions) { J += (first ? "" : ", ") + jstr(s); first = false; }
    J += "],\n \"notes\": ["; first = true;
    for (auto &s : notes) { J += (first ? "" : ", ") + jstr(s); first = false; }
    J += "],\n \"violations\": ["; first = true;
    for (auto &v : viols) {
        J += fmt("%s\n  {\"space\": %s, \"index\": %llu, \"from\": %llu, \"key\": %s, \"known\": %s, \"case\": %s, \"what\": %s}", first ? "" : ",",
            jstr(v.space).c_str(), (unsigned long long) v.index, (unsigned long long) v.from, jstr(v.key).c_str(), v.known ? "true" : "false", jstr(v.desc).c_str(), jstr(v.msg).c_str());
        first = false;
    }
    J += "]\n}\n";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(J.c_str(), f); fclose(f); }
    else fputs(J.c_str(), stdout);
    return nviol ? 1 : 0;
}
