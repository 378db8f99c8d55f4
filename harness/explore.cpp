#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static const int TAPE_MAX = 400;
static const int MAXW = 16;
static const int STK = 60000;
static const int QMAX = 4096;
static const int MAXF = 96;
static const int MAXS = 24;
static const uint32_t HSZ = 1u << 22;

struct Task {
    uint16_t scen, len, cost, lastn;
    uint8_t tape[TAPE_MAX];
};
struct Finding {
    uint16_t scen, len, cost;
    uint8_t tape[TAPE_MAX];
    char key[240];
    char msg[1600];
    uint64_t count;
};
struct Worker {
    volatile int pid;
    volatile int busy;
    volatile int running; // executing a task right now
    Task cur;
    uint16_t live_len;
    uint8_t live[TAPE_MAX], live_n[TAPE_MAX], live_c[TAPE_MAX];
    int sp;
    Task stack[STK];
};
struct Shared {
    pthread_mutex_t mu;
    int qn;
    Task q[QMAX];
    std::atomic<int> idle;
    std::atomic<int> stop;
    std::atomic<double> soft; // explore no longer after an unknown violation
    std::atomic<int> overflow;
    std::atomic<int> long_tape;
    std::atomic<int> nondet;
    std::atomic<uint64_t> execs, steps, evals, states, points, devs;
    std::atomic<uint64_t> sexecs[512];
    std::atomic<uint64_t> sleft[512];
    std::atomic<uint64_t> outcomes;
    int nf;
    Finding f[MAXF];
    int ns;
    char samples[MAXS][1200];
    std::atomic<uint64_t> ht[HSZ];
    Worker w[MAXW];
};

static Shared *S;
static std::vector<Scenario> scen;
static bool g_thorough;
static uint64_t g_seed = 1;
static Worker *me;
static int g_nworkers = 8;
static bool g_replay;
static std::string g_workdir = ".";
static double g_deadline;

// current execution
struct Point {
    uint8_t n, cost;
};
static Task cur;
static uint8_t tape[TAPE_MAX];
static Point pts[TAPE_MAX];
static int npts;
static bool exec_failed;
static int exec_scen;
static bool in_exec;
static uint64_t ticks;
static std::string replay_key;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t fnv(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

std::string printable(const std::string &s, size_t max)
{
    std::string r;
    for (unsigned char c : s) {
        if (r.size() >= max) {
            r += "...";
            break;
        }
        if (c >= 32 && c < 127 && c != '\\')
            r += (char)c;
        else
            r += fmt("\\x%02x", c);
    }
    return r;
}

bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }
bool tracing() { return g_replay; }

static int choose_(int n, int cost, const char *label)
{
    if (n < 1 || n > 250) {
        fprintf(stderr, "mc: bad choose(%d) %s\n", n, label);
        _exit(99);
    }
    if (n == 1)
        return 0;
    if (npts >= TAPE_MAX - 1) {
        S->long_tape = 1;
        return 0;
    }
    int v = 0;
    if (npts < cur.len) {
        v = cur.tape[npts];
        if (v >= n || (npts == cur.len - 1 && cur.lastn && n != cur.lastn)) {
            fprintf(stderr,
                    "mc: nondeterminism in scenario %s at point %d (%s): "
                    "choice %d of %d (expected %d)\n",
                    scen[exec_scen].name.c_str(), npts, label, v, n,
                    cur.lastn);
            S->nondet = 1;
            _exit(99);
        }
    }
    tape[npts] = v;
    pts[npts].n = n;
    pts[npts].cost = cost;
    npts++;
    if (me) {
        me->live[npts - 1] = v;
        me->live_n[npts - 1] = n;
        me->live_c[npts - 1] = cost;
        me->live_len = npts;
    }
    S->points++;
    if (g_replay && (v || !cost))
        printf("    [choice %d] %s = %d of %d\n", npts - 1, label, v, n);
    return v;
}
int choose(int n, const char *l) { return choose_(n, 0, l); }
int deviate(int n, const char *l) { return choose_(n, 1, l); }
int deviate_cost(int n, int c, const char *l) { return choose_(n, c, l); }

static void put_finding(int sc, const uint8_t *t, int len, int cost,
                        const char *key, const char *msg)
{
    static const char *known = getenv("MC_KNOWN");
    pthread_mutex_lock(&S->mu);
    int i;
    for (i = 0; i < S->nf; i++)
        if (!strcmp(S->f[i].key, key))
            break;
    if (S->soft == 0 &&
        !(known && strstr(known, (std::string("\n") + key + "\n").c_str())))
        S->soft = now() + 60;
    if (i < MAXF) {
        Finding *f = &S->f[i];
        bool better = i == S->nf || cost < f->cost ||
                      (cost == f->cost && len < f->len);
        if (i == S->nf) {
            f->count = 0;
            S->nf++;
        }
        f->count++;
        if (better) {
            f->scen = sc;
            f->len = len;
            f->cost = cost;
            memcpy(f->tape, t, len);
            snprintf(f->key, sizeof f->key, "%s", key);
            snprintf(f->msg, sizeof f->msg, "%s", msg);
        }
    }
    pthread_mutex_unlock(&S->mu);
}

void fail(const std::string &key, const char *f, ...)
{
    char b[1600];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    char k[240];
    snprintf(k, sizeof k, "%s", key.c_str());
    if (!in_exec) {
        fprintf(stderr, "mc: fail outside execution: %s: %s\n", k, b);
        _exit(99);
    }
    exec_failed = true;
    if (g_replay) {
        printf("FAIL key=%s :: %s\n", k, b);
        fflush(stdout);
        return;
    }
    int cost = 0;
    for (int i = 0; i < npts; i++)
        if (tape[i])
            cost += pts[i].cost;
    put_finding(exec_scen, tape, npts, cost, k, b);
}
bool failed() { return exec_failed; }

void step(uint64_t n) { S->steps += n; }
void evaluated(uint64_t n) { S->evals += n; }
void state(uint64_t h)
{
    if (!h)
        h = 1;
    uint32_t i = (uint32_t)(h ^ (h >> 29)) & (HSZ - 1);
    for (int k = 0; k < 64; k++) {
        uint64_t v = S->ht[i].load(std::memory_order_relaxed);
        if (v == h)
            return;
        if (v == 0) {
            uint64_t z = 0;
            if (S->ht[i].compare_exchange_strong(z, h)) {
                S->states++;
                return;
            }
            if (z == h)
                return;
        }
        i = (i + 1) & (HSZ - 1);
    }
}
void trace(const char *f, ...)
{
    if (!g_replay)
        return;
    va_list ap;
    va_start(ap, f);
    vprintf(f, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
}
void sample(const std::string &s)
{
    if (S->ns >= MAXS)
        return;
    pthread_mutex_lock(&S->mu);
    if (S->ns < MAXS) {
        int dup = 0;
        for (int i = 0; i < S->ns; i++)
            if (!strncmp(S->samples[i], s.c_str(), 40))
                dup++;
        if (dup < 1) {
            snprintf(S->samples[S->ns], sizeof S->samples[0], "%s", s.c_str());
            S->ns++;
        }
    }
    pthread_mutex_unlock(&S->mu);
}

void add(const std::string &name, std::function<void()> fn, int qb, int tb)
{
    Scenario s;
    s.name = name;
    s.fn = fn;
    s.bound = g_thorough && tb >= 0 ? tb : qb;
    scen.push_back(s);
}

void tick()
{
    if (++ticks > 400000) {
        static const char m[] = "\nMC-SPIN: the code under test makes system "
                                "calls without end inside one call\n";
        if (write(2, m, sizeof m - 1) < 0) {
        }
        if (g_replay) {
            printf("FAIL key=hang :: endless loop of system calls\n");
            fflush(stdout);
        }
        _exit(97);
    }
}
void tick_reset() { ticks = 0; }

static void on_vtalrm(int)
{
    static const char m[] = "\nMC-HANG: execution does not terminate\n";
    if (write(2, m, sizeof m - 1) < 0) {
    }
    if (g_replay) {
        static const char k[] =
            "FAIL key=hang :: execution does not terminate (CPU limit)\n";
        if (write(1, k, sizeof k - 1) < 0) {
        }
    }
    _exit(97);
}
static void arm(double secs)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)secs;
    setitimer(ITIMER_PROF, &it, NULL);
}

void allow_secs(double s) { arm(s); }

static void run_exec(int sc, double limit)
{
    npts = 0;
    exec_failed = false;
    exec_scen = sc;
    ticks = 0;
    if (me)
        me->live_len = 0;
    arm(limit);
    in_exec = true;
    scen[sc].fn();
    in_exec = false;
    arm(0);
    if (npts < cur.len) {
        fprintf(stderr, "mc: nondeterminism in %s: only %d of %d choices used\n",
                scen[sc].name.c_str(), npts, cur.len);
        S->nondet = 1;
        _exit(99);
    }
    S->execs++;
    S->sexecs[sc]++;
}

static bool pop_shared(Task &t)
{
    pthread_mutex_lock(&S->mu);
    bool ok = S->qn > 0;
    if (ok)
        t = S->q[--S->qn];
    pthread_mutex_unlock(&S->mu);
    return ok;
}

static void worker_loop(int id)
{
    me = &S->w[id];
    char fn[512];
    snprintf(fn, sizeof fn, "%s/w%d.err", g_workdir.c_str(), id);
    int fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    close(fd);
    signal(SIGPROF, on_vtalrm);
    bool counted_idle = false;
    while (!S->stop) {
        Task t;
        if (me->sp > 0) {
            t = me->stack[--me->sp];
        } else if (pop_shared(t)) {
            if (counted_idle) {
                S->idle--;
                counted_idle = false;
            }
        } else {
            if (!counted_idle) {
                S->idle++;
                counted_idle = true;
            }
            if (S->idle >= g_nworkers) {
                pthread_mutex_lock(&S->mu);
                int n = S->qn;
                pthread_mutex_unlock(&S->mu);
                if (!n)
                    break;
            }
            usleep(200);
            continue;
        }
        if (now() > g_deadline || (S->soft > 0 && now() > S->soft)) {
            S->sleft[t.scen]++;
            S->stop = 2;
            // drain: count what remains
            break;
        }
        me->cur = t;
        me->running = 1;
        cur = t;
        run_exec(t.scen, 20);
        me->running = 0;
        if (npts == 0)
            continue;
        int cost = 0;
        // cost of prefix
        std::vector<int> pc(npts + 1, 0);
        for (int i = 0; i < npts; i++) {
            cost += tape[i] ? pts[i].cost : 0;
            pc[i + 1] = cost;
        }
        for (int i = npts - 1; i >= (int)t.len; i--) {
            if (pc[i] + pts[i].cost > scen[t.scen].bound)
                continue;
            for (int a = pts[i].n - 1; a >= 1; a--) {
                if (me->sp >= STK) {
                    S->overflow = 1;
                    break;
                }
                Task &nt = me->stack[me->sp];
                nt.scen = t.scen;
                nt.len = i + 1;
                memcpy(nt.tape, tape, i);
                nt.tape[i] = a;
                nt.lastn = pts[i].n;
                nt.cost = pc[i] + pts[i].cost;
                me->sp++;
            }
        }
        // donate work from the bottom of the stack
        if (S->qn < g_nworkers && me->sp > 1) {
            pthread_mutex_lock(&S->mu);
            int give = std::min(4, me->sp / 2);
            while (give-- > 0 && S->qn < QMAX) {
                S->q[S->qn++] = me->stack[0];
                me->stack[0] = me->stack[me->sp - 1];
                me->sp--;
            }
            pthread_mutex_unlock(&S->mu);
        }
    }
    fflush(stdout);
    _exit(0);
}

// derive a signature from a sanitizer report
static std::string crash_key(const std::string &err, int status)
{
    if (WIFEXITED(status) && WEXITSTATUS(status) == 97)
        return "hang";
    size_t p = err.find("MC-ABORT: ");
    if (p != std::string::npos) {
        size_t e = err.find('\n', p);
        return "abort:" + err.substr(p + 10, e - p - 10);
    }
    p = err.find("SUMMARY: AddressSanitizer: ");
    std::string kind, func;
    if (p != std::string::npos) {
        size_t e = err.find('\n', p);
        std::string l = err.substr(p + 27, e - p - 27);
        kind = l.substr(0, l.find(' '));
    } else if ((p = err.find("runtime error: ")) != std::string::npos) {
        kind = "ub";
    } else if (err.find("Assertion") != std::string::npos) {
        kind = "assert";
    } else if (WIFSIGNALED(status)) {
        kind = fmt("signal-%d", WTERMSIG(status));
    } else
        kind = fmt("exit-%d", WEXITSTATUS(status));
    // first stack frame that lies in the library
    size_t q = 0;
    while ((q = err.find("\n    #", q)) != std::string::npos) {
        size_t e = err.find('\n', q + 1);
        std::string l = err.substr(q, e - q);
        size_t in = l.find(" in ");
        if (l.find("/src/") != std::string::npos &&
            l.find("harness") == std::string::npos &&
            l.find("sanitizer") == std::string::npos && in != std::string::npos) {
            func = l.substr(in + 4, l.find(' ', in + 4) - in - 4);
            break;
        }
        q = e;
        if (q == std::string::npos)
            break;
    }
    if (func.empty() && kind == "ub") {
        size_t b = err.rfind('\n', p);
        std::string l = err.substr(b + 1, p - b - 1);
        size_t sl = l.rfind('/');
        func = sl == std::string::npos ? l : l.substr(sl + 1);
        func = func.substr(0, func.find(':'));
    }
    return "crash:" + kind + ":" + func;
}

static std::string slurp(const std::string &fn)
{
    std::string r;
    FILE *f = fopen(fn.c_str(), "r");
    if (!f)
        return r;
    char b[8192];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
        r.append(b, n);
    fclose(f);
    return r;
}

static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
            r += fmt("\\u%04x", c);
        else
            r += c;
    }
    return r;
}

static int do_replay(const char *name, const char *tapestr)
{
    g_replay = true;
    setvbuf(stdout, NULL, _IOLBF, 0);
    int sc = -1;
    for (size_t i = 0; i < scen.size(); i++)
        if (scen[i].name == name)
            sc = i;
    if (sc < 0) {
        fprintf(stderr, "no scenario %s\n", name);
        return 2;
    }
    memset(&cur, 0, sizeof cur);
    cur.scen = sc;
    const char *p = tapestr;
    while (*p) {
        cur.tape[cur.len++] = strtol(p, (char **)&p, 10);
        if (*p == ',')
            p++;
    }
    cur.lastn = 0;
    signal(SIGPROF, on_vtalrm);
    printf("REPLAY scenario=%s\n", name);
    run_exec(sc, 60);
    printf("REPLAY-DONE failed=%d\n", exec_failed);
    return 0;
}
} // namespace mc

using namespace mc;

// usage: check --out FILE --workdir DIR --secs N --tier quick|thorough
//        check --replay SCENARIO TAPE
int main(int argc, char **argv)
{
    std::string out = "";
    double secs = 600;
    const char *rs = NULL, *rt = NULL;
    std::string only;
    bool list = false;
    int maxfind = MAXF;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out")
            out = argv[++i];
        else if (a == "--workdir")
            g_workdir = argv[++i];
        else if (a == "--secs")
            secs = atof(argv[++i]);
        else if (a == "--tier")
            g_thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--seed")
            g_seed = strtoull(argv[++i], 0, 10);
        else if (a == "--workers")
            g_nworkers = atoi(argv[++i]);
        else if (a == "--only")
            only = argv[++i];
        else if (a == "--list")
            list = true;
        else if (a == "--replay") {
            rs = argv[++i];
            rt = argv[++i];
        }
    }
    signal(SIGPIPE, SIG_IGN);
    S = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) {
        perror("mmap");
        return 2;
    }
    pthread_mutexattr_t ma;
    pthread_mutexattr_init(&ma);
    pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&S->mu, &ma);

    register_scenarios();
    if (list) {
        for (auto &s : scen)
            printf("%s bound=%d\n", s.name.c_str(), s.bound);
        return 0;
    }
    if (rs)
        return do_replay(rs, rt);

    double t0 = now();
    g_deadline = t0 + secs;
    // simplest first: the queue is popped from its end
    for (int i = (int)scen.size() - 1; i >= 0; i--) {
        if (!only.empty() && scen[i].name.find(only) == std::string::npos)
            continue;
        Task t;
        memset(&t, 0, sizeof t);
        t.scen = i;
        S->q[S->qn++] = t;
    }
    fflush(stdout);
    std::map<int, int> pids;
    auto spawn = [&](int id) {
        int p = fork();
        if (p == 0)
            worker_loop(id);
        S->w[id].pid = p;
        pids[p] = id;
    };
    for (int i = 0; i < g_nworkers; i++)
        spawn(i);
    int crashes = 0;
    bool internal = false;
    while (!pids.empty()) {
        int st;
        int p = waitpid(-1, &st, 0);
        if (p < 0)
            break;
        if (!pids.count(p))
            continue;
        int id = pids[p];
        pids.erase(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
            internal = true;
            fprintf(stderr, "%s\n",
                    slurp(fmt("%s/w%d.err", g_workdir.c_str(), id)).c_str());
            S->stop = 1;
            continue;
        }
        // crashed while executing
        Worker *w = &S->w[id];
        std::string err = slurp(fmt("%s/w%d.err", g_workdir.c_str(), id));
        if (!w->running) {
            fprintf(stderr, "mc: worker died outside an execution\n%s\n",
                    err.c_str());
            internal = true;
            S->stop = 1;
            continue;
        }
        w->running = 0;
        std::string key = crash_key(err, st);
        std::string msg = err.substr(0, 1500);
        int pos = err.find("ERROR: AddressSanitizer");
        if (pos > 0)
            msg = err.substr(pos, 1500);
        put_finding(w->cur.scen, w->live, w->live_len, w->cur.cost, key.c_str(),
                    msg.c_str());
        S->execs++;
        S->sexecs[w->cur.scen]++;
        if (++crashes > 400) {
            fprintf(stderr, "mc: too many crashes, stopping\n");
            S->stop = 1;
            continue;
        }
        // alternatives at the choice points passed before the crash
        {
            int cost = 0, n = w->live_len;
            std::vector<int> pc(n + 1, 0);
            for (int i = 0; i < n; i++) {
                cost += w->live[i] ? w->live_c[i] : 0;
                pc[i + 1] = cost;
            }
            for (int i = n - 1; i >= (int)w->cur.len; i--) {
                if (pc[i] + w->live_c[i] > scen[w->cur.scen].bound)
                    continue;
                for (int a = w->live_n[i] - 1; a >= 1 && w->sp < STK; a--) {
                    Task &nt = w->stack[w->sp++];
                    nt.scen = w->cur.scen;
                    nt.len = i + 1;
                    memcpy(nt.tape, w->live, i);
                    nt.tape[i] = a;
                    nt.lastn = w->live_n[i];
                    nt.cost = pc[i] + w->live_c[i];
                }
            }
        }
        if (!S->stop)
            spawn(id);
    }
    (void)maxfind;
    uint64_t left = S->qn;
    for (int i = 0; i < g_nworkers; i++)
        left += S->w[i].sp;
    for (int i = 0; i < S->qn; i++)
        S->sleft[S->q[i].scen]++;
    for (int i = 0; i < g_nworkers; i++)
        for (int k = 0; k < S->w[i].sp; k++)
            S->sleft[S->w[i].stack[k].scen]++;
    double wall = now() - t0;
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\n \"execs\": %llu, \"steps\": %llu, \"evals\": %llu, "
               "\"states\": %llu, \"points\": %llu, \"wall\": %.2f,\n",
            (unsigned long long)S->execs, (unsigned long long)S->steps,
            (unsigned long long)S->evals, (unsigned long long)S->states,
            (unsigned long long)S->points, wall);
    fprintf(f, " \"internal_error\": %s, \"truncated\": %s, \"left\": %llu,\n",
            internal || S->nondet ? "true" : "false",
            S->stop == 2 || S->overflow || S->long_tape ? "true" : "false",
            (unsigned long long)left);
    fprintf(f, " \"scenarios\": [\n");
    bool first = true;
    for (size_t i = 0; i < scen.size(); i++) {
        if (!only.empty() && scen[i].name.find(only) == std::string::npos)
            continue;
        fprintf(f, "  %s{\"name\": \"%s\", \"bound\": %d, \"execs\": %llu, "
                   "\"unexplored\": %llu}",
                first ? "" : ",", jesc(scen[i].name).c_str(), scen[i].bound,
                (unsigned long long)S->sexecs[i],
                (unsigned long long)S->sleft[i]);
        fprintf(f, "\n");
        first = false;
    }
    fprintf(f, " ],\n \"samples\": [");
    for (int i = 0; i < S->ns; i++)
        fprintf(f, "%s\"%s\"", i ? ",\n  " : "", jesc(S->samples[i]).c_str());
    fprintf(f, "],\n \"findings\": [\n");
    for (int i = 0; i < S->nf; i++) {
        Finding &x = S->f[i];
        std::string ts;
        for (int k = 0; k < x.len; k++)
            ts += fmt("%s%d", k ? "," : "", x.tape[k]);
        fprintf(f, "  %s{\"scenario\": \"%s\", \"tape\": \"%s\", \"cost\": %d, "
                   "\"count\": %llu, \"key\": \"%s\", \"msg\": \"%s\"}\n",
                i ? "," : "", jesc(scen[x.scen].name).c_str(), ts.c_str(),
                x.cost, (unsigned long long)x.count, jesc(x.key).c_str(),
                jesc(x.msg).c_str());
    }
    fprintf(f, " ]\n}\n");
    if (f != stdout)
        fclose(f);
    return internal || S->nondet ? 2 : 0;
}
