#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>

// This translation unit is never instrumented.
namespace sim {

enum { MAXC = 1 << 19, MAXLOG = 1 << 18, MAXCNT = 256, MAXST = 1 << 13, MAXSC = 128 };
enum { ST_RUN = 0, ST_OK = 1, ST_VIOL = 2 };

struct Shared {
    uint32_t status;
    char cls[96];
    char msg[1500];
    char crash_cls[64];
    char asan[160];
    uint64_t hash;
    uint64_t nlogev;
    uint32_t loglen;
    uint32_t nchoice;
    uint32_t overflow;
    uint32_t ncnt;
    uint32_t nstate;
    uint64_t faults;
    uint64_t simtime;
    uint64_t steps;
    uint64_t cnt[MAXCNT];
    char names[MAXCNT][48];
    uint64_t states[MAXST];
    uint32_t choices[MAXC];
    char log[MAXLOG];
};
static Shared* S;

// run-local (child)
static uint64_t rng_s[2];
static const uint32_t* rp_list; static uint32_t rp_n, rp_pos; static bool replaying;
static uint64_t g_budget = 25ull * 1000 * 1000;
static uint32_t g_max_choices = 40000;
const char* (*crash_describer)() = nullptr;

static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t rng_next() {
    uint64_t s1 = rng_s[0], s0 = rng_s[1], r = s0 + s1;
    rng_s[0] = s0; s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) {
        v = rp_pos < rp_n ? rp_list[rp_pos++] : 0;
        if (v >= n) v %= n;
    } else {
        v = (uint32_t)((rng_next() >> 32) * (uint64_t)n >> 32);
    }
    // a run that draws this many decisions is going round in circles; ending it here keeps it repeatable
    if (S->nchoice >= g_max_choices && S->status == ST_RUN) fail("no-progress", "the run drew %u decisions without finishing", S->nchoice);
    if (S->nchoice < MAXC) S->choices[S->nchoice++] = v; else S->overflow = 1;
    return v;
}
uint32_t small(uint32_t max) {
    switch (choose(4)) {
        case 0: return choose(max < 3 ? max + 1 : 4);
        case 1: return choose(max < 9 ? max + 1 : 10);
        case 2: return choose(max < 32 ? max + 1 : 33);
        default: return choose(max + 1);
    }
}
uint64_t bits64() {
    uint64_t a = choose(1u << 22), b = choose(1u << 21), c = choose(1u << 21);
    return (a << 42) | (b << 21) | c;
}

static void hash_bytes(const char* p, size_t n) {
    uint64_t h = S->hash;
    for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 0x100000001b3ULL; }
    S->hash = h;
}
static void vlog(bool hashed, const char* fmt, va_list ap) {
    char buf[1024];
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    if (hashed) { hash_bytes(buf, n); S->nlogev++; }
    if (S->loglen + n < MAXLOG) { memcpy(S->log + S->loglen, buf, n); S->loglen += n; }
}
void log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(true, fmt, ap); va_end(ap); }
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(false, fmt, ap); va_end(ap); }
uint64_t log_hash() { return S->hash; }
int counter_id(const char* name) {
    for (uint32_t i = 0; i < S->ncnt; i++) if (!strncmp(S->names[i], name, 47)) return (int)i;
    if (S->ncnt >= MAXCNT) return -1;
    strncpy(S->names[S->ncnt], name, 47);
    return (int)S->ncnt++;
}
void count_id(int id, uint64_t by) { if (id >= 0) S->cnt[id] += by; }
void count(const char* name, uint64_t by) { count_id(counter_id(name), by); }
void fault(const char* kind) {
    char b[48]; snprintf(b, sizeof b, "fault:%s", kind); count(b); S->faults++;
    log("!fault %s", kind);
}
void probe(const char* name) { char b[48]; snprintf(b, sizeof b, "probe:%s", name); count(b); }
uint64_t faults_fired() { return S->faults; }
void state(uint64_t h) { if (S->nstate < MAXST) S->states[S->nstate++] = h; }
void sim_time(uint64_t ns) { S->simtime += ns; }

void fail(const char* cls, const char* fmt, ...) {
    if (S->status == ST_RUN) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        snprintf(S->cls, sizeof S->cls, "%s", cls);
        __sync_synchronize();
        S->status = ST_VIOL;
    }
    _exit(0);
}
void finish() { if (S->status == ST_RUN) S->status = ST_OK; _exit(0); }
void set_crash_class(const char* cls) { snprintf(S->crash_cls, sizeof S->crash_cls, "%s", cls); }
void step_budget(uint64_t n) { g_budget = n; }
void choice_budget(uint32_t n) { g_max_choices = n < MAXC ? n : (uint32_t)MAXC; }
uint64_t steps() { return S->steps; }
void bump_steps(uint64_t n) {
    if (!S) return;
    S->steps += n;
    if (S->steps > g_budget && S->status == ST_RUN) fail("no-progress", "the run took more than %llu basic-block steps without finishing", (unsigned long long)g_budget);
}

static Scenario g_sc[MAXSC]; static int g_nsc;
void add_scenario(const char* p, const char* n, void (*f)(), int w) {
    if (g_nsc >= MAXSC) { fprintf(stderr, "too many scenarios\n"); exit(2); }
    g_sc[g_nsc++] = Scenario{p, n, f, w};
}

// ---------------------------------------------------------------- parent
struct Result {
    int status;            // ST_OK / ST_VIOL
    char cls[160];
    char msg[1700];
    uint64_t hash;
};
static void on_terminate() {
    const char* what = "std::terminate";
    if (S) {
        // name the exception that escaped, when there is one
        static char b[300];
        std::exception_ptr e = std::current_exception();
        if (e) {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { snprintf(b, sizeof b, "std::terminate with an active exception: %s", x.what()); what = b; }
            catch (...) { what = "std::terminate with an active exception"; }
        }
        fail(S->crash_cls[0] ? S->crash_cls : "crash:terminate", "%s", what);
    }
    _exit(99);
}
static uint64_t run_seed(uint64_t base, const char* prop, uint64_t idx) {
    uint64_t x = base * 0x9e3779b97f4a7c15ULL + idx * 0xd1342543de82ef95ULL + 12345;
    for (const char* p = prop; *p; p++) x = (x ^ (unsigned char)*p) * 0x100000001b3ULL;
    return splitmix(x);
}
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool g_verbose;
static void run_once(const Scenario& sc, uint64_t seed, const uint32_t* list, uint32_t nlist, bool replay, Result& r) {
    S->status = ST_RUN; S->cls[0] = S->msg[0] = S->crash_cls[0] = S->asan[0] = 0;
    S->hash = 0xcbf29ce484222325ULL; S->nlogev = 0; S->loglen = 0; S->nchoice = 0; S->overflow = 0;
    S->nstate = 0; S->faults = 0; S->simtime = 0; S->steps = 0;
    memset(S->cnt, 0, sizeof(S->cnt[0]) * S->ncnt);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        rlimit rl = {20, 25}; setrlimit(RLIMIT_CPU, &rl);
        rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        alarm(120);
        if (!g_verbose) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); } }
        uint64_t x = seed; rng_s[0] = splitmix(x); rng_s[1] = splitmix(x);
        rp_list = list; rp_n = nlist; rp_pos = 0; replaying = replay;
        std::set_terminate(on_terminate);
        sc.fn();
        finish();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    r.hash = S->hash;
    if (S->status == ST_OK && WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.status = ST_OK; r.cls[0] = r.msg[0] = 0; return; }
    r.status = ST_VIOL;
    if (S->status == ST_VIOL) { snprintf(r.cls, sizeof r.cls, "%s", S->cls); snprintf(r.msg, sizeof r.msg, "%s", S->msg); return; }
    const char* pre = S->crash_cls[0] ? S->crash_cls : "crash";
    if (S->asan[0]) { snprintf(r.cls, sizeof r.cls, "%s:%s", pre, S->asan); snprintf(r.msg, sizeof r.msg, "memory error: %s", S->asan); }
    else if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGXCPU || sg == SIGKILL || sg == SIGALRM) { snprintf(r.cls, sizeof r.cls, "no-progress"); snprintf(r.msg, sizeof r.msg, "the run did not finish (signal %d)", sg); }
        else { snprintf(r.cls, sizeof r.cls, "%s:signal-%d", pre, sg); snprintf(r.msg, sizeof r.msg, "killed by signal %d", sg); }
    } else { snprintf(r.cls, sizeof r.cls, "%s:exit-%d", pre, WEXITSTATUS(st)); snprintf(r.msg, sizeof r.msg, "the process ended by itself with status %d", WEXITSTATUS(st)); }
}
void report_asan(const char* kind) { if (S && !S->asan[0]) snprintf(S->asan, sizeof S->asan, "%s", kind); }

// growable u32 list
struct List { uint32_t* p; uint32_t n; };
static List list_copy(const uint32_t* p, uint32_t n) { List l; l.p = (uint32_t*)malloc(4 * (n + 1)); memcpy(l.p, p, 4 * (size_t)n); l.n = n; return l; }

struct Min {
    const Scenario* sc; char cls[160]; List best; int tries; int max_tries; double t_end; uint64_t hash;
    bool attempt(const uint32_t* p, uint32_t n) {
        if (tries >= max_tries || now_s() > t_end) return false;
        tries++;
        Result r; run_once(*sc, 0, p, n, true, r);
        if (r.status == ST_VIOL && !strcmp(r.cls, cls)) {
            // keep what the run really consumed
            uint32_t m = S->nchoice < n ? S->nchoice : n;
            List l = list_copy(S->choices, m);
            while (l.n && l.p[l.n - 1] == 0) l.n--;
            if (l.n > best.n) { free(l.p); return true; }
            free(best.p); best = l; hash = r.hash;
            return true;
        }
        return false;
    }
    void go() {
        bool progress = true;
        while (progress && tries < max_tries && now_s() < t_end) {
            progress = false;
            // delete chunks
            for (uint32_t sz = best.n / 2 ? best.n / 2 : 1; sz >= 1; sz /= 2) {
                for (uint32_t i = 0; i + sz <= best.n && tries < max_tries;) {
                    uint32_t n = best.n - sz;
                    uint32_t* q = (uint32_t*)malloc(4 * (n + 1));
                    memcpy(q, best.p, 4 * (size_t)i); memcpy(q + i, best.p + i + sz, 4 * (size_t)(n - i));
                    uint32_t before = best.n;
                    bool ok = attempt(q, n); free(q);
                    if (ok && best.n < before) progress = true; else i += sz;
                }
                if (sz == 1) break;
            }
            // zero chunks
            for (uint32_t sz = 16; sz >= 1; sz /= 4) {
                for (uint32_t i = 0; i < best.n && tries < max_tries; i += sz) {
                    uint32_t e = i + sz < best.n ? i + sz : best.n; bool nz = false;
                    for (uint32_t k = i; k < e; k++) nz |= best.p[k] != 0;
                    if (!nz) continue;
                    List q = list_copy(best.p, best.n);
                    for (uint32_t k = i; k < e; k++) q.p[k] = 0;
                    if (attempt(q.p, q.n)) progress = true;
                    free(q.p);
                }
            }
            // lower single values
            for (uint32_t i = 0; i < best.n && tries < max_tries; i++) {
                uint32_t lo = 0, hi = best.p[i];
                while (i < best.n && lo + 1 < hi && tries < max_tries) {
                    uint32_t mid = lo + (hi - lo) / 2;
                    List q = list_copy(best.p, best.n); q.p[i] = mid;
                    bool ok = attempt(q.p, q.n); free(q.p);
                    if (ok) { progress = progress || mid < hi; hi = mid; } else lo = mid;
                }
            }
            if (progress && best.n > 400) progress = true;
        }
    }
};

static void json_str(FILE* f, const char* s, size_t n) {
    fputc('"', f);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void write_replay(const char* path, const Scenario& sc, uint64_t seed, uint64_t idx, uint64_t run, const Result& r, const List& l, const List& orig, int tries) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "{\n \"property\": \"%s\",\n \"scenario\": \"%s\",\n \"verif_seed\": %llu,\n \"run\": %llu,\n \"prng_seed\": %llu,\n",
        sc.property, sc.name, (unsigned long long)seed, (unsigned long long)idx, (unsigned long long)run);
    fprintf(f, " \"class\": "); json_str(f, r.cls, strlen(r.cls));
    fprintf(f, ",\n \"message\": "); json_str(f, r.msg, strlen(r.msg));
    fprintf(f, ",\n \"hash\": \"%016llx\",\n \"minimised_from\": %u,\n \"minimiser_runs\": %d,\n \"choices\": [", (unsigned long long)r.hash, orig.n, tries);
    for (uint32_t i = 0; i < l.n; i++) fprintf(f, "%s%u", i ? "," : "", l.p[i]);
    fprintf(f, "],\n \"trace\": [\n");
    size_t i = 0; bool first = true;
    while (i < S->loglen) {
        size_t j = i; while (j < S->loglen && S->log[j] != '\n') j++;
        fprintf(f, "%s  ", first ? "" : ",\n"); first = false;
        json_str(f, S->log + i, j - i); i = j + 1;
    }
    fprintf(f, "\n ]\n}\n");
    fclose(f);
}

// minimal reader of the replay file: scenario, property and choices
static bool read_replay(const char* path, char* prop, char* scn, char* cls, uint64_t* hash, List& l) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    static char buf[8 << 20]; size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose(f);
    auto str = [&](const char* key, char* out) { char k[64]; snprintf(k, sizeof k, "\"%s\": \"", key); char* p = strstr(buf, k); out[0] = 0; if (!p) return; p += strlen(k); int i = 0; while (*p && *p != '"' && i < 150) out[i++] = *p++; out[i] = 0; };
    str("property", prop); str("scenario", scn); str("class", cls);
    char h[160]; str("hash", h); *hash = strtoull(h, 0, 16);
    char* p = strstr(buf, "\"choices\": ["); if (!p) return false; p += 12;
    l.p = (uint32_t*)malloc(4 * MAXC); l.n = 0;
    while (*p && *p != ']') { if (*p >= '0' && *p <= '9') { l.p[l.n++] = strtoul(p, &p, 10); } else p++; }
    return true;
}

struct U64Set {
    uint64_t* t; size_t cap, n;
    U64Set() : t((uint64_t*)calloc(1 << 16, 8)), cap(1 << 16), n(0) {}
    bool add(uint64_t v) {
        if (!v) v = 1;
        if (n * 2 > cap) { size_t oc = cap; uint64_t* o = t; cap *= 2; t = (uint64_t*)calloc(cap, 8); n = 0; for (size_t i = 0; i < oc; i++) if (o[i]) add(o[i]); free(o); }
        size_t i = (v * 0x9e3779b97f4a7c15ULL) >> 20 & (cap - 1);
        while (t[i]) { if (t[i] == v) return false; i = (i + 1) & (cap - 1); }
        t[i] = v; n++; return true;
    }
};

static int usage() { fprintf(stderr, "usage: explore PROP SEED FIRST STRIDE COUNT MAXSECS OUTDIR WORKER [SCENARIO] | replay FILE | list | one PROP SCEN SEED IDX\n"); return 2; }

int main_(int argc, char** argv) {
    if (argc < 2) return usage();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    g_verbose = getenv("SIM_VERBOSE") != nullptr;
    if (!strcmp(argv[1], "list")) { for (int i = 0; i < g_nsc; i++) printf("%s %s %d\n", g_sc[i].property, g_sc[i].name, g_sc[i].weight); return 0; }
    if (!strcmp(argv[1], "replay") && argc >= 3) {
        char p[160], s[160], c[160]; uint64_t h; List l;
        if (!read_replay(argv[2], p, s, c, &h, l)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
        for (int i = 0; i < g_nsc; i++) if (!strcmp(g_sc[i].property, p) && !strcmp(g_sc[i].name, s)) {
            Result r; run_once(g_sc[i], 0, l.p, l.n, true, r);
            if (getenv("SIM_TRACE")) fwrite(S->log, 1, S->loglen, stdout);
            printf("RESULT status=%s class=%s hash=%016llx match=%d\nMESSAGE %s\n", r.status == ST_OK ? "ok" : "violation", r.cls[0] ? r.cls : "-", (unsigned long long)r.hash, r.status == ST_VIOL && !strcmp(r.cls, c) && r.hash == h, r.msg);
            return 0;
        }
        fprintf(stderr, "no scenario %s/%s\n", p, s); return 2;
    }
    if (!strcmp(argv[1], "one") && argc >= 6) {
        for (int i = 0; i < g_nsc; i++) if (!strcmp(g_sc[i].property, argv[2]) && !strcmp(g_sc[i].name, argv[3])) {
            Result r; uint64_t rs = run_seed(strtoull(argv[4], 0, 10), argv[2], strtoull(argv[5], 0, 10));
            run_once(g_sc[i], rs, nullptr, 0, false, r);
            fwrite(S->log, 1, S->loglen, stdout);
            printf("RESULT status=%d class=%s hash=%016llx choices=%u steps=%llu\nMESSAGE %s\n", r.status, r.cls, (unsigned long long)r.hash, S->nchoice, (unsigned long long)S->steps, r.msg);
        }
        return 0;
    }
    if (strcmp(argv[1], "explore") || argc < 10) return usage();
    const char* prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), cnt = strtoull(argv[6], 0, 10);
    double maxs = atof(argv[7]); const char* outdir = argv[8]; int worker = atoi(argv[9]);
    const char* only = argc > 10 ? argv[10] : nullptr;
    // weighted list of scenarios
    static int sel[1024]; int nsel = 0;
    for (int i = 0; i < g_nsc; i++) if (!strcmp(g_sc[i].property, prop) && (!only || !strcmp(only, g_sc[i].name))) for (int k = 0; k < g_sc[i].weight && nsel < 1024; k++) sel[nsel++] = i;
    if (!nsel) { fprintf(stderr, "no scenario for %s\n", prop); return 2; }
    double t0 = now_s();
    U64Set states, runs; uint64_t done = 0, choices = 0, simtime = 0, stepsum = 0, faulty = 0, logev = 0, sumhash = 0, dets = 0, detbad = 0; uint64_t maxch = 0;
    static uint64_t tot[MAXCNT]; static uint64_t per_sc[MAXSC];
    int viols = 0; static char viol_cls[16][160];
    char path[512];
    char sample[3][2048]; int nsample = 0;
    for (uint64_t k = 0; k < cnt; k++) {
        uint64_t idx = first + k * stride;
        if (now_s() - t0 > maxs) break;
        const Scenario& sc = g_sc[sel[idx % nsel]];
        uint64_t rs = run_seed(seed, prop, idx);
        Result r; run_once(sc, rs, nullptr, 0, false, r);
        done++; per_sc[sel[idx % nsel]]++;
        choices += S->nchoice; if (S->nchoice > maxch) maxch = S->nchoice; simtime += S->simtime; stepsum += S->steps; logev += S->nlogev; if (S->faults) faulty++;
        sumhash = mix(sumhash, r.hash);
        for (uint32_t i = 0; i < S->ncnt; i++) tot[i] += S->cnt[i];
        for (uint32_t i = 0; i < S->nstate; i++) states.add(S->states[i]);
        if (S->nlogev > 1 || S->nstate) runs.add(mix(r.hash, sel[idx % nsel]));
        if (nsample < 3 && S->loglen > 60 && (S->faults || k > 5)) { size_t m = S->loglen < 1500 ? S->loglen : 1500; int o = snprintf(sample[nsample], 300, "run %llu scenario %s\n", (unsigned long long)idx, sc.name); memcpy(sample[nsample] + o, S->log, m); sample[nsample][o + m] = 0; nsample++; }
        if (r.status == ST_OK && k % 64 == 7) {   // determinism gate on a sample of the passing runs
            uint64_t h = r.hash; uint32_t nc = S->nchoice; bool of = S->overflow; Result r2;
            if (!of) {
                List l = list_copy(S->choices, nc);
                run_once(sc, 0, l.p, l.n, true, r2); free(l.p); dets++;
                if (r2.hash != h || r2.status != ST_OK) { detbad++; fprintf(stderr, "NONDETERMINISM prop=%s scenario=%s run=%llu hash %016llx vs %016llx (%s)\n", prop, sc.name, (unsigned long long)idx, (unsigned long long)h, (unsigned long long)r2.hash, r2.cls); }
            }
        }
        if (r.status == ST_VIOL) {
            bool seen = false; for (int i = 0; i < viols; i++) if (!strcmp(viol_cls[i], r.cls)) seen = true;
            if (seen) continue;
            snprintf(viol_cls[viols], 160, "%s", r.cls);
            Result r0 = r;
            List orig = list_copy(S->choices, S->nchoice); bool of = S->overflow;
            // gate 1: the same seed again
            Result r1; run_once(sc, rs, nullptr, 0, false, r1);
            bool same = r1.status == ST_VIOL && !strcmp(r1.cls, r0.cls) && r1.hash == r0.hash;
            // gate 2: the recorded choices
            Result r2; r2.status = ST_OK; r2.cls[0] = 0; r2.hash = 0;
            if (!of) run_once(sc, 0, orig.p, orig.n, true, r2);
            bool rep = r2.status == ST_VIOL && !strcmp(r2.cls, r0.cls) && r2.hash == r0.hash;
            if (!same || !rep) {
                fprintf(stderr, "UNREPRODUCIBLE prop=%s scenario=%s run=%llu class=%s same=%d(%s) replay=%d(%s) msg=%s\n", prop, sc.name, (unsigned long long)idx, r0.cls, same, r1.cls, rep, r2.cls, r0.msg);
                printf("UNREPRODUCIBLE %s\n", r0.cls); fflush(stdout);
                free(orig.p); viol_cls[viols][0] = 0; continue;
            }
            Min m; m.sc = &sc; snprintf(m.cls, sizeof m.cls, "%s", r0.cls); m.best = list_copy(orig.p, orig.n); m.tries = 0; m.max_tries = 3000;
            double left = maxs - (now_s() - t0); m.t_end = now_s() + (left > 40 ? 40 : left < 8 ? 8 : left); m.hash = r0.hash;
            m.go();
            Result rf; run_once(sc, 0, m.best.p, m.best.n, true, rf);
            if (rf.status != ST_VIOL || strcmp(rf.cls, r0.cls)) { free(m.best.p); m.best = list_copy(orig.p, orig.n); run_once(sc, 0, m.best.p, m.best.n, true, rf); }
            snprintf(path, sizeof path, "%s/%s-w%d-%d.json", outdir, prop, worker, viols);
            write_replay(path, sc, seed, idx, rs, rf, m.best, orig, m.tries);
            printf("FOUND %s\nCLASS %s\nMESSAGE %s\n", path, rf.cls, rf.msg); fflush(stdout);
            viols++;
            free(orig.p);
            if (viols >= 4) break;
            if (getenv("SIM_FIRST")) break;
        }
    }
    printf("STATS {\"max_choices\": %llu, \"runs\": %llu, \"choices\": %llu, \"simtime_ns\": %llu, \"steps\": %llu, \"events\": %llu, \"faulty_runs\": %llu, \"distinct_runs\": %zu, \"distinct_states\": %zu, \"secs\": %.3f, \"det_checked\": %llu, \"det_bad\": %llu, \"digest\": \"%016llx\", \"counters\": {",
        (unsigned long long)maxch, (unsigned long long)done, (unsigned long long)choices, (unsigned long long)simtime, (unsigned long long)stepsum, (unsigned long long)logev, (unsigned long long)faulty, runs.n, states.n, now_s() - t0, (unsigned long long)dets, (unsigned long long)detbad, (unsigned long long)sumhash);
    bool fst = true;
    for (uint32_t i = 0; i < S->ncnt; i++) { if (!tot[i]) continue; printf("%s", fst ? "" : ", "); fst = false; json_str(stdout, S->names[i], strlen(S->names[i])); printf(": %llu", (unsigned long long)tot[i]); }
    printf("}, \"scenarios\": {"); fst = true;
    for (int i = 0; i < g_nsc; i++) if (per_sc[i]) { printf("%s\"%s\": %llu", fst ? "" : ", ", g_sc[i].name, (unsigned long long)per_sc[i]); fst = false; }
    printf("}, \"samples\": ["); for (int i = 0; i < nsample; i++) { if (i) printf(", "); json_str(stdout, sample[i], strlen(sample[i])); }
    printf("]}\n");
    // the digests of the states, so that the orchestrator can count their union
    snprintf(path, sizeof path, "%s/states-%s-w%d.bin", outdir, prop, worker);
    if (FILE* f = fopen(path, "wb")) { for (size_t i = 0; i < states.cap; i++) if (states.t[i]) fwrite(&states.t[i], 8, 1, f); fclose(f); }
    snprintf(path, sizeof path, "%s/runs-%s-w%d.bin", outdir, prop, worker);
    if (FILE* f = fopen(path, "wb")) { for (size_t i = 0; i < runs.cap; i++) if (runs.t[i]) fwrite(&runs.t[i], 8, 1, f); fclose(f); }
    return 0;
}
} // namespace sim

int main(int argc, char** argv) {
    // no address randomisation: a run must not depend on where things land
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    return sim::main_(argc, argv);
}
