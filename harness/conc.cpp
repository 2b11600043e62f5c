// C01-C05: parallel_execute and LOCK under simulated threads.
#include "../sim/core.h"
#include "../sim/csim.h"
#include "altruct/concurrency/concurrency.h"
#include <exception>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
#include <limits>
#include <stdio.h>
using namespace altruct::concurrency;
using csim::Quiet;

namespace {
enum { MAXJ = 64, MAXTH = 12 };
// what the run observed; touched only under Quiet, where one thread at a time runs
struct Seen {
    int taken[MAXJ], executed[MAXJ], completed[MAXJ], collected[MAXJ];
    int in_provider, in_worker_provider, in_collector; int workers_created, workers_alive;
    int executing, max_executing, exec_total, coll_total, done_total;
    int created_by[64]; bool failed_job[MAXJ]; int fails; int ncollect;
    bool returned;
} S;
struct Boom { int id; };

struct Plan {
    int jobs, threads;
    bool heap_state;         // objects keep state on the heap too, to expose races on it
    int park_mask_lo;        // C03: which jobs stall
    bool stall[MAXJ]; bool barrier; int barrier_n; int first_jobs;
    // C04
    int boom_exec[4], boom_create, boom_has, boom_next, boom_collect; int nboom_exec; bool boom_std;
} P;
void reset() { memset(&S, 0, sizeof S); memset(&P, 0, sizeof P); P.boom_create = P.boom_has = P.boom_next = P.boom_collect = -1; for (int& b : P.boom_exec) b = -1; }
[[noreturn]] void boom(const char* where, int id) {
    { Quiet q; S.fails++; sim::fault(where); sim::log("%s fails (%d)", where, id); }
    if (P.boom_std) throw std::runtime_error(where);
    throw Boom{id};
}

struct Job { int id; int payload[3]; };
struct Result { int id; std::vector<int> data; };

struct Provider {
    int next = 0, n; std::vector<int> handed; long calls = 0;       // plain state: the simulator sees every unsynchronised use
    explicit Provider(int n) : n(n) {}
    struct In { Provider& p; In(Provider& p) : p(p) { p.in(); } ~In() { p.out(); } };
    void in() { Quiet q; if (S.in_provider++) sim::fail("provider-used-concurrently", "two threads are inside the job provider (T%d entered)", csim::tid()); if (S.returned) sim::fail("used-after-return", "the job provider is used after parallel_execute returned"); }
    void out() { Quiet q; S.in_provider--; }
    bool has_next_job() { In g(*this); calls++; csim::yield_point(); bool r = next < n; int c = (int)calls; if (P.boom_has >= 0 && c > P.boom_has) { P.boom_has = -1; boom("has-next-job-throws", c); } return r; }
    Job next_job() {
        In g(*this); calls++; int id = next;
        { Quiet q; SIM_CHECK(id < n, "job-taken-beyond-end", "next_job was called although no job was left"); }
        if (P.boom_next == id) { P.boom_next = -1; boom("next-job-throws", id); }
        next++; handed.push_back(id);
        { Quiet q; S.taken[id]++; sim::log("T%d takes job %d", csim::tid(), id); }
        return Job{id, {id * 3, id * 5 + 1, ~id}};
    }
};
struct Worker {
    int owner; int no; long used = 0; std::vector<int> scratch;
    Worker(int no) : owner(csim::tid()), no(no), scratch(4, no) { Quiet q; S.workers_alive++; }
    Worker(Worker&& w) : owner(w.owner), no(w.no), used(w.used), scratch(std::move(w.scratch)) { Quiet q; S.workers_alive++; }
    Worker(const Worker& w) : owner(w.owner), no(w.no), used(w.used), scratch(w.scratch) { Quiet q; S.workers_alive++; }
    ~Worker() { Quiet q; S.workers_alive--; }
    Result execute_job(const Job& j) {
        { Quiet q;
          SIM_CHECK(!S.returned, "used-after-return", "job %d is executed after parallel_execute returned", j.id);
          SIM_CHECK(j.id >= 0 && j.id < P.jobs && j.payload[0] == j.id * 3 && j.payload[1] == j.id * 5 + 1 && j.payload[2] == ~j.id, "job-corrupted", "a worker got a job that no provider made (id %d)", j.id);
          SIM_CHECK(S.executed[j.id]++ == 0, "job-executed-twice", "job %d is executed more than once", j.id);
          SIM_CHECK(S.taken[j.id] == 1, "job-not-taken", "job %d is executed but was handed out %d times", j.id, S.taken[j.id]);
          SIM_CHECK(owner == csim::tid(), "worker-shared", "the worker of T%d executes a job on T%d", owner, csim::tid());
          S.exec_total++; if (++S.executing > S.max_executing) S.max_executing = S.executing;
          sim::log("T%d executes job %d", csim::tid(), j.id); }
        struct Exec { ~Exec() { Quiet q; S.executing--; } } ex;
        used++; scratch[j.id & 3] += j.id; csim::yield_point();
        if (P.barrier && j.id < P.barrier_n) {
            bool full; { Quiet q; full = S.executing == P.barrier_n; }
            if (full) csim::open_event(1);
            csim::park(1);
        }
        if (P.stall[j.id]) { { Quiet q; sim::fault("stalled-job"); sim::log("job %d stalls", j.id); } csim::park(2 + j.id); { Quiet q; sim::log("job %d resumes", j.id); } }
        for (int b : P.boom_exec) if (b == j.id) { { Quiet q; S.failed_job[j.id] = true; } boom("worker-throws", j.id); }
        Result r{j.id, std::vector<int>(1 + j.id % 3, j.id * 7)};
        { Quiet q; S.done_total++; S.completed[j.id]++; }
        csim::yield_point();
        return r;
    }
};
struct WorkerProvider {
    int made = 0; std::vector<int> seeds;
    Worker create_worker() {
        { Quiet q; if (S.in_worker_provider++) sim::fail("worker-provider-used-concurrently", "two threads are inside the worker provider (T%d entered)", csim::tid()); SIM_CHECK(S.created_by[csim::tid()]++ == 0, "several-workers", "T%d obtains more than one worker", csim::tid()); S.workers_created++; }
        struct In { ~In() { Quiet q; S.in_worker_provider--; } } in;
        int no = made++; seeds.push_back(no); csim::yield_point();
        if (P.boom_create == no) { P.boom_create = -1; boom("create-worker-throws", no); }
        return Worker(no);
    }
};
struct Collector {
    std::vector<int> order; long long sum = 0; int n = 0; std::string text;
    void collect_result(const Result& r, const Job& j) {
        { Quiet q; if (S.in_collector++) sim::fail("collector-used-concurrently", "two threads are inside the result collector (T%d entered)", csim::tid());
          SIM_CHECK(!S.returned, "used-after-return", "a result is collected after parallel_execute returned");
          SIM_CHECK(j.id >= 0 && j.id < P.jobs && j.payload[2] == ~j.id, "job-corrupted", "the collector got a job that no provider made (id %d)", j.id);
          SIM_CHECK(S.collected[j.id]++ == 0, "result-collected-twice", "the result of job %d is collected more than once", j.id);
          SIM_CHECK(S.completed[j.id] == 1, "result-of-unfinished-job", "a result of job %d is collected, which was completed %d times", j.id, S.completed[j.id]);
          SIM_CHECK(r.id == j.id && (int)r.data.size() == 1 + j.id % 3 && r.data[0] == j.id * 7, "result-mismatch", "the result of job %d is collected with job %d", r.id, j.id); }
        struct In { ~In() { Quiet q; S.in_collector--; } } in;
        n++; csim::yield_point(); sum += r.data[0]; order.push_back(j.id); text += 'x';
        int c = n;
        { Quiet q; S.coll_total++; sim::log("T%d collects job %d", csim::tid(), j.id); }
        if (P.boom_collect >= 0 && c == P.boom_collect + 1) boom("collector-throws", j.id);
    }
};
void check_complete(const Provider& p, const WorkerProvider& w, const Collector& c) {
    // these reads are instrumented: missing happens-before to the caller is a race
    SIM_CHECK(p.next == P.jobs && (int)p.handed.size() == P.jobs, "jobs-left", "%d of %d jobs were taken when parallel_execute returned", p.next, P.jobs);
    long long want = 0; for (int i = 0; i < P.jobs; i++) want += i * 7;
    SIM_CHECK(c.n == P.jobs && (int)c.order.size() == P.jobs && c.sum == want && (int)c.text.size() == P.jobs, "results-missing", "the collector has %d of %d results when parallel_execute returned", c.n, P.jobs);
    for (int i = 0; i < P.jobs; i++) SIM_CHECK(S.taken[i] == 1 && S.executed[i] == 1 && S.collected[i] == 1, "job-count", "job %d: taken %d, executed %d, collected %d times", i, S.taken[i], S.executed[i], S.collected[i]);
    SIM_CHECK(w.made == S.workers_created && (int)w.seeds.size() == w.made, "worker-count", "the worker provider lost count: %d of %d", w.made, S.workers_created);
    int want_w = P.threads > 1 ? P.threads : 1;
    SIM_CHECK(w.made <= want_w && w.made >= 1, "worker-count", "%d workers were created for %d threads", w.made, want_w);
    SIM_CHECK(S.workers_alive == 0, "worker-alive", "%d workers are alive when parallel_execute returned", S.workers_alive);
}
void draw_size() {
    P.threads = sim::chance(1, 12) ? (int)sim::choose(2) : sim::chance(1, 6) ? sim::range(5, MAXTH) : sim::range(2, 4);
    int k = sim::choose(8);
    P.jobs = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? P.threads : k < 6 ? sim::range(1, 10) : sim::range(5, 36);
    sim::log("%d threads, %d jobs", P.threads, P.jobs);
}
} // namespace

#ifdef P_C01
SIM_SCENARIO(C01, generic, 4) {
    reset(); draw_size();
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c;
      parallel_execute(c, p, w, P.threads);
      S.returned = true; check_complete(p, w, c);
      SIM_CHECK(csim::live_threads() == 0, "thread-left", "%d threads still run after parallel_execute returned", csim::live_threads()); }
    csim::stop();
}
// jobs that take different simulated times, so that completion order differs from start order
namespace { struct SleepyWorker { uint64_t d[MAXJ]; long long execute_job(const std::pair<int, int>& j) { csim::yield_point(); std::this_thread::sleep_for(std::chrono::milliseconds(d[(j.first - j.second) & 63])); long long r = 0; for (int i = j.first; i < j.second; i++) r += (long long)i * i + 1; return r; } };
struct SleepyProvider { uint64_t d[MAXJ]; SleepyWorker create_worker() { SleepyWorker w; memcpy(w.d, d, sizeof d); return w; } }; }
SIM_SCENARIO(C01, range_and_sum, 3) {
    reset(); int th = sim::range(1, 6), b = sim::range(-5, 30), n = (int)sim::choose(40), len = sim::range(1, 9);
    SleepyProvider wp; for (auto& x : wp.d) x = sim::choose(4) * 10;
    sim::log("%d threads, [%d, %d) by %d", th, b, b + n, len);
    csim::start();
    { range_job_provider<int> p(b, b + n, len); add_result_collector<long long> c;
      parallel_execute(c, p, wp, th);
      long long want = 0; for (int i = b; i < b + n; i++) want += (long long)i * i + 1;
      SIM_CHECK(c.result == want, "sum-wrong", "the adding collector has %lld instead of %lld", c.result, want); }
    csim::stop();
}
// jobs, providers and collectors that execute further jobs in parallel themselves, and callers that do so side by side
namespace {
long long squares(int b, int e) { long long r = 0; for (int i = b; i < e; i++) r += (long long)i * i + 1; return r; }
struct InnerWorker { long long execute_job(const std::pair<int, int>& j) { csim::yield_point(); return squares(j.first, j.second); } };
struct InnerProvider { InnerWorker create_worker() { return InnerWorker(); } };
long long inner(int b, int e, int len, int th) { range_job_provider<int> p(b, e, len); add_result_collector<long long> c; InnerProvider w; parallel_execute(c, p, w, th); return c.result; }
struct OuterWorker { int len, th; long long execute_job(const std::pair<int, int>& j) { return inner(j.first, j.second, len, th); } };
struct OuterProvider { int len, th; OuterWorker create_worker() { if (th == 2) inner(0, 3, 1, 2); return OuterWorker{len, th}; } };
struct OuterCollector { long long sum, seen; int nest; void collect_result(long long r, const std::pair<int, int>& j) { if (nest) { long long x = inner(j.first, j.second, 2, 2); SIM_CHECK(x == r, "sum-wrong", "the job [%d, %d) is %lld, made again %lld", j.first, j.second, r, x); } sum += r; seen++; } };
void outer(int b, int n, int len, int th, int len2, int th2, int nest) {
    range_job_provider<int> p(b, b + n, len); OuterProvider w{len2, th2}; OuterCollector c{0, 0, nest}; parallel_execute(c, p, w, th);
    long long jobs = (n + len - 1) / len; SIM_CHECK(c.sum == squares(b, b + n) && c.seen == jobs, "sum-wrong", "[%d, %d): %lld results add up to %lld, expected %lld and %lld", b, b + n, c.seen, c.sum, jobs, squares(b, b + n));
}
}
SIM_SCENARIO(C01, nested, 1) {
    reset(); int calls = sim::choose(3) ? 1 : 2, b[2], n[2], len[2], th[2], len2[2], th2[2], nest[2];
    for (int i = 0; i < calls; i++) { b[i] = sim::range(-5, 9); n[i] = (int)sim::choose(calls == 1 ? 7 : 4); len[i] = sim::range(1, 5); th[i] = sim::range(1, 3); len2[i] = sim::range(1, 3); th2[i] = sim::range(1, 3); nest[i] = sim::choose(4) == 0; sim::log("%d threads, [%d, %d) by %d, each by %d in %d threads%s", th[i], b[i], b[i] + n[i], len[i], len2[i], th2[i], nest[i] ? ", and again when collected" : ""); }
    csim::start();
    { std::thread t; if (calls == 2) t = std::thread([&]() { outer(b[1], n[1], len[1], th[1], len2[1], th2[1], nest[1]); });
      outer(b[0], n[0], len[0], th[0], len2[0], th2[0], nest[0]); if (calls == 2) t.join();
      SIM_CHECK(csim::live_threads() == 0, "thread-left", "%d threads still run after parallel_execute returned", csim::live_threads()); }
    csim::stop();
}
// the jobs of the range provider, for ranges of every type and place
namespace {
template<typename I> void tile(const char* name) {
    typedef std::numeric_limits<I> L; typedef __int128 W;
    W lo = L::min(), hi = L::max(); W b, e; int k = sim::choose(6);
    W span = hi - lo; auto some = [&](W max) -> W { W v = sim::chance(1, 2) ? (W)sim::small(1000) : (W)(unsigned __int128)(sim::bits64()) ; if (v > max) v = max < 0 ? 0 : v % (max + 1); return v; };
    if (k == 0) { b = 0; e = some(hi); } else if (k == 1) { e = hi; b = hi - some(span); } else if (k == 2) { b = lo; e = lo + some(span); }
    else if (k == 3) { b = lo; e = hi; } else if (k == 4) { b = lo + some(span); e = b; } else { b = lo + some(span); e = b + some(hi - b); if (sim::chance(1, 6)) { W t = b; b = e; e = t; } }
    W n = e > b ? e - b : 0; W len;
    int m = sim::choose(4); if (m == 0) len = n / 50 + 1; else if (m == 1) len = hi; else if (m == 2) len = n / 2 + 1; else len = n / 7 + 1 + some(5);
    if (len > hi) len = hi; if (len < 1) len = 1; if (n / len > 400) return;
    char t[3][48]; snprintf(t[0], 48, "%lld", (long long)b); snprintf(t[1], 48, "%lld", (long long)e); snprintf(t[2], 48, "%lld", (long long)len);
    sim::log("range %s [%s, %s) by %s", name, t[0], t[1], t[2]);
    range_job_provider<I> p((I)b, (I)e, (I)len); W at = b; int jobs = 0;
    while (p.has_next_job()) {
        std::pair<I, I> j = p.next_job();
        SIM_CHECK((W)j.first == at, "range-gap", "%s [%s, %s) by %s: job %d starts at %lld, expected %lld", name, t[0], t[1], t[2], jobs, (long long)j.first, (long long)at);
        W w = at + len < e ? at + len : e;
        SIM_CHECK((W)j.second == w && at < e, "range-tiling", "%s [%s, %s) by %s: job %d ends at %lld, expected %lld", name, t[0], t[1], t[2], jobs, (long long)j.second, (long long)w);
        at = w; SIM_CHECK(++jobs <= 1000, "range-endless", "the range provider does not stop");
    }
    SIM_CHECK(at >= e, "range-incomplete", "%s [%s, %s) by %s: jobs end at %lld", name, t[0], t[1], t[2], (long long)at);
    sim::state(sim::mix(sim::mix(sizeof(I) + L::is_signed, (uint64_t)(k * 8 + m)), jobs));
}
}
SIM_SCENARIO(C01, range_tiling, 1) {
    reset(); 
    for (int i = 0; i < 8; i++) switch (sim::choose(8)) {
        case 0: tile<int>("int"); break; case 1: tile<int64_t>("int64"); break; case 2: tile<uint32_t>("uint32"); break; case 3: tile<uint64_t>("uint64"); break;
        case 4: tile<int8_t>("int8"); break; case 5: tile<uint8_t>("uint8"); break; case 6: tile<int16_t>("int16"); break; default: tile<uint16_t>("uint16"); }
}
#endif

#ifdef P_C02
SIM_SCENARIO(C02, generic, 1) {
    reset(); draw_size();
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c;
      parallel_execute(c, p, w, P.threads);
      S.returned = true; check_complete(p, w, c); }
    csim::stop();
}
// the library's own provider and collector, with plain state in a worker provider that shares a table
namespace { struct Shared { std::vector<long long> table; int uses = 0; };
struct TWorker { std::vector<long long> t; int calls = 0; long long execute_job(const std::pair<int, int>& j) { calls++; long long r = 0; for (int i = j.first; i < j.second; i++) { t[i & 15] += i; r += i; } csim::yield_point(); return r; } };
struct TProvider { Shared s; TWorker create_worker() { s.uses++; s.table.push_back(s.uses); csim::yield_point(); return TWorker{std::vector<long long>(16, s.table[0]), 0}; } };
struct LogCollector { std::vector<std::pair<int, int>> v; add_result_collector<long long> a; void collect_result(const long long& r, const std::pair<int, int>& j) { a.collect_result(r, j); v.push_back(j); } }; }
SIM_SCENARIO(C02, library_parts, 1) {
    reset(); int th = sim::range(2, 6), n = sim::range(0, 60), len = sim::range(1, 8);
    sim::log("%d threads, %d by %d", th, n, len);
    csim::start();
    { range_job_provider<int> p(0, n, len); TProvider w; LogCollector c;
      parallel_execute(c, p, w, th);
      SIM_CHECK((int)c.v.size() == (n + len - 1) / len && c.a.result == (long long)n * (n - 1) / 2, "results-missing", "collected %zu jobs, sum %lld", c.v.size(), c.a.result);
      SIM_CHECK(w.s.uses <= th && w.s.uses >= 1, "worker-count", "%d workers for %d threads", w.s.uses, th); }
    csim::stop();
}
#endif

#ifdef P_C03
namespace {
// nothing can run any more: open the stalled jobs once everything else is done
bool idle_open() {
    int stalled = 0, rest = 0, rest_collected = 0, waiting = 0;
    for (int i = 0; i < P.jobs; i++) { bool s = P.stall[i] && S.executed[i] && !csim::is_open(2 + i); stalled += s; if (!P.stall[i]) { rest++; rest_collected += S.collected[i]; } if (P.stall[i] && !S.executed[i]) waiting++; }
    if (!stalled) return false;
    SIM_CHECK(rest_collected == rest && !waiting, "slow-job-holds-up-others", "%d jobs are stalled on %d threads; only %d of the %d other jobs have been executed and collected", stalled, P.threads, rest_collected, rest);
    sim::probe("others-finished-while-stalled");
    // open one of them
    int k = (int)sim::choose(stalled);
    for (int i = 0; i < P.jobs; i++) if (P.stall[i] && S.executed[i] && !csim::is_open(2 + i) && k-- == 0) { csim::open_event(2 + i); break; }
    return true;
}
}
SIM_SCENARIO(C03, stalled_jobs, 2) {
    reset(); P.threads = sim::range(2, 6); P.jobs = sim::range(2, 24);
    int n = 1 + (int)sim::choose(P.threads - 1); for (int i = 0; i < n; i++) P.stall[sim::choose(P.jobs)] = true;
    sim::log("%d threads, %d jobs, up to %d stalled", P.threads, P.jobs, n);
    csim::set_handler_on_idle(idle_open);
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c; parallel_execute(c, p, w, P.threads); S.returned = true; check_complete(p, w, c); }
    csim::stop();
}
SIM_SCENARIO(C03, all_at_once, 1) {
    reset(); P.threads = sim::range(2, 8); P.jobs = P.threads + (int)sim::choose(6); P.barrier = true; P.barrier_n = P.threads;
    sim::log("%d threads meet in the first %d of %d jobs", P.threads, P.barrier_n, P.jobs);
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c; parallel_execute(c, p, w, P.threads); S.returned = true; check_complete(p, w, c);
      SIM_CHECK(S.max_executing == P.threads, "not-parallel", "at most %d of %d jobs were in progress together", S.max_executing, P.threads); sim::probe("all-threads-busy"); }
    csim::stop();
}
SIM_SCENARIO(C03, delayed_jobs, 1) {
    reset(); P.threads = sim::range(2, 6); P.jobs = sim::range(1, 20);
    sim::log("%d threads, %d jobs with delays", P.threads, P.jobs);
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c; 
      struct DW { Worker w; Result execute_job(const Job& j) { if (j.id % 3 == 0) { { Quiet q; sim::fault("slow-job"); } std::this_thread::sleep_for(std::chrono::hours(1 + j.id)); } return w.execute_job(j); } };
      struct DP { WorkerProvider& wp; DW create_worker() { return DW{wp.create_worker()}; } } dp{w};
      parallel_execute(c, p, dp, P.threads); S.returned = true; check_complete(p, w, c); }
    csim::stop();
}
#endif

#ifdef P_C04
SIM_SCENARIO(C04, failures, 3) {
    reset(); draw_size(); sim::set_crash_class("process-ended-by-failure");
    P.boom_std = sim::chance(1, 2);
    int kinds = 1 + (sim::chance(1, 4) ? 1 + (int)sim::choose(2) : 0); bool thr = false, alloc = false;
    for (int i = 0; i < kinds; i++) switch (sim::choose(8)) {
        case 0: P.boom_exec[0] = sim::range(0, P.jobs); break;
        case 1: for (int& b : P.boom_exec) b = sim::range(0, P.jobs); break;
        case 2: P.boom_create = sim::range(0, P.threads); break;
        case 3: P.boom_has = sim::range(0, P.jobs * 2 + 2); break;
        case 4: P.boom_next = sim::range(0, P.jobs); break;
        case 5: P.boom_collect = sim::range(0, P.jobs); break;
        case 6: thr = true; break;
        default: alloc = true;
    }
    int nth = thr ? sim::range(1, P.threads + 1) : 0; bool all = thr && sim::chance(1, 2);
    long na = alloc ? 1 + (long)sim::small(P.threads * 4 + P.jobs * 6 + 4) : 0;
    if (sim::chance(1, 3)) { for (int i = 0; i < 2; i++) if (P.jobs) P.stall[sim::choose(P.jobs)] = true; }
    csim::set_handler_on_idle([]() -> bool {           // stalled jobs end once nothing else can run
        for (int i = 0; i < P.jobs; i++) if (P.stall[i] && !csim::is_open(2 + i)) { csim::open_event(2 + i); return true; }
        return false;
    });
    int got = 0; std::string what;
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c;
      if (thr) { if (all) csim::fail_threads_from(nth); else csim::fail_thread_start(nth); }
      if (alloc) csim::fail_alloc(na);
      uint64_t f0 = sim::faults_fired(); bool caught = false;
      { try { parallel_execute(c, p, w, P.threads); }
        catch (const Boom& b) { caught = true; got = 1; } catch (const std::bad_alloc&) { caught = true; got = 2; } catch (const std::system_error& e) { caught = true; got = 3; } catch (const std::runtime_error& e) { caught = true; got = 4; what = e.what(); } catch (...) { caught = true; got = 5; } }
      bool af = csim::alloc_fault_fired(); csim::fail_alloc(0); csim::fail_thread_start(0);
      S.returned = true;
      SIM_CHECK(csim::live_threads() == 0, "thread-left", "%d threads still run after parallel_execute %s", csim::live_threads(), caught ? "threw" : "returned");
      SIM_CHECK(S.executing == 0, "job-in-progress", "%d jobs are in progress after parallel_execute %s", S.executing, caught ? "threw" : "returned");
      SIM_CHECK(S.workers_alive == 0, "worker-alive", "%d workers are alive after parallel_execute %s", S.workers_alive, caught ? "threw" : "returned");
      bool user = S.fails > 0; (void)f0;
      sim::log("outcome %d, %d user failures, alloc %d", got, S.fails, (int)af);
      if (user) SIM_CHECK(caught, "failure-swallowed", "an exception thrown by a supplied object did not reach the caller");
      if (!caught) { check_complete(p, w, c); sim::probe(thr ? "completed-with-fewer-threads-or-untouched" : "completed"); }
      else {
          if (got == 1) SIM_CHECK(user && !P.boom_std, "wrong-exception", "an exception nobody threw");
          if (got == 2) SIM_CHECK(af, "wrong-exception", "bad_alloc without an allocation failure");
          if (got == 3) SIM_CHECK(thr || false, "wrong-exception", "system_error without a failed thread start");
          if (got == 4) SIM_CHECK(user && P.boom_std && (what.find("throws") != std::string::npos), "wrong-exception", "runtime_error '%s'", what.c_str());
          SIM_CHECK(got != 5, "wrong-exception", "an exception of an unknown type");
          sim::probe("exception-delivered");
      }
      for (int i = 0; i < P.jobs; i++) {
          SIM_CHECK(S.executed[i] <= 1 && S.collected[i] <= 1 && S.taken[i] <= 1, "job-repeated", "job %d: taken %d, executed %d, collected %d times", i, S.taken[i], S.executed[i], S.collected[i]);
          SIM_CHECK(!(S.failed_job[i] && S.collected[i]), "result-of-failed-job", "a result was collected for job %d, which failed", i);
      }
      sim::state(sim::mix(sim::mix(got, S.exec_total * 64 + S.coll_total), P.threads));
    }
    csim::stop();
}
// after a failed call the same objects can be used for another call
SIM_SCENARIO(C04, again_after_failure, 1) {
    reset(); draw_size(); sim::set_crash_class("process-ended-by-failure");
    if (P.jobs) P.boom_exec[0] = (int)sim::choose(P.jobs);
    csim::start();
    { Provider p(P.jobs); WorkerProvider w; Collector c; bool caught = false;
      try { parallel_execute(c, p, w, P.threads); } catch (const Boom&) { caught = true; }
      SIM_CHECK(caught == (P.jobs > 0), "failure-swallowed", "an exception thrown by a worker did not reach the caller");
      int first = S.coll_total; memset(S.created_by, 0, sizeof S.created_by); P.boom_exec[0] = -1;
      parallel_execute(c, p, w, P.threads);
      S.returned = true;
      SIM_CHECK(csim::live_threads() == 0, "thread-left", "threads are left");
      int want = P.jobs > 0 ? P.jobs - 1 : 0;
      SIM_CHECK(c.n == want, "results-missing", "%d results in total after a second call, expected %d (%d from the first)", c.n, want, first); }
    csim::stop();
}
#endif

#ifdef P_C05
namespace {
struct Guarded { std::mutex m[2]; long counter[2] = {0, 0}; int inside[2] = {0, 0}; };
struct Out { int id; };
// one entry; returns how often the body ran
int enter(Guarded& g, int k, int how, int inner) {
    int runs = 0;
    auto body_in = [&](int i) { runs++; { Quiet q; if (g.inside[i]++) sim::fail("no-mutual-exclusion", "two threads are inside blocks guarded by one mutex"); SIM_CHECK(runs <= 1 + (inner ? 1 : 0), "body-repeated", "a guarded block ran again in one entry (way out %d)", how); } long v = g.counter[i]; csim::yield_point(); g.counter[i] = v + 1; };
    auto body_out = [&](int i) { Quiet q; g.inside[i]--; };
    switch (how) {
        case 0: LOCK(g.m[k]) { body_in(k); body_out(k); } break;
        case 1: LOCK(g.m[k]) { body_in(k); body_out(k); if (runs) break; runs += 100; } break;
        case 2: LOCK(g.m[k]) { body_in(k); body_out(k); if (runs) continue; runs += 100; } break;
        case 3: { auto f = [&]() -> int { LOCK(g.m[k]) { body_in(k); body_out(k); return 7; } return 8; }; int r = f(); SIM_CHECK(r == 7, "body-skipped", "the guarded block with a return was not executed"); } break;
        case 4: { bool c = false; try { LOCK(g.m[k]) { body_in(k); body_out(k); throw Out{k}; } } catch (const Out& o) { c = o.id == k; } SIM_CHECK(c, "body-skipped", "the guarded block with a throw was not executed"); } break;
        case 5: LOCK(g.m[k]) { body_in(k); if (inner && k == 0) { LOCK(g.m[1]) { body_in(1); body_out(1); } } body_out(k); } break;
        case 6: for (int i = 0; i < 3; i++) { LOCK(g.m[k]) { if (i == 1) { body_in(k); body_out(k); } } } break;
        case 7: LOCK(g.m[k]) if (true) { body_in(k); body_out(k); } break;
        case 8: { LOCK(g.m[k]) { body_in(k); body_out(k); goto out; } runs += 100; out:; } break;
        default: LOCK(g.m[k]) body_in(k), body_out(k);
    }
    return runs;
}
}
SIM_SCENARIO(C05, entries, 1) {
    reset(); int th = sim::range(2, 5), per = sim::range(1, 5);
    int plan[8][8][3]; for (auto& t : plan) for (auto& e : t) { e[0] = sim::choose(10); e[1] = sim::choose(2); e[2] = sim::choose(2); }
    sim::log("%d threads, %d entries each", th, per);
    csim::start();
    Guarded g; long want[2] = {0, 0}; int bad = 0;
    { std::vector<std::thread> t;
      for (int i = 0; i < th; i++) t.emplace_back([&, i]() {
          for (int e = 0; e < per; e++) {
              int how = plan[i][e][0], k = plan[i][e][1], inner = plan[i][e][2] && how == 5 && k == 0;
              int r = enter(g, k, how, inner);
              Quiet q; sim::log("T%d entry %d way %d mutex %d", csim::tid(), e, how, k);
              SIM_CHECK(r == 1 + inner, "body-count", "a guarded block left by way %d ran %d times in one entry", how, r - inner);
              want[k]++; if (inner) want[1]++;
          }
      });
      for (auto& x : t) x.join(); }
    for (int k = 0; k < 2; k++) {
        SIM_CHECK(g.counter[k] == want[k], "update-lost", "%ld of %ld updates made under the lock are there", g.counter[k], want[k]);
        SIM_CHECK(g.m[k].try_lock(), "mutex-left-locked", "the mutex is still held after all blocks were left"); g.m[k].unlock();
    }
    csim::stop(); (void)bad;
}
#endif
