// R01-R04, K01: random generators and clocks under simulated entropy, saved
// states, bit sources and cycle counters.
#include "../sim/env.h"
#include <limits.h>
#include <math.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <climits>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "altruct/algorithm/random/mersenne_twister.h"
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/chrono/chrono.h"
using namespace sim;
using namespace altruct::random;

// ---------------------------------------------------------------- reference: MT19937 (2002 seeding)
struct Mt {
    uint32_t s[624]; int left;
    void init(uint32_t v) { s[0] = v; for (int i = 1; i < 624; i++) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; }
    void gen() {
        for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); }
        left = 624;
    }
    void seed(uint32_t v) { init(v); gen(); }
    void seed(const std::vector<uint32_t>& key) {
        init(19650218u); int i = 1, j = 0, n = (int)key.size();
        for (int k = n > 624 ? n : 624; k; k--) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1664525u)) + key[j] + j; if (++i >= 624) { s[0] = s[623]; i = 1; } if (++j >= n) j = 0; }
        for (int k = 623; k; k--) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1566083941u)) - i; if (++i >= 624) { s[0] = s[623]; i = 1; } }
        s[0] = 0x80000000u; gen();
    }
    uint32_t next() {
        if (left == 0) gen();
        uint32_t y = s[624 - left]; left--;
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y;
    }
    uint32_t bounded(uint32_t n) { uint32_t used = n; used |= used >> 1; used |= used >> 2; used |= used >> 4; used |= used >> 8; used |= used >> 16; uint32_t i; do i = next() & used; while (i > n); return i; }
};
static uint32_t untemper(uint32_t y) {
    y ^= y >> 18; y ^= (y << 15) & 0xefc60000u;
    uint32_t x = y; for (int i = 0; i < 7; i++) x = y ^ ((x << 7) & 0x9d2c5680u);
    uint32_t z = x; for (int i = 0; i < 4; i++) z = x ^ (z >> 11); return z;
}
struct Xs64 { uint64_t x; uint64_t next() { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ull; } };
struct Xs1024 {
    uint64_t s[16]; int p;
    void seed(uint64_t v) { Xs64 g{v}; for (auto& w : s) w = g.next(); p = 0; }
    uint64_t next() { uint64_t a = s[p]; p = (p + 1) & 15; uint64_t b = s[p]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; s[p] = a ^ b; return s[p] * 1181783497276652981ull; }
};
static bool close_to(double a, double b) { double d = fabs(a - b), m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return d <= 1e-9 * (m > 1 ? m : 1); }

// draws in one of the documented ways, compared with the reference
static void draw(mtrand& g, Mt& m, int kind, const char* who) {
    switch (kind) {
        default: { uint32_t v = g.randInt(), e = m.next(); SIM_CHECK(v == e, "sequence-differs", "%s: randInt() is %u, expected %u", who, v, e); break; }
        case 5: { uint32_t n = choose(3) ? choose(1000) : choose(2) ? (uint32_t)bits64() : (1u << choose(32)) + choose(3) - 1, v = g.randInt(n), e = m.bounded(n); SIM_CHECK(v == e, "sequence-differs", "%s: randInt(%u) is %u, expected %u", who, n, v, e); break; }
        case 6: { double v = g.rand(), e = m.next() / 4294967295.0; SIM_CHECK(close_to(v, e), "sequence-differs", "%s: rand() is %.12g, expected %.12g", who, v, e); break; }
        case 7: { double v = g.randExc(), e = m.next() / 4294967296.0; SIM_CHECK(close_to(v, e), "sequence-differs", "%s: randExc() is %.12g, expected %.12g", who, v, e); break; }
        case 8: { double v = g.randDblExc(3.0), e = (m.next() + 0.5) / 4294967296.0 * 3.0; SIM_CHECK(close_to(v, e), "sequence-differs", "%s: randDblExc(3) is %.12g, expected %.12g", who, v, e); break; }
        case 9: { double v = g.rand53(); uint32_t a = m.next() >> 5, b = m.next() >> 6; double e = (a * 67108864.0 + b) / 9007199254740992.0; SIM_CHECK(close_to(v, e), "sequence-differs", "%s: rand53() is %.12g, expected %.12g", who, v, e); break; }
        case 10: { double v = g.randNorm(1, 2); double u = (m.next() + 0.5) / 4294967296.0, w = m.next() / 4294967296.0; double e = 1 + sqrt(-2 * log(1 - u)) * 2 * cos(2 * M_PI * w); SIM_CHECK(close_to(v, e), "sequence-differs", "%s: randNorm(1, 2) is %.12g, expected %.12g", who, v, e); break; }
        case 11: { double v = g(), e = m.next() / 4294967295.0; SIM_CHECK(close_to(v, e), "sequence-differs", "%s: operator() is %.12g, expected %.12g", who, v, e); break; }
    }
}
static int some_draws() { switch (choose(5)) { case 0: return 1; case 1: return 1 + choose(8); case 2: return 620 + choose(10); case 3: return choose(700); default: return choose(40); } }

#ifdef P_R01
struct Slot { std::unique_ptr<mtrand> g; Mt m; };
struct Saved { bool text; std::vector<uint32_t> arr; std::string s; Mt m; };
SIM_SCENARIO(R01, mersenne, 4) {
    std::vector<Slot> v; v.reserve(8); std::vector<Saved> saved; int n_ops = 6 + small(40);
    auto fresh = [&]() { Slot s; 
        if (choose(2)) { uint32_t seed = choose(2) ? choose(5) : (uint32_t)bits64(); s.g.reset(new mtrand(seed)); s.m.seed(seed); log("g%zu = seeded with %u", v.size(), seed); }
        else { size_t n = 1 + (choose(3) ? choose(6) : choose(700)); std::vector<uint32_t> k(n); uint32_t x = choose(1000); for (auto& w : k) w = x = x * 1664525u + 1013904223u; s.g.reset(new mtrand(k.data(), (uint32_t)n)); s.m.seed(k); log("g%zu = seeded with %zu words", v.size(), n); }
        v.push_back(std::move(s)); };
    fresh();
    for (int op = 0; op < n_ops; op++) {
        int w = choose((uint32_t)v.size()), o = choose((uint32_t)v.size()); Slot& a = v[w]; char who[32]; snprintf(who, sizeof who, "g%d", w);
        switch (choose(20)) {
            default: { int n = some_draws(); log("g%d draws %d", w, n); for (int i = 0; i < n; i++) draw(*a.g, a.m, i < 12 ? (int)choose(12) : 0, who); break; }
            case 1: if (v.size() < 6) fresh(); break;
            case 2: { uint32_t s = (uint32_t)bits64(); log("g%d re-seeded with %u", w, s); a.g->seed(s); a.m.seed(s); break; }
            case 3: { std::vector<uint32_t> k(1 + choose(9)); for (auto& x : k) x = (uint32_t)bits64(); log("g%d re-seeded with %zu words", w, k.size()); a.g->seed(k.data(), (uint32_t)k.size()); a.m.seed(k); break; }
            case 4: case 5: { if (v.size() >= 6) break; log("g%zu = copy of g%d", v.size(), w); Slot s; s.g.reset(new mtrand(*a.g)); s.m = a.m; v.push_back(std::move(s)); probe("copy"); break; }
            case 6: case 7: { log("g%d = g%d", w, o); *a.g = *v[o].g; Mt m = v[o].m; a.m = m; probe(w == o ? "self-assign" : "assign"); break; }
            case 8: { if (w == o) break; log("g%d = move of g%d, which is re-seeded", w, o); *a.g = std::move(*v[o].g); a.m = v[o].m; v[o].g->seed(7u); v[o].m.seed(7u); break; }
            case 9: { if (v.size() < 2) break; log("destroy g%d", w); v.erase(v.begin() + w); break; }
            case 10: { log("swap g%d g%d", w, o); if (w != o) { std::swap(*a.g, *v[o].g); std::swap(a.m, v[o].m); } break; }
            case 11: { // a container of generators that moves them around when it grows
                log("copies of g%d in a growing vector", w); std::vector<mtrand> c; for (int i = 0; i < 3; i++) c.push_back(*a.g); 
                for (auto& g : c) { Mt m = a.m; for (int i = 0; i < 3; i++) draw(g, m, 0, "element"); } break; }
            case 12: { Mt m = a.m; auto f = [](mtrand g) { return g.randInt(); }; log("g%d passed by value", w); uint32_t x = f(*a.g), e = m.next(); SIM_CHECK(x == e, "sequence-differs", "a copy passed by value gives %u, expected %u", x, e); break; }
            case 13: case 14: { log("g%d saved to an array", w); Saved s; s.text = false; s.arr.resize(mtrand::SAVE); a.g->save(s.arr.data()); s.m = a.m; saved.push_back(s); break; }
            case 15: case 16: { log("g%d saved to a stream", w); Saved s; s.text = true; s.m = a.m; Sink k; k.mode = choose(2); SinkBuf sb(&k); std::ostream os(&sb); os << *a.g; os.flush(); s.s = k.got; saved.push_back(s); break; }
            case 17: case 18: { // the process ends and another one goes on from what was saved
                if (saved.empty()) break;
                bool crash = choose(2); if (crash) { log("crash: only the saved states survive"); fault("crash-restart"); v.clear(); fresh(); w = 0; int n = some_draws(); for (int i = 0; i < n; i++) draw(*v[0].g, v[0].m, 0, "g0"); }
                Saved& s = saved[choose((uint32_t)saved.size())]; Slot& t = v[w];
                log("g%d restored from %s", w, s.text ? "text" : "an array");
                if (!s.text) t.g->load(s.arr.data());
                else { Source src; int more = choose(3); src.data = s.s + (more == 0 ? "" : more == 1 ? "\n17" : " x"); src.mode = choose(4); SourceBuf sb(&src, 1 + choose(20)); std::istream is(&sb); is >> *t.g; SIM_CHECK(!is.fail(), "restore-fails", "a complete saved state was refused"); if (more == 1) { int x = 0; is >> x; SIM_CHECK(x == 17, "restore-position", "what follows a saved state reads as %d", x); } }
                t.m = s.m; probe("restore"); state(mix(t.m.left, t.m.s[0]));
                break; }
            case 19: { // two states in one stream
                log("g%d and g%d through one stream", w, o); std::stringstream ss; ss << *a.g << "\t" << *v[o].g << "\n"; mtrand x(1u), y(2u); ss >> x >> y; SIM_CHECK(!ss.fail(), "restore-fails", "two saved states in one stream were refused"); Mt mx = a.m, my = v[o].m; for (int i = 0; i < 3; i++) { draw(y, my, 0, "second"); draw(x, mx, 0, "first"); } break; }
        }
        state(mix(v[0].m.left, mix(v.size(), v[0].m.s[1])));
    }
    for (size_t i = 0; i < v.size(); i++) { char who[32]; snprintf(who, sizeof who, "g%zu at the end", i); for (int k = 0; k < 640; k++) draw(*v[i].g, v[i].m, 0, who); }
}
template<typename G, typename M> static void xorshift_run(std::function<void(G&, M&, uint64_t)> seed) {
    std::vector<std::pair<std::unique_ptr<G>, M>> v; v.reserve(8); int n_ops = 4 + small(40);
    auto fresh = [&](uint64_t s) { v.emplace_back(std::unique_ptr<G>(new G(s)), M()); seed(*v.back().first, v.back().second, s); };
    fresh(1 + choose(100));
    for (int op = 0; op < n_ops; op++) {
        int w = choose((uint32_t)v.size()), o = choose((uint32_t)v.size()); G& g = *v[w].first; M& m = v[w].second;
        switch (choose(9)) {
            default: { int n = 1 + choose(40); log("g%d draws %d", w, n); for (int i = 0; i < n; i++) { uint64_t x = choose(2) ? g.next() : g(), e = m.next(); SIM_CHECK(x == e, "sequence-differs", "g%d draws %llx, expected %llx", w, (unsigned long long)x, (unsigned long long)e); } break; }
            case 1: { double x = g.next_0_1(), e = m.next() / 18446744073709551615.0; log("g%d next_0_1", w); SIM_CHECK(close_to(x, e), "sequence-differs", "next_0_1 is %g, expected %g", x, e); break; }
            case 2: if (v.size() < 5) { log("g%zu = copy of g%d", v.size(), w); M c = m; std::unique_ptr<G> n(new G(g)); v.emplace_back(std::move(n), c); } break;
            case 3: { log("g%d = g%d", w, o); g = *v[o].first; M c = v[o].second; m = c; break; }
            case 4: if (v.size() < 5) { uint64_t s = bits64() | 1; log("g%zu = seeded", v.size()); fresh(s); } break;
            case 5: { uint64_t s = bits64() | 1; log("g%d re-seeded", w); seed(g, m, s); break; }
            case 6: if (v.size() > 1) { log("destroy g%d", w); v.erase(v.begin() + w); } break;
        }
        state(mix(op, v.size()));
    }
    for (auto& p : v) for (int i = 0; i < 20; i++) { uint64_t x = p.first->next(), e = p.second.next(); SIM_CHECK(x == e, "sequence-differs", "at the end: %llx, expected %llx", (unsigned long long)x, (unsigned long long)e); }
}
SIM_SCENARIO(R01, xorshift64, 1) { xorshift_run<xorshift_64star, Xs64>([](xorshift_64star& g, Xs64& m, uint64_t s) { g.seed(s); m.x = s; }); }
SIM_SCENARIO(R01, xorshift1024, 1) {
    xorshift_run<xorshift_1024star, Xs1024>([](xorshift_1024star& g, Xs1024& m, uint64_t s) {
        if (s & 2) { g.seed(s); m.seed(s); } else { uint64_t k[16]; for (auto& w : k) w = s = s * 6364136223846793005ull + 1; g.seed(k); for (int i = 0; i < 16; i++) m.s[i] = k[i]; m.p = 0; k[3] = 0; }
    });
}
// the constructor does what seed() does
SIM_SCENARIO(R01, constructors, 1) {
    uint64_t s = bits64() | 1; log("seed %llx", (unsigned long long)s);
    xorshift_64star a(s), b; b.seed(s); xorshift_1024star c(s), d; d.seed(s); uint64_t k[16]; for (auto& w : k) w = s = s * 6364136223846793005ull + 1; xorshift_1024star e(k), f; f.seed(k);
    for (int i = 0; i < 40; i++) { uint64_t x = a.next(), y = b.next(); SIM_CHECK(x == y, "sequence-differs", "xorshift_64star: constructor and seed() differ"); x = c.next(); y = d.next(); SIM_CHECK(x == y, "sequence-differs", "xorshift_1024star: constructor and seed() differ"); x = e.next(); y = f.next(); SIM_CHECK(x == y, "sequence-differs", "xorshift_1024star: array constructor and seed() differ"); }
}
#endif

#ifdef P_R02
static bool parse_state(const std::string& t, Mt& m, bool& to_end) {
    std::istringstream is(t); uint32_t w; for (int i = 0; i < 624; i++) { if (!(is >> w)) return false; m.s[i] = w; }
    int l; if (!(is >> l)) return false; to_end = is.eof(); if (l < 0 || l > 624) return false; m.left = l; return true;
}
static void use(mtrand& g, const Mt* m0, const char* what) {
    Mt m; if (m0) m = *m0; int n = 640 + choose(700); 
    for (int i = 0; i < n; i++) { if (m0) draw(g, m, i < 6 ? (int)choose(12) : 0, what); else (void)g.randInt(); }
    // it can be saved, copied and re-seeded as well
    std::vector<uint32_t> arr(mtrand::SAVE); g.save(arr.data()); mtrand c(g); (void)c.randInt(); g.seed(5u); Mt s; s.seed(5u); for (int i = 0; i < 3; i++) draw(g, s, 0, "re-seeded after a damaged state");
}
SIM_SCENARIO(R02, damaged_text, 3) {
    uint32_t seed = choose(9); mtrand src(seed); Mt sm; sm.seed(seed); int pre = some_draws(); for (int i = 0; i < pre; i++) { (void)src.randInt(); sm.next(); }
    std::ostringstream os; os << src; std::string t = os.str();
    // damage
    int n_damage = choose(4);
    for (int d = 0; d < n_damage && !t.empty(); d++) switch (choose(8)) {
        case 0: { size_t k = choose(2) ? choose((uint32_t)t.size()) : t.size() - choose(t.size() < 6 ? 1 : 6); log("truncated to %zu", k); t.resize(k); fault("torn-state"); break; }
        case 1: { size_t k = choose((uint32_t)t.size()); static const char c[] = "0x9- \t\nz\xff.e"; t[k] = c[choose(sizeof c - 1)]; log("byte %zu damaged", k); fault("damaged-byte"); break; }
        case 2: case 3: { size_t k = t.find_last_of("\t "); static const char* l[] = {"-1", "625", "624", "0", "2147483647", "-2147483648", "99999999999999999999", "abc", "", "1", "623", "100000", "-625"}; int i = choose(13); t = t.substr(0, k == std::string::npos ? 0 : k + 1) + l[i]; log("position replaced by '%s'", l[i]); fault("damaged-position"); break; }
        case 4: { size_t k = choose((uint32_t)t.size()), e = t.find('\t', k); if (e == std::string::npos) break; t.erase(k, e - k); log("characters %zu..%zu lost", k, e); fault("lost-characters"); break; }
        case 5: { size_t k = choose((uint32_t)t.size()); t.insert(k, "\t5"); log("token inserted at %zu", k); fault("inserted-token"); break; }
        case 6: { t += "\t3"; log("more behind it"); break; }
        default: { size_t k = t.find('\t', choose((uint32_t)t.size())); if (k == std::string::npos) break; t.replace(k, 1, "\t999999999999\t"); log("too large a word at %zu", k); fault("oversized-word"); break; }
    }
    Source s; s.data = t; s.mode = choose(4); bool thr = false; long fa = -1;
    if (choose(3) == 2) { fa = s.fail_at = (long)choose((uint32_t)t.size() + 1); thr = choose(2); log("the source fails at %ld%s", fa, thr ? " with an exception" : ""); }
    SourceBuf sb(&s, 1 + choose(30)); sb.on_error = thr; std::istream is(&sb); bool ex = choose(3) == 2; if (ex) is.exceptions(std::ios::failbit | std::ios::badbit);
    Mt want; bool to_end = false; std::string vis = fa >= 0 ? t.substr(0, fa) : t; bool valid = parse_state(vis, want, to_end);
    uint32_t dseed = choose(5); std::unique_ptr<mtrand> g(new mtrand(dseed)); Mt before; before.seed(dseed); int p2 = some_draws(); for (int i = 0; i < p2; i++) { (void)g->randInt(); before.next(); }
    bool threw = false; set_crash_class("after-damaged-state");
    try { is >> *g; } catch (const std::exception&) { threw = true; }
    bool failed = is.fail() || threw;    // some standard libraries let an exception of the buffer out of the item's prefix
    log("valid %d, stream failed %d, threw %d", valid, failed, threw); state(mix(mix(valid * 2 + failed, t.size()), before.left));
    if (valid && !(thr && to_end)) SIM_CHECK(!failed && !threw, "restore-fails", "a valid state was refused");
    if (!valid) SIM_CHECK(failed, "damage-unnoticed", "the stream is not in a failed state after it could not supply a valid state");
    SIM_CHECK(!threw || ex || thr, "unexpected-exception", "the stream threw although its exceptions are off");
    use(*g, failed ? &before : valid ? &want : nullptr, failed ? "after a refused state" : "after a restored state");
    probe(failed ? "refused" : "restored");
}
SIM_SCENARIO(R02, damaged_array, 1) {
    uint32_t seed = choose(9); mtrand src(seed); int pre = some_draws(); for (int i = 0; i < pre; i++) (void)src.randInt();
    uint32_t arr[mtrand::SAVE]; src.save(arr); 
    int nw = choose(4); for (int i = 0; i < nw; i++) arr[choose(624)] = (uint32_t)bits64();
    if (choose(3)) { static const uint32_t l[] = {0, 1, 623, 624, 625, 626, 1000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffd8fu, 65536}; arr[624] = choose(3) ? l[choose(12)] : (uint32_t)bits64(); fault("damaged-position"); }
    log("position word %u", arr[624]); state(arr[624]);
    Mt m; memcpy(m.s, arr, sizeof m.s); m.left = (int)arr[624]; bool valid = arr[624] <= 624;
    std::unique_ptr<mtrand> g(new mtrand(3u)); set_crash_class("after-damaged-state");
    g->load(arr); use(*g, valid ? &m : nullptr, "after a restored array");
}
#endif

// ---------------------------------------------------------------- simulated entropy source and clocks
static struct World { bool on; int open_err; long fail_at; int fail_kind; int short_max; long pos; int opens, closes, live; uint64_t x; std::vector<uint32_t> delivered; int tmode; int64_t t, c; int tcalls; } W;
extern "C" {
FILE* __real_fopen(const char*, const char*); time_t __real_time(time_t*); clock_t __real_clock(void);
static ssize_t ent_read(void*, char* b, size_t n) {
    if (n == 0) return 0;
    if (W.fail_at >= 0 && W.pos >= W.fail_at) { if (W.fail_kind == 0) { fault("entropy-ends"); return 0; } errno = W.fail_kind == 1 ? EIO : W.fail_kind == 2 ? EINTR : EAGAIN; fault("entropy-fails"); return -1; }
    if (W.fail_at >= 0 && W.pos + (long)n > W.fail_at) n = W.fail_at - W.pos;
    if (W.short_max && n > (size_t)W.short_max) { n = W.short_max; }
    for (size_t i = 0; i < n; i++) { W.x = W.x * 6364136223846793005ull + 1442695040888963407ull; b[i] = (char)(W.x >> 56); }
    size_t at = W.delivered.size() * 4; (void)at; W.pos += n; return n;
}
static int ent_close(void*) { W.closes++; W.live--; return 0; }
FILE* __wrap_fopen(const char* p, const char* m) {
    if (!W.on) return __real_fopen(p, m);
    log("open %s", p);
    if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) { errno = ENOENT; return nullptr; }
    if (W.open_err) { static const int e[] = {0, ENOENT, EMFILE, EACCES, ENOMEM}; errno = e[W.open_err]; fault("entropy-cannot-open"); return nullptr; }
    NoFault nf; cookie_io_functions_t io = {}; io.read = ent_read; io.close = ent_close; W.opens++; W.live++; W.pos = 0;
    return fopencookie(nullptr, "rb", io);
}
static int64_t tick() {
    W.tcalls++;
    switch (W.tmode) { case 0: break; case 1: W.t += choose(3); break; case 2: W.t += (int64_t)choose(2001) - 1000; fault("clock-jump"); break; case 3: W.t = 1700000000 + choose(4); break; case 4: W.t = -1; fault("clock-fails"); break; case 5: W.t = 0; break; }
    return W.t;
}
time_t __wrap_time(time_t* o) { if (!W.on) return __real_time(o); time_t t = (time_t)tick(); if (o) *o = t; return t; }
clock_t __wrap_clock(void) { if (!W.on) return __real_clock(); switch (W.tmode) { case 0: break; case 4: W.c = -1; break; case 3: W.c = choose(5) * 1000; break; default: W.c += choose(3) * 100; } return (clock_t)W.c; }
}

#ifdef P_R03
__attribute__((noinline)) static void dirty_stack(uint32_t fill) { volatile uint32_t junk[4000]; for (auto& j : junk) j = fill; }
__attribute__((noinline)) static mtrand* self_seeded(void* mem, bool re_seed) { mtrand* g; if (re_seed) { g = new (mem) mtrand(1u); g->seed(); } else g = new (mem) mtrand(); return g; }
// the words drawn by a series of self-seeded generators, computed in a process of its own whose
// uninitialised memory holds `fill`
struct Plan { int open_err, fail_kind, short_max; long fail_at; bool re_seed; };
static std::vector<std::vector<uint32_t>> series(const std::vector<Plan>& plan, uint32_t fill, bool in_heap) {
    std::vector<std::vector<uint32_t>> out;
    for (auto& p : plan) {
        W.open_err = p.open_err; W.fail_at = p.fail_at; W.fail_kind = p.fail_kind; W.short_max = p.short_max; int live = W.live;
        std::vector<uint32_t> d; 
        void* mem = malloc(sizeof(mtrand)); for (size_t i = 0; i + 4 <= sizeof(mtrand); i += 4) memcpy((char*)mem + i, &fill, 4);
        mtrand* g;
        dirty_stack(fill);
        g = self_seeded(mem, p.re_seed);
        for (int i = 0; i < 640; i++) d.push_back(g->randInt());
        g->~mtrand(); free(mem); out.push_back(d);
        SIM_CHECK(W.live == live, "entropy-left-open", "the entropy source stays open");
    }
    return out;
}
SIM_SCENARIO(R03, series, 1) {
    int n = 1 + choose(6); std::vector<Plan> plan; 
    for (int i = 0; i < n; i++) {
        Plan p; p.open_err = choose(3) == 2 ? 1 + choose(4) : 0; p.fail_at = -1; p.fail_kind = choose(4); p.short_max = choose(3) ? 0 : 1 + choose(50); p.re_seed = choose(3) == 2;
        if (!p.open_err && choose(2)) { static const long at[] = {0, 1, 3, 4, 5, 2492, 2493, 2495, 2496, 2497, 4096}; p.fail_at = choose(2) ? at[choose(11)] : (long)choose(2496); }
        log("generator %d: open %d, fails at %ld (%d), pieces of %d%s", i, p.open_err, p.fail_at, p.fail_kind, p.short_max, p.re_seed ? ", by seed()" : ""); plan.push_back(p);
    }
    memset(&W, 0, sizeof(int) * 2); W.on = true; W.x = choose(1000); W.t = 1700000000; W.c = 12345; W.tmode = choose(6); W.opens = W.closes = W.live = 0; log("clock mode %d", W.tmode);
    // a process with other leftovers in its memory gives the same sequences
    int fd[2]; if (pipe(fd)) fail("simulator-limit", "pipe");
    bool det = W.tmode == 0 || W.tmode == 4 || W.tmode == 5;       // the clocks of the other process read the same
    pid_t pid = fork();
    if (pid == 0) { auto d = series(plan, 0x5a5a5a5a, true); for (auto& x : d) { const char* p = (const char*)x.data(); size_t left = x.size() * 4; while (left) { ssize_t k = ::write(fd[1], p, left); if (k <= 0) break; p += k; left -= k; } } _exit(0); }
    close(fd[1]); std::vector<uint32_t> other(n * 640); size_t got = 0; ssize_t k; while (got < other.size() * 4 && (k = ::read(fd[0], (char*)other.data() + got, other.size() * 4 - got)) > 0) got += k; close(fd[0]); int st; waitpid(pid, &st, 0);
    uint64_t x0 = W.x;
    auto d = series(plan, 0x11111111, true);
    SIM_CHECK(W.opens == W.closes, "entropy-left-open", "the entropy source was opened %d times and closed %d times", W.opens, W.closes);
    if (det && got == other.size() * 4) for (int i = 0; i < n; i++) for (int j = 0; j < 640; j++) SIM_CHECK(d[i][j] == other[i * 640 + j], "seed-from-leftovers", "generator %d depends on what happened to be in memory (draw %d)", i, j);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) SIM_CHECK(d[i] != d[j], "same-sequence", "generators %d and %d draw the same sequence", j, i);
    // full entropy is used when it is there: the sequence is that of the delivered words
    uint64_t x = x0;
    for (int i = 0; i < n; i++) {
        std::set<uint32_t> uniq(d[i].begin(), d[i].end()); SIM_CHECK(uniq.size() > 600, "not-seeded", "generator %d draws only %zu different values out of 640", i, uniq.size());
        (void)x; state(mix(plan[i].fail_at, plan[i].open_err * 8 + W.tmode));
        if (i == 0 && !plan[i].open_err && plan[i].fail_at < 0) {
            std::vector<uint32_t> key(624); unsigned char* b = (unsigned char*)key.data(); uint64_t y = x0; for (size_t q = 0; q < 2496; q++) { y = y * 6364136223846793005ull + 1442695040888963407ull; b[q] = (unsigned char)(y >> 56); }
            Mt m; m.seed(key); for (int j = 0; j < 640; j++) { uint32_t e = m.next(); SIM_CHECK(d[0][j] == e, "entropy-unused", "the first generator is not seeded with the 624 words of the entropy source"); }
            probe("full-entropy");
        }
    }
    W.on = false;
}
#endif

#ifdef P_R04
template<typename U> static U pick_u() { switch (choose(6)) { case 0: return (U)choose(4); case 1: return (U)(std::numeric_limits<U>::max() - (U)choose(4)); case 2: return (U)((U)1 << (choose(sizeof(U) * 8))); case 3: return (U)(((U)1 << (choose(sizeof(U) * 8))) - 1); default: return (U)bits64(); } }
template<typename U> static void uniform_run(const char* name) {
    U a = pick_u<U>(), b = choose(4) ? pick_u<U>() : a; if (b < a) std::swap(a, b); if (choose(6) == 5) { a = 0; b = std::numeric_limits<U>::max(); }
    unsigned __int128 size = (unsigned __int128)1 << (sizeof(U) * 8), width = (unsigned __int128)b - a + 1, mult = size / width * width;    // accept below mult
    int mode = choose(6); U stuck = pick_u<U>(); if (mode == 1 && mult < size) stuck = (U)(mult + (unsigned __int128)bits64() % (size - mult));
    log("%s [%llu, %llu], source mode %d", name, (unsigned long long)a, (unsigned long long)b, mode); static const char* mn[] = {"ordinary", "always-rejected", "stuck", "edge", "alternating", "late"}; if (mode) { char f[40]; snprintf(f, sizeof f, "source-%s", mn[mode]); fault(f); }
    int rounds = 1 + choose(6);
    for (int r = 0; r < rounds; r++) {
        std::vector<U> seq; int late = choose(25);
        for (int i = 0; i < 30; i++) { U v = (U)bits64(); if (mode == 1 || mode == 2) v = stuck; else if (mode == 3) v = (U)(mult + choose(5) - 2); else if (mode == 4) v = i & 1 ? (U)choose(7) : (U)(size - 1 - choose(3)); else if (mode == 5) v = i < late ? (U)(size - 1) : (U)0; seq.push_back(v); }
        int used = 0; std::function<U(void)> next = [&]() { if (used >= 30) fail("too-many-draws", "%s: more than 30 values drawn", name); return seq[used++]; };
        U v = uniform_next<U>(next, a, b); int want = 0; while (want < 19 && (unsigned __int128)seq[want] >= mult) want++; want++;
        SIM_CHECK(v >= a && v <= b, "out-of-range", "%s: %llu is outside [%llu, %llu]", name, (unsigned long long)v, (unsigned long long)a, (unsigned long long)b);
        SIM_CHECK(used <= 20, "too-many-draws", "%s: %d values drawn", name, used);
        SIM_CHECK(used == want, "wrong-acceptance", "%s: %d values drawn, expected %d", name, used, want);
        U q = integer_to_range<U, U>(seq[0], a, b); SIM_CHECK(q >= a && q <= b, "out-of-range", "integer_to_range: %llu is outside [%llu, %llu]", (unsigned long long)q, (unsigned long long)a, (unsigned long long)b);
        double d = integer_to_double_0_1<U>(seq[0]); SIM_CHECK(d >= 0 && d <= 1, "out-of-range", "integer_to_double_0_1(%llu) is %.17g", (unsigned long long)seq[0], d);
        if (width == size && seq[0] != seq[1]) { int i0 = 0, i1 = 1; U x = uniform_next<U>([&]() { return seq[i0]; }, a, b), y = uniform_next<U>([&]() { return seq[i1]; }, a, b); SIM_CHECK(x != y, "biased", "%s: full range: two source values give %llu", name, (unsigned long long)x); SIM_CHECK((integer_to_range<U, U>(seq[0], a, b) != integer_to_range<U, U>(seq[1], a, b)), "biased", "%s: integer_to_range over the full range maps two values to one", name); probe("full-range"); }
        state(mix(mix(a, b), mix(mode, seq[0])));
    }
}
// 16 bit, all source values
static void exhaustive16(uint32_t a, uint32_t b, uint32_t step) {
    static std::vector<uint32_t> hist; hist.assign(65536, 0); uint32_t rejected = 0; log("16 bit [%u, %u], all source values", a, b);
    for (uint32_t s = 0; s < 65536; s += step) { int used = 0; uint16_t v = uniform_next<uint16_t>([&]() { return used++ == 0 ? (uint16_t)s : (uint16_t)0; }, (uint16_t)a, (uint16_t)b); SIM_CHECK(v >= a && v <= b, "out-of-range", "16 bit: %u is outside [%u, %u]", v, a, b); if (used == 1) hist[v]++; else rejected++; }
    for (uint32_t v = a; v <= b; v++) SIM_CHECK(hist[v] == hist[a] && hist[v] > 0, "biased", "[%u, %u]: %u is hit %u times, %u is hit %u times", a, b, v, hist[v], a, hist[a]);
    SIM_CHECK(rejected < 32768, "rejects-too-much", "[%u, %u]: %u of 65536 values rejected", a, b, rejected);
}
SIM_SCENARIO(R04, uniform64, 2) { uniform_run<uint64_t>("64 bit"); }
SIM_SCENARIO(R04, uniform32, 2) { uniform_run<uint32_t>("32 bit"); }
SIM_SCENARIO(R04, uniform16, 1) { uniform_run<uint16_t>("16 bit"); if (choose(60) == 59) { uint32_t a = pick_u<uint16_t>(), b = pick_u<uint16_t>(); if (b < a) std::swap(a, b); if (choose(6) == 5) { a = 0; b = 65535; } exhaustive16(a, b, 1); } }
// every part of a range comes up
SIM_SCENARIO(R04, coverage, 1) {
    uint64_t s = bits64() | 1; xorshift_64star a(s); xorshift_1024star b(s); mtrand g((uint32_t)s); uint64_t lo = bits64() >> choose(64), w = 1 + choose(8); bool wide = choose(2); if (wide) w = 1ull << (8 + choose(55)); if (lo + (w - 1) < lo) lo = 0; uint64_t hi = lo + (w - 1);
    if (choose(12) == 11) { lo = 0; hi = ~0ull; w = 0; wide = true; } log("seed %llx, [%llu, %llu]", (unsigned long long)s, (unsigned long long)lo, (unsigned long long)hi);
    uint32_t n = (uint32_t)(wide ? (w - 1) >> 32 ? ~0u >> choose(20) : w - 1 + (w < ~0u - 2ull ? choose(3) : 0) : w - 1); uint32_t seen[5] = {0}; 
    for (int i = 0; i < 300; i++) { uint64_t v[5] = {a.next(lo, hi) - lo, a.next_uniform(lo, hi) - lo, b.next(lo, hi) - lo, b.next_uniform(lo, hi) - lo, g.randInt(n)};
        for (int j = 0; j < 5; j++) { uint64_t top = j < 4 ? hi - lo : n; SIM_CHECK(v[j] <= top, "out-of-range", "draw %d is outside the range", j); if (!wide) seen[j] |= 1u << v[j]; else seen[j] |= 1u << (int)((long double)v[j] / ((long double)top + 1) * 8); } }
    uint32_t full = wide ? 255u : (1u << w) - 1; static const char* nm[] = {"xorshift_64star::next", "xorshift_64star::next_uniform", "xorshift_1024star::next", "xorshift_1024star::next_uniform", "mtrand::randInt"};
    for (int j = 0; j < 5; j++) SIM_CHECK(seen[j] == full, "part-never-drawn", "%s: 300 draws from [%llu, %llu] leave parts %x of the range out", nm[j], (unsigned long long)lo, (unsigned long long)hi, full & ~seen[j]);
    if (wide) { uint64_t low[2] = {0, 0}, m = 255; if (hi - lo >= m) { std::set<uint64_t> d[5]; for (int i = 0; i < 200; i++) { d[0].insert((a.next(lo, hi) - lo) & 7); d[1].insert((a.next_uniform(lo, hi) - lo) & 7); d[2].insert((b.next(lo, hi) - lo) & 7); d[3].insert((b.next_uniform(lo, hi) - lo) & 7); d[4].insert(g.randInt(n) & 7); } for (int j = 0; j < 5; j++) SIM_CHECK(d[j].size() == 8, "part-never-drawn", "%s: the low bits take %zu of 8 values", nm[j], d[j].size()); } (void)low; }
    state(mix(lo, hi));
}
SIM_SCENARIO(R04, uniform8, 1) {   // all 256 source values: every value of the range is accepted equally often
    int a = choose(256), b = choose(256); if (b < a) std::swap(a, b); if (choose(40) == 39) { a = 0; b = 255; } log("8 bit [%d, %d]", a, b); int hist[256] = {0}, rejected = 0;
    for (int s = 0; s < 256; s++) { int used = 0; uint8_t v = uniform_next<uint8_t>([&]() { return used++ == 0 ? (uint8_t)s : (uint8_t)0; }, (uint8_t)a, (uint8_t)b); SIM_CHECK(v >= a && v <= b, "out-of-range", "8 bit: %d is outside [%d, %d]", v, a, b); if (used == 1) hist[v]++; else rejected++; 
        int used2 = 0; (void)uniform_next<uint8_t>([&]() { used2++; if (used2 > 25) fail("too-many-draws", "8 bit: more than 25 values drawn"); return (uint8_t)s; }, (uint8_t)a, (uint8_t)b); SIM_CHECK(used2 <= 20, "too-many-draws", "8 bit: %d values drawn", used2); }
    for (int v = a; v <= b; v++) SIM_CHECK(hist[v] == hist[a] && hist[v] > 0, "biased", "[%d, %d]: %d is hit %d times, %d is hit %d times", a, b, v, hist[v], a, hist[a]);
    SIM_CHECK(rejected < 128, "rejects-too-much", "[%d, %d]: %d of 256 values rejected", a, b, rejected); state(a * 256 + b);
}
SIM_SCENARIO(R04, generators, 2) {
    // generators in hostile states
    uint64_t s = choose(3) ? bits64() : (uint64_t)choose(2) * ~0ull; xorshift_64star a(s); xorshift_1024star b(s); uint64_t k[16]; for (auto& w : k) w = choose(3) ? bits64() : 0; xorshift_1024star c(k);
    uint64_t lo = pick_u<uint64_t>(), hi = pick_u<uint64_t>(); if (hi < lo) std::swap(lo, hi); if (choose(5) == 4) { lo = 0; hi = ~0ull; } log("xorshift state %llx, [%llx, %llx]", (unsigned long long)s, (unsigned long long)lo, (unsigned long long)hi); if (!s) fault("source-stuck");
    for (int i = 0; i < 12; i++) {
        uint64_t v[6] = {a.next(lo, hi), a.next_uniform(lo, hi), b.next(lo, hi), b.next_uniform(lo, hi), c.next(lo, hi), c.next_uniform(lo, hi)};
        for (auto x : v) SIM_CHECK(x >= lo && x <= hi, "out-of-range", "xorshift: %llx is outside [%llx, %llx]", (unsigned long long)x, (unsigned long long)lo, (unsigned long long)hi);
        double d[3] = {a.next_0_1(), b.next_0_1(), c.next_0_1()}; for (auto x : d) SIM_CHECK(x >= 0 && x <= 1, "out-of-range", "next_0_1 is %.17g", x);
    }
    uint32_t st[625]; int mode = choose(4); for (int i = 0; i < 624; i++) st[i] = mode == 0 ? 0 : mode == 1 ? untemper(0xffffffffu) : mode == 2 ? untemper(pick_u<uint32_t>()) : (uint32_t)bits64(); st[624] = choose(625); log("mersenne state mode %d", mode);
    if (mode < 2) fault(mode ? "source-always-largest" : "source-always-zero");
    mtrand g(1u); g.load(st); 
    for (int i = 0; i < 60; i++) {
        uint32_t n = pick_u<uint32_t>(); uint32_t r = g.randInt(n); SIM_CHECK(r <= n, "out-of-range", "randInt(%u) is %u", n, r);
        double x = g.rand(); SIM_CHECK(x >= 0 && x <= 1, "out-of-range", "rand() is %.17g", x); x = g.randExc(); SIM_CHECK(x >= 0 && x < 1, "out-of-range", "randExc() is %.17g", x); x = g.randDblExc(); SIM_CHECK(x > 0 && x < 1, "out-of-range", "randDblExc() is %.17g", x); x = g.rand53(); SIM_CHECK(x >= 0 && x < 1, "out-of-range", "rand53() is %.17g", x);
        double m = 1 + choose(100); x = g.rand(m); SIM_CHECK(x >= 0 && x <= m, "out-of-range", "rand(%g) is %.17g", m, x); x = g.randExc(m); SIM_CHECK(x >= 0 && x < m, "out-of-range", "randExc(%g) is %.17g", m, x); x = g.randDblExc(m); SIM_CHECK(x > 0 && x < m, "out-of-range", "randDblExc(%g) is %.17g", m, x);
        x = g.randNorm(0, 1); SIM_CHECK(std::isfinite(x), "out-of-range", "randNorm() is not finite"); x = g(); SIM_CHECK(x >= 0 && x <= 1, "out-of-range", "operator() is %.17g", x);
    }
    state(mix(s, mix(lo, hi)));
}
#endif

#ifdef P_K01
static struct { int64_t now; int mode; int reads; } C;
static int64_t reading() {
    C.reads++;
    switch (C.mode) { case 0: C.now += choose(1000); break; case 1: fault("clock-frozen"); break; case 2: C.now += (int64_t)(bits64() >> (16 + choose(40))); break; case 3: C.now += 1; break; default: C.now += (int64_t)choose(2000001) - 1000000; fault("clock-jump"); break; }
    return C.now;
}
template<typename REP, typename PER, int ID> struct SimClock { typedef REP rep; typedef PER period; typedef std::chrono::duration<REP, PER> duration; typedef std::chrono::time_point<SimClock> time_point; static const bool is_steady = true; static REP last; static time_point now() { last = (REP)reading(); return time_point(duration(last)); } };
template<typename R, typename P, int I> R SimClock<R, P, I>::last;
static bool near(double a, long double e, long double scale) { long double d = fabsl((long double)a - e); return d <= 4e-16L * (fabsl(e) > scale ? fabsl(e) : scale) + 1e-300L; }
template<typename CL> static void since_run(const char* name) {
    typedef typename CL::rep rep; typedef typename CL::period per; typedef typename CL::time_point tp;
    int64_t lim = sizeof(rep) >= 8 ? (int64_t)1 << 60 : (int64_t)1 << 28; C.reads = 0; C.mode = choose(5); C.now = choose(3) ? (int64_t)choose(1000000) : (int64_t)(bits64() % lim) - (choose(2) ? lim / 2 : 0);
    log("%s from %lld, mode %d", name, (long long)C.now, C.mode); if (std::is_floating_point<rep>::value || C.mode == 2) if (sizeof(rep) < 8) C.mode = 0; if (sizeof(rep) < 8 && C.mode == 4) C.mode = 3;
    tp t0 = CL::now(); rep r0 = CL::last; int n = 1 + choose(6); double last = -1;
    for (int i = 0; i < n; i++) {
        if (choose(4) == 3) { t0 = CL::now(); r0 = CL::last; last = -1; log("restarted"); }
        int before = C.reads; double d = altruct::chrono::since(t0); long double e = ((long double)CL::last - (long double)r0) * per::num / per::den;
        SIM_CHECK(C.reads == before + 1, "clock-not-read", "%s: since() read its clock %d times", name, C.reads - before);
        SIM_CHECK(near(d, e, 0), "wrong-elapsed-time", "%s: since() is %.17g, expected %.17Lg (readings %.17Lg and %.17Lg)", name, d, e, (long double)r0, (long double)CL::last);
        if (C.mode != 4) { SIM_CHECK(d >= 0, "negative-time", "%s: since() is %.17g on a steady clock", name, d); SIM_CHECK(d >= last, "time-goes-back", "%s: since() fell from %.17g to %.17g", name, last, d); last = d; }
        state(mix((uint64_t)CL::last, (uint64_t)r0)); sim_time((uint64_t)(fabs(d) < 1e9 ? fabs(d) * 1e9 : 0));
    }
    // a start point kept in a coarser or finer unit
    typedef std::chrono::time_point<CL, std::chrono::duration<double>> tpd; tpd td(std::chrono::duration<double>((double)r0 * per::num / per::den)); double d = altruct::chrono::since(td); long double e = ((long double)CL::last - (long double)r0) * per::num / per::den; long double mag = fabsl((long double)r0) * per::num / per::den;
    SIM_CHECK(near(d, e, 4 * mag), "wrong-elapsed-time", "%s: since() of a start point in seconds is %.17g, expected %.17Lg", name, d, e);
}
SIM_SCENARIO(K01, nanoseconds, 1) { since_run<SimClock<int64_t, std::nano, 1>>("nanosecond clock"); }
SIM_SCENARIO(K01, ticks, 1) { since_run<SimClock<int64_t, std::ratio<1, 10000000>, 2>>("100 ns clock"); }
SIM_SCENARIO(K01, film, 1) { since_run<SimClock<int64_t, std::ratio<1001, 24000>, 3>>("film frame clock"); }
SIM_SCENARIO(K01, minutes32, 1) { since_run<SimClock<int32_t, std::ratio<60>, 4>>("32 bit minute clock"); }
SIM_SCENARIO(K01, real_seconds, 1) { since_run<SimClock<double, std::ratio<1>, 5>>("floating clock"); }
// the cycle counter itself is simulated: the instruction traps and the next reading is handed out
static uint64_t g_tsc; static bool g_tsc_on; static int g_tsc_reads, g_tsc_mode;
static struct sigaction g_old_segv;
static void on_segv(int s, siginfo_t* i, void* c) {
    ucontext_t* u = (ucontext_t*)c; unsigned char* p = (unsigned char*)u->uc_mcontext.gregs[REG_RIP]; int len = p[0] == 0x0f && p[1] == 0x31 ? 2 : p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9 ? 3 : 0;
    if (g_tsc_on && len) { g_tsc_reads++; u->uc_mcontext.gregs[REG_RAX] = g_tsc & 0xffffffffu; u->uc_mcontext.gregs[REG_RDX] = g_tsc >> 32; if (len == 3) u->uc_mcontext.gregs[REG_RCX] = 0; u->uc_mcontext.gregs[REG_RIP] += len; return; }
    sigaction(SIGSEGV, &g_old_segv, nullptr);
}
template<long long F> static void rdtsc_run(const char* name) {
    typedef altruct::chrono::rdtsc_clock<F> CL;
    static_assert(CL::is_steady, "the cycle counter clock is steady"); static_assert(std::is_same<typename CL::time_point::clock, CL>::value, "its time points name it");
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_segv; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, &g_old_segv);
    int m = choose(5); static const uint64_t starts[] = {0, 0x7ffffff0ull, 0xfffffff0ull, (1ull << 53) - 5, 1ull << 40}; uint64_t t = choose(2) ? starts[choose(5)] : bits64() >> (2 + choose(30)); log("%s from %llu, mode %d", name, (unsigned long long)t, m);
    g_tsc = t; if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV) != 0) { count("tsc-trap-unavailable"); return; }
    g_tsc_on = true; auto t0 = CL::now(); uint64_t r0 = t; auto prev = t0; uint64_t rp = t; int n = 1 + choose(8); struct Res { long long cnt; double s; uint64_t r; bool mono; int reads; } res[10]; int k = 0; uint64_t seq[10];
    SIM_CHECK(t0.time_since_epoch().count() == (long long)r0, "wrong-reading", "%s: now() is %lld while the counter reads %llu", name, (long long)t0.time_since_epoch().count(), (unsigned long long)r0);
    for (int i = 0; i < n; i++) {
        switch (m) { case 0: t += choose(5000); break; case 1: fault("counter-frozen"); break; case 2: t += bits64() >> (20 + choose(30)); fault("counter-jump"); break; case 3: t += 1; break; default: t += 0xfffffff0ull + choose(32); fault("counter-passes-32-bits"); }
        if (t >> 62) break; g_tsc = t; int before = g_tsc_reads; auto t1 = CL::now(); long long c = t1.time_since_epoch().count();
        SIM_CHECK(g_tsc_reads == before + 1, "clock-not-read", "%s: now() read the counter %d times", name, g_tsc_reads - before);
        SIM_CHECK(c == (long long)t, "wrong-reading", "%s: now() is %lld while the counter reads %llu", name, c, (unsigned long long)t);
        SIM_CHECK(t1 >= prev, "time-goes-back", "%s: now() went back", name); prev = t1;
        double d = altruct::chrono::since(t0); long double e = (long double)(t - r0) / F; SIM_CHECK(near(d, e, 0), "wrong-elapsed-time", "%s: since() is %.17g, expected %.17Lg", name, d, e); state(mix(t, r0)); sim_time((uint64_t)(d < 1e9 ? d * 1e9 : 0));
    }
    g_tsc_on = false; prctl(PR_SET_TSC, PR_TSC_ENABLE); probe("cycle-counter");
    (void)res; (void)k; (void)seq; (void)rp;
}
SIM_SCENARIO(K01, rdtsc_default, 2) { rdtsc_run<2666666666>("cycle counter"); }
SIM_SCENARIO(K01, rdtsc_1hz, 1) { rdtsc_run<1>("1 Hz counter"); }
SIM_SCENARIO(K01, rdtsc_ghz, 1) { rdtsc_run<1000000000>("1 GHz counter"); }
#endif
