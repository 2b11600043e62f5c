#include "env.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>

namespace sim {
void bump_steps(uint64_t n);
void report_asan(const char* kind);

// ---------------------------------------------------------------- faults
int g_nofault = 0;
static uint64_t fp_n, fp_seen; static int fp_mask; static bool fp_did; static void (*fp_nested)();
NoFault::NoFault() { g_nofault++; }
NoFault::~NoFault() { g_nofault--; }
void fp_nest(void (*f)()) { fp_nested = f; }
void fp_arm(uint64_t n, int mask) { if (fp_nested) { mask &= ~FP_ALLOC; if (!mask) mask = FP_ALL & ~FP_ALLOC; } fp_n = n; fp_seen = 0; fp_mask = mask; fp_did = false; }
bool fp_disarm() { fp_n = 0; return fp_did; }
bool fp_fired() { return fp_did; }
uint64_t fp_passed() { return fp_seen; }
static bool fp_turn(int kind) {
    if (g_nofault || !(fp_mask & kind)) return false;
    fp_seen++;
    if (!fp_n || fp_seen != fp_n) return false;
    fp_n = 0;
    if (fp_nested) { uint64_t seen = fp_seen; g_nofault++; fault("nested-call"); g_nofault--; fp_nested(); fp_n = 0; fp_seen = seen; fp_mask = kind; fp_did = false; return false; }
    fp_did = true;
    g_nofault++;
    fault(kind == FP_ALLOC ? "bad_alloc" : kind == FP_COPY ? "copy-throws" : kind == FP_CMP ? "compare-throws" : "callback-throws");
    g_nofault--;
    return true;
}
// Waiting for a source or sink: a nested call may come here too.
static void nest_io() {
    if (!fp_nested || choose(8)) return;
    int nf = g_nofault, er = errno; fault("nested-call"); g_nofault = 0; fp_nested(); g_nofault = nf; errno = er; fp_n = 0; fp_did = false;
}
void fp_point(int kind) { if (fp_turn(kind)) throw SimFault(); }

static uint64_t g_live, g_calls;
uint64_t live_blocks() { return g_live; }
void forget_blocks(uint64_t n) { g_live -= n; }
uint64_t alloc_calls() { return g_calls; }
int g_in_new;
bool fp_malloc() { return fp_turn(FP_ALLOC); }

// ---------------------------------------------------------------- elements
int64_t Elem::live = 0;
enum : uint32_t { MAGIC = 0x5ea1e1e7u, DEAD = 0xdeadbea7u };
Elem::Elem() : v(0), magic(MAGIC) { live++; }
Elem::Elem(int v) : v(v), magic(MAGIC) { live++; }
static void okm(const Elem& e, const char* what) { if (e.magic != MAGIC) fail("element-lifetime", "%s an element that is not alive (marker %08x)", what, e.magic); }
Elem::Elem(const Elem& r) : v(0), magic(0) { okm(r, "copying"); fp_point(FP_COPY); v = r.v; magic = MAGIC; live++; }
static const int MOVED = -0x3aded;   // what an element is left with that was moved from
Elem::Elem(Elem&& r) noexcept : v(r.v), magic(MAGIC) { okm(r, "moving"); r.v = MOVED; live++; }
Elem::~Elem() { okm(*this, "destroying"); magic = DEAD; live--; }
Elem& Elem::operator=(const Elem& r) { okm(*this, "assigning to"); okm(r, "assigning from"); fp_point(FP_COPY); v = r.v; return *this; }
Elem& Elem::operator=(Elem&& r) noexcept { okm(*this, "assigning to"); okm(r, "assigning from"); if (this != &r) { v = r.v; r.v = MOVED; } return *this; }
int Elem::get() const { okm(*this, "reading"); return v; }
bool Elem::operator<(const Elem& r) const { okm(*this, "comparing"); okm(r, "comparing"); fp_point(FP_CMP); return v < r.v; }
bool Elem::operator==(const Elem& r) const { okm(*this, "comparing"); okm(r, "comparing"); fp_point(FP_CMP); return v == r.v; }

// ---------------------------------------------------------------- sources
void Source::setup(bool faults) {
    mode = choose(4);
    err_mode = faults ? (int)choose(4) * 60 : 0;
}
long Source::read(char* buf, size_t want) {
    reads++; last_was_error = false;
    if (reads > 50000) fail("no-progress", "the source was read %llu times and nothing ended", (unsigned long long)reads);
    if (want == 0) return 0;
    if (err_mode && chance(err_mode, 1000)) {
        errors++; last_was_error = true;
        if (choose(2)) { fault("read-EINTR"); errno = EINTR; } else { fault("read-EIO"); errno = EIO; }
        return -1;
    }
    if (fail_at >= 0 && (long)pos >= fail_at) { errors++; last_was_error = true; fault("read-dead"); errno = EIO; return -1; }
    size_t left = data.size() - pos, n = want < left ? want : left;
    if (fail_at >= 0 && (long)(pos + n) > fail_at) n = fail_at - pos;
    if (n > 1) {
        size_t m = n;
        if (mode == 1) m = 1 + choose(n < 9 ? n : 9);
        else if (mode == 2) m = 1;
        else if (mode == 3 && choose(3)) m = 1 + choose(n);
        if (m < n) { n = m; fault("short-read"); }
    }
    memcpy(buf, data.data() + pos, n); pos += n;
    nest_io();
    return (long)n;
}
static ssize_t src_read(void* c, char* buf, size_t n) { NoFault nf; return ((Source*)c)->read(buf, n); }
FILE* open_source(Source* s) {
    NoFault nf;
    cookie_io_functions_t io = {}; io.read = src_read;
    FILE* f = fopencookie(s, "rb", io);
    switch (choose(4)) {
        case 0: break;
        case 1: setvbuf(f, nullptr, _IONBF, 0); break;
        default: setvbuf(f, nullptr, _IOFBF, 1 + choose(40)); break;
    }
    return f;
}
SourceBuf::SourceBuf(Source* s, size_t n) : s(s), bufsz(n < 1 ? 1 : n > 64 ? 64 : n), on_error(0) { setg(b, b, b); }
SourceBuf::int_type SourceBuf::underflow() {
    NoFault nf;
    long n = s->read(b + 0, bufsz);
    if (n < 0 && on_error) throw SimFault();
    if (n <= 0) { setg(b, b, b); return traits_type::eof(); }
    setg(b, b, b + n);
    return traits_type::to_int_type(*gptr());
}
// A failure after some bytes ends the call with the bytes; only a call that got nothing throws
// (an exception out of a partial transfer would lose bytes inside the C++ library itself).
std::streamsize SourceBuf::xsgetn(char* d, std::streamsize n) {
    std::streamsize k = 0;
    while (k < n) {
        if (gptr() == egptr()) {
            int e = on_error; if (k) on_error = 0;
            int_type c = underflow(); on_error = e;
            if (traits_type::eq_int_type(c, traits_type::eof())) break;
        }
        d[k++] = *gptr(); gbump(1);
    }
    return k;
}

// ---------------------------------------------------------------- sinks
size_t Sink::write(const char* p, size_t n, bool* err) {
    NoFault nf;
    writes++; *err = false;
    if (n == 0) return 0;
    if (errors > 3000) fail("no-progress", "the sink failed %llu times and the writer is still trying", (unsigned long long)errors);
    if (down > 0 || (err_mode && chance(err_mode, 1000))) {
        if (down > 0) down--; else down = (int)choose(4);
        errors++; *err = true;
        size_t part = choose(3) == 2 ? choose((uint32_t)n) : 0;
        int kind = choose(3);
        errno = kind == 0 ? ENOSPC : kind == 1 ? EIO : EINTR;
        fault(part ? "torn-write" : kind == 0 ? "write-ENOSPC" : kind == 1 ? "write-EIO" : "write-EINTR");
        if (part) { got.append(p, part); chunks.push_back(std::string(p, part)); }
        return part;
    }
    if (mode == 1 && n > 1) { size_t m = 1 + choose((uint32_t)n); if (m < n) fault("short-write"); n = m; }
    got.append(p, n); chunks.push_back(std::string(p, n));
    nest_io();
    return n;
}
static ssize_t snk_write(void* c, const char* buf, size_t n) {
    // a cookie stream reports any short count as an error of the stream
    Sink* s = (Sink*)c; bool err; int m = s->mode; s->mode = 0;
    size_t r = s->write(buf, n, &err); s->mode = m;
    return (ssize_t)r;
}
FILE* open_sink(Sink* s) {
    NoFault nf;
    cookie_io_functions_t io = {}; io.write = snk_write;
    FILE* f = fopencookie(s, "wb", io);
    switch (choose(4)) {
        case 0: break;
        case 1: setvbuf(f, nullptr, _IONBF, 0); break;
        default: setvbuf(f, nullptr, choose(2) ? _IOLBF : _IOFBF, 1 + choose(40)); break;
    }
    return f;
}
SinkBuf::int_type SinkBuf::overflow(int_type c) {
    char ch = (char)c; bool err;
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    int m = s->mode; s->mode = 0; size_t r = s->write(&ch, 1, &err); s->mode = m;
    if (r == 1) return c;
    if (throws) throw SimFault();
    return traits_type::eof();
}
std::streamsize SinkBuf::xsputn(const char* p, std::streamsize n) {
    std::streamsize done = 0;
    while (done < n) {
        bool err; size_t r = s->write(p + done, (size_t)(n - done), &err);
        done += (std::streamsize)r;
        if (err) { if (throws) throw SimFault(); return done; }
    }
    return done;
}
int SinkBuf::sync() { return 0; }

} // namespace sim

// ---------------------------------------------------------------- allocator
static void* do_new(size_t n) {
    if (sim::fp_turn(sim::FP_ALLOC)) throw std::bad_alloc();
    sim::g_in_new++; void* p = malloc(n ? n : 1); sim::g_in_new--;
    if (!p) throw std::bad_alloc();
    sim::g_live++; sim::g_calls++;
    memset(p, 0xA5, n < 65536 ? n : 65536);      // uninitialised memory is the same in every run
    return p;
}
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
static void do_del(void* p) { if (p) { sim::g_live--; sim::g_in_new++; free(p); sim::g_in_new--; } }
void operator delete(void* p) noexcept { do_del(p); }
void operator delete[](void* p) noexcept { do_del(p); }
void operator delete(void* p, size_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t) noexcept { do_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_del(p); }

// ---------------------------------------------------------------- sanitizer glue
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) { for (; start < stop; start++) *start = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { static uint32_t n; if ((++n & 1023) == 0) sim::bump_steps(1024); }
const char* __asan_default_options() { return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=165:symbolize=0:malloc_context_size=0:quarantine_size_mb=8"; }
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=77"; }
void __asan_set_error_report_callback(void (*)(const char*));
}
static void asan_cb(const char* rep) {
    const char* p = strstr(rep, "AddressSanitizer: ");
    char b[120]; int i = 0;
    if (p) { p += 18; while (*p && *p != ' ' && *p != '\n' && i < 60) b[i++] = *p++; }
    b[i] = 0;
    if (!i) strcpy(b, "memory-error");
    if (strstr(rep, "WRITE of")) strcat(b, "-write"); else if (strstr(rep, "READ of")) strcat(b, "-read");
    sim::report_asan(b);
}
struct AsanInit { AsanInit() { __asan_set_error_report_callback(asan_cb); } } g_asan_init;
