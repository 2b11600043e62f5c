// Simulated environment for single-threaded scenarios: allocation and element
// failures, simulated files and streams, entropy and clocks.
#pragma once
#include "core.h"
#include <stdio.h>
#include <exception>
#include <new>
#include <string>
#include <vector>
#include <streambuf>

namespace sim {

// ---- fault points ------------------------------------------------------
// Every allocation and every tracked element operation is a fault point; the
// n-th one from arm() on fails, once. n = 0: none.
struct SimFault : std::exception { const char* what() const noexcept override { return "simulated fault"; } };
enum { FP_ALLOC = 1, FP_COPY = 2, FP_CMP = 4, FP_USER = 8, FP_ALL = 15 };
void fp_arm(uint64_t n, int mask = FP_ALL);
void fp_nest(void (*f)());         // from now on an armed fault is a call of f in the middle of the operation
bool fp_disarm();                 // true if the armed fault fired
bool fp_fired();
void fp_point(int kind);          // throws SimFault when it is this one's turn
uint64_t fp_passed();             // points passed since arm()

uint64_t live_blocks();           // operator new blocks alive
void forget_blocks(uint64_t n);   // n of them will not be given back through operator delete
uint64_t alloc_calls();
struct NoFault { NoFault(); ~NoFault(); };   // harness-internal allocations never fail
extern int g_nofault;

// for harnesses that wrap malloc and free as well
extern int g_in_new;              // the call comes from operator new or delete
bool fp_malloc();                 // this malloc is to fail

// ---- tracked element ---------------------------------------------------
struct Elem {
    int v; uint32_t magic;
    static int64_t live;
    Elem() ; Elem(int v); Elem(const Elem& r); Elem(Elem&& r) noexcept; ~Elem();
    Elem& operator=(const Elem& r); Elem& operator=(Elem&& r) noexcept;
    int get() const;
    bool operator<(const Elem& r) const; bool operator==(const Elem& r) const; bool operator!=(const Elem& r) const { return !(*this == r); }
};

// ---- simulated input source -------------------------------------------
// Decides how many bytes of the content the next read delivers.
struct Source {
    std::string data; size_t pos = 0;
    int mode = 0;            // 0: everything asked; 1: random short; 2: one byte; 3: mixed
    int err_mode = 0;        // 0: none, else per-mille of transient errors per read
    uint64_t reads = 0, errors = 0;
    bool last_was_error = false;
    long fail_at = -1;       // permanent failure at this offset (-1: none)
    void setup(bool faults);
    // returns bytes delivered (0 = end of data), or -1 for a transient error
    long read(char* buf, size_t want);
};
FILE* open_source(Source* s);         // fopencookie over a Source; may choose its stdio buffering
struct SourceBuf : std::streambuf {   // istream over a Source
    Source* s; char b[64]; size_t bufsz; int on_error;  // 0: eof-like, 1: throw
    SourceBuf(Source* s, size_t bufsz = 1);
    int_type underflow() override;
    std::streamsize xsgetn(char* d, std::streamsize n) override;
};

// ---- simulated output sink --------------------------------------------
struct Sink {
    std::string got;
    struct Chunk { std::string data; bool torn; };
    std::vector<std::string> chunks;   // accepted pieces in order
    int mode = 0;            // 0: takes everything; 1: takes it in small pieces (no error)
    int err_mode = 0;        // per-mille of failures
    int down = 0;            // failing calls still to come
    uint64_t writes = 0, errors = 0;
    // returns bytes accepted; *err set when it failed (a torn write has accepted > 0 as well)
    size_t write(const char* p, size_t n, bool* err);
};
FILE* open_sink(Sink* s);
struct SinkBuf : std::streambuf {
    Sink* s; bool throws;
    SinkBuf(Sink* s, bool throws = false) : s(s), throws(throws) {}
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* p, std::streamsize n) override;
    int sync() override;
};

} // namespace sim
