// I01-I08: readers, writers and stream helpers over simulated files and streams.
#include "../sim/env.h"
#include <limits.h>
#include <math.h>
#include <string.h>
#include <cstring>
#include <array>
#include <istream>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include "altruct/io/fast_io.h"
#include "altruct/io/iostream_overloads.h"
#include "altruct/io/reader.h"
#include "altruct/io/stream_tokenizer.h"
#include "altruct/io/writer.h"
using namespace sim;
namespace aio = altruct::io;

namespace io_h {
const size_t NPOS = (size_t)-1;
std::string show(const char* p, size_t n) { std::string s; char b[8]; for (size_t i = 0; i < n && i < 40; i++) { unsigned char c = p[i]; if (c >= 33 && c < 127 && c != '\\') s += (char)c; else { snprintf(b, sizeof b, "\\%02x", c); s += b; } } if (n > 40) s += ".."; return s; }
std::string show(const std::string& s) { return show(s.data(), s.size()); }
// an exactly sized block, so that any access beyond it is an access to a red zone
struct Exact { char* p; size_t n; explicit Exact(size_t n) : p(new char[n ? n : 1]), n(n) { memset(p, 0x5c, n ? n : 1); } explicit Exact(const std::string& s) : Exact(s.size()) { memcpy(p, s.data(), s.size()); } ~Exact() { delete[] p; } Exact(const Exact&) = delete; };

// ---------------------------------------------------------------- reading side
struct In {
    Source src; FILE* file = nullptr; std::unique_ptr<SourceBuf> sb; std::unique_ptr<std::istream> is; std::unique_ptr<Exact> str;
    std::vector<std::unique_ptr<aio::reader>> layers; std::unique_ptr<aio::fast_read> fr;
    aio::reader* top = nullptr; aio::buffered_reader* b = nullptr; aio::simple_reader* s = nullptr;
    size_t cap = NPOS;      // smallest buffer on the way
    size_t topcap = NPOS; bool exc = false; std::string what;
    // want: 0 anything, 1 buffered, 2 simple or fast
    void open(const std::string& content, int want, bool faults, int mincap = 1) {
        src.data = content; int base = choose(4); bool fast = base == 3; if (fast) base = 0;
        if (base != 2) src.setup(faults);
        if (base == 0) { file = open_source(&src); what = "file"; if (!fast) layers.emplace_back(new aio::file_reader(file)); }
        else if (base == 1) { sb.reset(new SourceBuf(&src, choose(3) ? 1 + choose(20) : 1)); if (faults) sb->on_error = choose(2); is.reset(new std::istream(sb.get())); layers.emplace_back(new aio::stream_reader(*is)); what = "stream"; }
        else { str.reset(new Exact(content)); layers.emplace_back(new aio::string_reader(str->p, content.size())); what = "string"; }
        if (fast) { cap = topcap = pick_cap(mincap); fr.reset(new aio::fast_read(file, cap)); what += "+fast"; }
        else {
            int n = want ? 1 + (choose(3) == 2) : choose(3);
            for (int i = 0; i < n; i++) {
                bool simple = (want == 2 && i == n - 1) || choose(2); size_t c = pick_cap(mincap); aio::reader& below = *layers.back();
                if (simple) { s = new aio::simple_reader(below, c); b = s; } else { s = nullptr; b = new aio::buffered_reader(below, c); }
                layers.emplace_back(b); cap = std::min(cap, c); topcap = c; what += simple ? "+simple" : "+buffered";
            }
            top = layers.back().get();
        }
        log("source of %zu bytes: %s, smallest buffer %zd, split mode %d, errors %d/1000: %s", content.size(), what.c_str(), (ssize_t)cap, src.mode, src.err_mode, show(content).c_str());
    }
    static size_t pick_cap(int mn) { size_t c = choose(5) ? 1 + choose(16) : 1 + choose(100); return std::max<size_t>(c, mn); }
    uint64_t errors() const { return src.errors; }
    void recover() { if (is && !*is) is->clear(); }
    ~In() { fr.reset(); while (!layers.empty()) layers.pop_back(); is.reset(); sb.reset(); if (file) { NoFault nf; fclose(file); } }
};
std::string any_bytes(int maxn) {
    int n = (int)small(maxn), k = choose(4); std::string s;
    for (int i = 0; i < n; i++) switch (k) { case 0: s += (char)choose(256); break; case 1: s += (char)(0x80 + choose(128)); break; case 2: s += "\xff\x00\x20\x0a\x2d\x61"[choose(6)]; break; default: s += (char)(i + 1); }
    return s;
}
// I01, I02
void read_history(bool flags) {
    std::string C = any_bytes(120); In in; bool faults = choose(2); in.open(C, 0, faults);
    size_t pos = 0; bool can_unread = false, failed = false; int nops = 1 + small(40);
    auto left = [&]() { return C.size() - pos; };
    for (int i = 0; i < nops; i++) {
        uint64_t e0 = in.errors(); auto hurt = [&]() { return in.errors() != e0; }; bool unr = false; bool ask = false, shortf = false;
        int op = choose(9);
        if (!in.b && !in.fr) op %= 2;
        if (op == 0) {
            int c = in.top ? in.top->read_char() : in.fr->read_char(); log("read_char -> %d", c); ask = true;
            if (c == -1) { shortf = true; SIM_CHECK(!left() || hurt(), "end-too-early", "read_char says end of input with %zu bytes left", left()); }
            else { SIM_CHECK(left(), "byte-invented", "read_char gives %d after the last byte", c); SIM_CHECK(c == (unsigned char)C[pos], "wrong-byte", "read_char gives %d instead of %d at offset %zu", c, (unsigned char)C[pos], pos); pos++; unr = true; }
        } else if (op == 1 && in.top) {
            size_t n = choose(4) ? choose(12) : choose(100); if (flags && in.cap != NPOS) n = std::min(n, in.cap); Exact buf(n); size_t k = in.top->read(buf.p, n); log("read(%zu) -> %zu", n, k); ask = true; shortf = k < n;
            SIM_CHECK(k <= n && k <= left(), "count-wrong", "read(%zu) reports %zu bytes, %zu were left", n, k, left());
            SIM_CHECK(!memcmp(buf.p, C.data() + pos, k), "wrong-byte", "read(%zu) at offset %zu gives %s instead of %s", n, pos, show(buf.p, k).c_str(), show(C.data() + pos, k).c_str());
            for (size_t j = k; j < n; j++) (void)buf.p[j];
            SIM_CHECK(k == n || k == left() || hurt() || n > in.cap, "end-too-early", "read(%zu) gives only %zu of the %zu bytes left", n, k, left());
            pos += k;
        } else if (op == 2 && can_unread) { if (in.b) in.b->unread_char(); else in.fr->unread_char(); pos--; log("unread_char"); }
        else if (op == 3) {
            size_t avail = in.b ? in.b->reserve(0) : in.fr->available(); size_t n = choose(14); if (flags) n = std::min(n, avail); size_t k;
            if (in.b) k = in.b->skip(n); else { in.fr->skip(n); k = std::min(n, avail); }
            log("skip(%zu) with %zu buffered -> %zu", n, avail, k); SIM_CHECK(k <= n && k <= left(), "count-wrong", "skip(%zu) reports %zu with %zu left", n, k, left()); pos += k;
            if (in.fr) SIM_CHECK(in.fr->available() == avail - k, "count-wrong", "%zu characters available after skipping %zu of %zu", in.fr->available(), n, avail);
        } else if (op == 4) {
            size_t n = choose(20); size_t k = in.b ? in.b->reserve(n) : in.fr->reserve(n); log("reserve(%zu) -> %zu", n, k);
            SIM_CHECK(k <= left(), "count-wrong", "reserve reports %zu characters, %zu are left", k, left());
            SIM_CHECK(k >= n || k == left() || hurt() || n > in.topcap, "end-too-early", "reserve(%zu) gets only %zu of the %zu bytes left", n, k, left());
        } else if (op == 5) {
            size_t n = choose(3) ? choose(8) : 0; const char* p = in.b ? in.b->data(n) : in.fr->data(n); size_t k = in.b ? in.b->reserve(0) : in.fr->available(); log("data(%zu) -> %s, %zu buffered", n, p ? "pointer" : "null", k);
            ask = true; shortf = !p;
            SIM_CHECK(k <= left(), "count-wrong", "%zu characters buffered, %zu are left", k, left());
            if (!p) SIM_CHECK(k < n && (n > left() || n > in.topcap || hurt()), "end-too-early", "data(%zu) gives null with %zu left", n, left());
            else { SIM_CHECK(k >= n, "count-wrong", "data(%zu) gives a pointer to %zu characters", n, k); SIM_CHECK(!memcmp(p, C.data() + pos, k), "wrong-byte", "buffered data %s differs from %s", show(p, k).c_str(), show(C.data() + pos, k).c_str()); SIM_CHECK(p[k] == 0, "not-terminated", "buffered data is not followed by a zero byte"); }
        } else if (op == 6) { size_t k = in.b ? in.b->refill() : in.fr->refill(); log("refill -> %zu", k); SIM_CHECK(k <= left(), "count-wrong", "refill reports %zu characters, %zu are left", k, left()); SIM_CHECK(k == std::min(left(), in.topcap) || hurt(), "end-too-early", "refill gets %zu of %zu", k, left()); }
        else if (op == 7) {
            size_t avail = in.b ? in.b->reserve(0) : in.fr->available(); int n = (int)choose((uint32_t)std::min<size_t>(avail, 9) + 1); (in.b ? in.b->counter() : in.fr->counter()) = n; if (in.b) in.b->advance(); else in.fr->advance();
            pos += n; log("advance by %d", n); SIM_CHECK((in.b ? in.b->counter() : in.fr->counter()) == 0, "count-wrong", "counter is not reset by advance");
        } else if (in.b) { size_t k = in.b->reserve(0); log("reserve(0) -> %zu", k); SIM_CHECK(k <= left() && k <= in.topcap, "count-wrong", "%zu characters buffered, %zu left", k, left()); }
        if (ask && shortf) failed = true;
        if (flags && in.top) { bool ok = bool(*in.top); if (ask) SIM_CHECK(ok == !failed, "indicator-wrong", "the reader says %s after %s operation", ok ? "good" : "failed", shortf ? "an incomplete" : failed ? "an earlier incomplete" : "a complete"); else SIM_CHECK(ok == !failed, "indicator-wrong", "the indicator changed to %d without a read", ok); }
        if (in.is && !*in.is) { in.is->clear(); if (!in.b) failed = false; }
        can_unread = unr && (in.b || in.fr);
    }
    // faults stop: everything that is left must arrive
    in.src.err_mode = 0; in.recover(); bool blocks = in.top && choose(2);
    for (size_t guard = 0; guard < 400; guard++) {
        if (blocks) { size_t n = 1 + choose(8); Exact buf(n); size_t k = in.top->read(buf.p, n); SIM_CHECK(k <= left() && k <= n && !memcmp(buf.p, C.data() + pos, k), "wrong-byte", "the remaining bytes differ at offset %zu", pos); pos += k; if (!k) break; }
        else { int c = in.top ? in.top->read_char() : in.fr->read_char(); if (c == -1) break; SIM_CHECK(left() && c == (unsigned char)C[pos], "wrong-byte", "the remaining bytes differ at offset %zu: %d", pos, c); pos++; }
        in.recover();
    }
    SIM_CHECK(pos == C.size(), "bytes-lost", "%zu of %zu bytes were never delivered", C.size() - pos, C.size());
    if (flags && in.top) { char c; SIM_CHECK(in.top->read_char() == -1 && in.top->read(&c, 1) == 0 && !bool(*in.top), "indicator-wrong", "the end of input is not reported"); }
    probe("drained"); if (in.errors()) probe("drained-after-errors");
    state(log_hash());
}
} // namespace io_h
using namespace io_h;

#ifdef P_I01
SIM_SCENARIO(I01, bytes, 1) { read_history(false); }
#endif
#ifdef P_I02
SIM_SCENARIO(I02, indicator, 1) { read_history(true); }
#endif

// ---------------------------------------------------------------- items
namespace io_h {
struct Item { int k; std::string text; long long i = 0; double d = 0; std::string s; char delim = '\n'; bool more = false; };
enum { K_INT, K_LL, K_DOUBLE, K_FLOAT, K_WORD, K_LINE, K_CHAR, K_FORMAT, K_LONG };
long long any_int(long long lo, long long hi) { switch (choose(6)) { case 0: return lo; case 1: return hi; case 2: return (long long)choose(20) - 10; case 3: return lo + (long long)choose(3); case 4: return hi - (long long)choose(3); default: { long long v = (long long)(bits64() >> choose(64)); if (choose(2)) v = -v; return v < lo ? lo : v > hi ? hi : v; } } }
std::string any_word(bool nonempty) { std::string s; int n = (nonempty ? 1 : 0) + small(12); int k = choose(3); for (int i = 0; i < n; i++) s += k == 0 ? (char)('a' + choose(26)) : k == 1 ? (char)(0x21 + choose(0xde)) : (char)(0x80 + choose(0x80)); return s; }
std::string any_line(char delim) { std::string s; int n = small(14); int k = choose(3); for (int i = 0; i < n; i++) { char c = k == 0 ? (char)(' ' + choose(90)) : (char)choose(256); if (c != delim) s += c; } return s; }
std::string dbl_text(double* v, bool wide) { std::string t; int n = 1 + choose(7), f = choose(7); if (wide && choose(6) == 1) n += choose(25); if (wide && choose(6) == 1) f += choose(20); if (choose(3) == 1) t += "-"; else if (choose(4) == 1) t += "+"; for (int i = 0; i < n; i++) t += (char)('0' + choose(10)); if (choose(3)) { t += '.'; for (int i = 0; i < f; i++) t += (char)('0' + choose(10)); } if (choose(3) == 1) { t += choose(2) ? 'e' : 'E'; int z = choose(3); if (z == 1) t += '-'; if (z == 2) t += '+'; t += std::to_string(choose(wide ? 200 : 30)); } *v = strtod(t.c_str(), nullptr); return t; }
const char WS[] = " \t\n\r";
char any_space() { return choose(3) ? WS[choose(4)] : (char)choose(33); }   // the readers take control characters for white space
void read_items(bool faults) {
    std::vector<Item> items; std::string C; int n = 1 + small(8); bool newline_mode = false;
    for (int i = 0; i < n; i++) {
        Item it; it.k = choose(9); bool last = i == n - 1; std::string lead; char end = 0;
        if (it.k != K_LINE && it.k != K_CHAR) for (int j = choose(3); j > 0; j--) lead += it.k == K_FORMAT ? WS[choose(4)] : any_space();
        switch (it.k) {
            case K_INT: it.i = any_int(INT_MIN, INT_MAX); goto num; case K_LONG: it.i = any_int(LONG_MIN, LONG_MAX); goto num; case K_LL: it.i = any_int(LLONG_MIN, LLONG_MAX);
            num: it.text = std::to_string(it.i); if (it.i >= 0 && choose(4) == 1) it.text = "+" + it.text; if (it.i > 0 && it.text[0] != '+' && choose(5) == 1) it.text = "00" + it.text; end = " \n,;:a-+.x"[choose(10)]; break;
            case K_DOUBLE: case K_FLOAT: it.text = dbl_text(&it.d, it.k == K_DOUBLE); end = " \n,;:a-+x"[choose(9)]; break;
            case K_WORD: it.s = it.text = any_word(true); end = any_space(); break;
            case K_LINE: it.delim = choose(3) ? '\n' : (char)choose(256); it.s = it.text = any_line(it.delim); it.more = !last || choose(2); if (it.more) it.text += it.delim; break;
            case K_CHAR: it.s = it.text = std::string(1, (char)choose(256)); break;
            default: it.i = any_int(-100000, 100000); it.text = std::to_string(it.i); { std::string w = "0x" + std::to_string(1 + choose(999)); it.s = w; it.text += " " + w; } end = " ,;\n"[choose(4)]; break;
        }
        C += lead + it.text; it.text = lead + it.text;
        // an item is followed by a character that cannot belong to it
        if ((end || it.k == K_WORD) && (!last || choose(2))) { C += end; it.more = true; items.push_back(it); if (!last || true) { Item sep; sep.k = K_CHAR; sep.s = std::string(1, end); sep.text = sep.s; items.push_back(sep); } } else items.push_back(it);
    }
    (void)newline_mode;
    In in; int mincap = 1; for (auto& it : items) if (it.k == K_FORMAT) mincap = std::max<int>(mincap, (int)it.text.size() + 1);
    in.open(C, 2, faults, mincap); int err = in.src.err_mode; in.src.err_mode = 0;
    aio::simple_reader* s = in.s; aio::fast_read* f = in.fr.get(); std::unique_ptr<aio::simple_reader_stream> st; if (s) st.reset(new aio::simple_reader_stream(*s));
    size_t pos = 0;
    for (auto& it : items) {
        // errors happen while waiting for the item, not within it
        in.src.err_mode = err;
        for (int g = 0; g < 400; g++) { size_t k = s ? s->reserve(1) : f->reserve(1); in.recover(); if (k || pos == C.size()) break; }
        in.src.err_mode = 0; in.recover();
        bool via = choose(2); 
        switch (it.k) {
            case K_INT: case K_LL: case K_LONG: {
                long long v; if (it.k == K_INT) { int x; if (s) { if (via) *st >> x; else x = s->read_int(); } else { if (via) *f >> x; else x = f->read_int(); } v = x; } else if (it.k == K_LONG) { long x; if (s) { if (via) *st >> x; else x = s->read_l(); } else { if (via) *f >> x; else x = f->read_l(); } v = x; } else { long long x; if (s) { if (via) *st >> x; else x = s->read_ll(); } else { if (via) *f >> x; else x = f->read_ll(); } v = x; }
                log("integer %lld", v); SIM_CHECK(v == it.i, "wrong-value", "read %lld where the text says %s", v, show(it.text).c_str()); break; }
            case K_DOUBLE: { double x; if (s) { if (via) *st >> x; else x = s->read_double(); } else { if (via) *f >> x; else x = f->read_double(); } log("double %.17g", x); SIM_CHECK(fabs(x - it.d) <= 1e-12 * fabs(it.d), "wrong-value", "read %.17g where the text says %s", x, show(it.text).c_str()); break; }
            case K_FLOAT: { float x; if (s) { if (via) *st >> x; else x = s->read_float(); } else { if (via) *f >> x; else x = f->read_float(); } log("float %.9g", x); SIM_CHECK(fabs(x - it.d) <= 1e-4 * fabs(it.d) || fabs(it.d) > 1e36 || fabs(it.d) < 1e-20, "wrong-value", "read %.9g where the text says %s", x, show(it.text).c_str()); break; }
            case K_WORD: { std::string x; if (s) { if (via) *st >> x; else x = s->read_string(); } else { if (via) *f >> x; else x = f->read_string(); } log("word %s", show(x).c_str()); SIM_CHECK(x == it.s, "wrong-value", "read the word %s where the text says %s", show(x).c_str(), show(it.s).c_str()); break; }
            case K_LINE: { std::string x; if (s) { x = via ? st->read_line(it.delim) : s->read_line(it.delim); } else { int c; for (c = f->read_char(); c != -1 && c != (unsigned char)it.delim; c = f->read_char()) x += (char)c; } log("line %s", show(x).c_str()); SIM_CHECK(x == it.s, "wrong-value", "read the line %s where the text says %s", show(x).c_str(), show(it.s).c_str()); break; }
            case K_CHAR: { char x; if (s) { if (via) *st >> x; else x = (char)s->read_char(); } else { if (via) *f >> x; else x = (char)f->read_char(); } log("char %d", x); SIM_CHECK(x == it.s[0], "wrong-value", "read the character %d where the text has %d", x, it.s[0]); break; }
            default: { size_t need = it.text.size() + 1; int v = 0; unsigned h = 0; const char* p; int* cnt; if (s) { s->reserve(need); p = s->data(); cnt = &s->counter(); } else { f->reserve(need); p = f->data(); cnt = &f->counter(); } SIM_CHECK(p, "wrong-value", "no data for a formatted field"); int k = sscanf(p, "%d %x%n", &v, &h, cnt); if (s) s->advance(); else f->advance(); log("formatted %d %x", v, h); SIM_CHECK(k == 2 && v == (int)it.i && h == (unsigned)strtoul(it.s.c_str(), 0, 16), "wrong-value", "formatted field %d %x where the text says %s", v, h, show(it.text).c_str()); }
        }
        pos += it.text.size();
        // the reader stands right behind the item
        int c = s ? s->read_char() : f->read_char();
        if (pos < C.size()) { SIM_CHECK(c == (unsigned char)C[pos], "wrong-position", "behind the item %s the reader gives %d instead of %d", show(it.text).c_str(), c, (unsigned char)C[pos]); if (s) s->unread_char(); else f->unread_char(); }
        else SIM_CHECK(c == -1, "wrong-position", "behind the last item %s the reader gives %d", show(it.text).c_str(), c);
        char b[24]; snprintf(b, sizeof b, "item-%d", it.k); probe(b); in.recover();
    }
    state(log_hash());
}
} // namespace io_h
#ifdef P_I03
SIM_SCENARIO(I03, items, 1) { read_items(choose(2)); }
#endif

// ---------------------------------------------------------------- writing side
namespace io_h {
struct OutStack {
    Sink sink; FILE* file = nullptr; std::unique_ptr<SinkBuf> sb; std::unique_ptr<std::ostream> os; std::unique_ptr<Exact> str; size_t strcap = 0;
    std::vector<std::unique_ptr<aio::writer>> layers; std::unique_ptr<aio::fast_write> fw; aio::writer* top = nullptr; aio::buffered_writer* b = nullptr; aio::simple_writer* s = nullptr; size_t topcap = NPOS; std::string what; bool lost_reported = false;
    // want: 0 anything, 2 simple or fast
    void open(int want, bool faults, bool strings) {
        int base = choose(strings ? 4 : 3); bool fast = base == 2; if (base == 2) base = 0;
        sink.mode = 0;
        if (base == 0) { file = open_sink(&sink); what = "file"; if (!fast) layers.emplace_back(new aio::file_writer(file)); }
        else if (base == 1) { sink.mode = choose(2); sb.reset(new SinkBuf(&sink, faults && choose(2))); os.reset(new std::ostream(sb.get())); if (faults && choose(3)) os->exceptions(choose(2) ? std::ios::badbit : std::ios::badbit | std::ios::failbit); layers.emplace_back(new aio::stream_writer(*os)); what = os->exceptions() ? "stream that throws" : "stream"; }
        else { strcap = choose(200); str.reset(new Exact(strcap)); layers.emplace_back(new aio::string_writer(str->p, strcap)); what = "char array"; }
        if (fast) { topcap = pick_cap(); fw.reset(new aio::fast_write(file, topcap)); what += "+fast"; }
        else { int n = want ? 1 + (choose(3) == 2) : choose(3); for (int i = 0; i < n; i++) { bool simple = (want == 2 && i == n - 1) || choose(2); size_t c = pick_cap(); aio::writer& below = *layers.back(); if (simple) { s = new aio::simple_writer(below, c); b = s; } else { s = nullptr; b = new aio::buffered_writer(below, c); } layers.emplace_back(b); topcap = c; what += simple ? "+simple" : "+buffered"; } top = layers.back().get(); }
        log("sink: %s, buffer %zd", what.c_str(), (ssize_t)topcap);
    }
    static size_t pick_cap() { return choose(5) ? 1 + choose(16) : 1 + choose(100); }
    std::string arrived() const { return str ? std::string(str->p, str->n) : sink.got; }
    void recover() { if (os && !*os) { lost_reported = true; os->clear(); } }
    // destroys the writers from the top and then the file
    void close() { fw.reset(); while (!layers.empty()) layers.pop_back(); if (file) { if (ferror(file)) lost_reported = true; NoFault nf; if (fclose(file)) lost_reported = true; file = nullptr; } if (os && !*os) lost_reported = true; }
    void flush() { if (fw) fw->flush(); else top->flush(); }
    ~OutStack() { close(); }
};
template<typename F> bool guarded(OutStack& o, bool expect_throw, F f) { try { f(); return true; } catch (const SimFault&) { o.lost_reported = true; } catch (const std::ios_base::failure&) { o.lost_reported = true; } SIM_CHECK(expect_throw, "unexpected-exception", "a write operation throws although the sink works"); return false; }
// what a number prints as, on its own
template<typename F> std::string printed(F f) { char* buf = new char[1200]; memset(buf, 0, 1200); { aio::string_writer sw(buf, 1199); aio::simple_writer w(sw, 1200); f(w); } std::string r(buf); delete[] buf; return r; }
double any_double() { switch (choose(8)) { case 0: return (double)choose(100); case 1: return choose(1000000) / 1000.0; case 2: { static const double x[] = {9.9999999, 0.99999995, 999999.9999999, 0.0000001, 9.5, 99.95, 0.5, 1e-7, 999.9999995, 1, 10, 100, 1000, 0.1, 0.01, 0.001}; return x[choose(16)]; } case 3: return (double)(bits64() >> (11 + choose(52))); case 4: return bits64() / 18446744073709551616.0; case 5: return pow(10, choose(18)) - pow(10, -(int)choose(8)); default: return (double)(bits64() >> 12) / (double)(1 + (bits64() >> (20 + choose(40)))); } }

void write_history() {
    OutStack o; o.open(0, false, true); std::string E; int n = 1 + small(24);
    auto check_flushed = [&](const char* when) { std::string want = E; if (o.str) { want = want.substr(0, o.strcap); want.resize(o.strcap, 0x5c); } std::string g = o.arrived(); size_t i = 0; while (i < g.size() && i < want.size() && g[i] == want[i]) i++; SIM_CHECK(g == want, "output-differs", "%s, %zu bytes arrived instead of %zu; they differ at %zu: %s instead of %s", when, g.size(), want.size(), i, show(g.substr(i)).c_str(), show(want.substr(i)).c_str()); };
    auto so_far = [&]() { if (o.str) return; SIM_CHECK(o.sink.got.size() <= E.size() && !memcmp(o.sink.got.data(), E.data(), o.sink.got.size()), "output-differs", "what has arrived is not a prefix of what was written: %s of %s", show(o.sink.got).c_str(), show(E).c_str()); };
    for (int i = 0; i < n; i++) {
        int op = choose(9); if (!o.s && !o.fw && op >= 4 && op <= 6) op = o.b ? 7 : op % 3; if (op == 7 && !o.b && !o.fw) op = 8; if (op == 1 && o.fw) op = 2;
        switch (op) {
            case 0: { int c = choose(3) ? (int)choose(256) : -1 - (int)choose(128); if (o.fw) o.fw->write_char(c); else o.top->write_char(c); E += (char)c; log("write_char %d", c); break; }
            case 1: { Exact s(any_bytes(60)); o.top->write(s.p, s.n); E.append(s.p, s.n); log("write %zu bytes", s.n); break; }
            case 2: { std::string s = any_bytes(40); if (o.fw) { if (choose(2)) o.fw->write_string(s); else *o.fw << s; } else if (o.s) { if (choose(2)) o.s->write_string(s); else { aio::simple_writer_stream ss(*o.s); ss << s; } } else o.top->write(s.data(), s.size()); E += s; log("write_string of %zu: %s", s.size(), show(s).c_str()); break; }
            case 3: { std::string s = any_bytes(40); s = s.substr(0, s.find('\0')); if (o.fw) o.fw->write_string(s.c_str()); else if (o.s) o.s->write_string(s.c_str()); else o.top->write(s.data(), s.size()); E += s; log("write C string of %zu", s.size()); break; }
            case 4: { long long v = any_int(LLONG_MIN, LLONG_MAX); if (choose(2)) v = (int)v; int len = choose(3) ? 1 : 1 + choose(30); std::string t = std::to_string(v); bool neg = v < 0; if (neg) t = t.substr(1); while ((int)t.size() < len) t = "0" + t; if (neg) t = "-" + t; if (o.fw) o.fw->write_integral_number<long long>(v, len); else o.s->write_integral_number<long long>(v, len); E += t; log("write integer %lld, length %d", v, len); break; }
            case 5: { int v = (int)any_int(INT_MIN, INT_MAX); int w = choose(3); if (o.fw) { if (w == 0) o.fw->write_int(v); else if (w == 1) *o.fw << v; else *o.fw << (long)v; } else { aio::simple_writer_stream ss(*o.s); if (w == 0) o.s->write_int(v); else if (w == 1) ss << v; else ss << (long)v; } E += std::to_string(v); log("write int %d", v); break; }
            case 6: { double v = any_double(); if (choose(2)) v = -v; int p = choose(10); bool sc = choose(3) == 1; std::string t = printed([&](aio::simple_writer& w) { w.write_double(v, p, sc); }); if (o.fw) o.fw->write_double(v, p, sc); else o.s->write_double(v, p, sc); E += t; log("write double %.17g as %s", v, t.c_str()); break; }
            case 7: { std::string t = "<" + std::to_string(choose(100000)) + ">"; if (choose(4) == 1) t = ""; size_t need = choose(4) ? t.size() + choose(4) : choose(3) * 4; char* p; size_t av; if (o.fw) { o.fw->reserve(need); p = o.fw->data(); av = o.fw->available(); } else { o.b->reserve(need); p = o.b->data(); av = o.b->available(); } SIM_CHECK(av <= o.topcap && (av >= need || need > o.topcap), "reserve-wrong", "reserve(%zu) leaves %zu of %zu available", need, av, o.topcap); so_far();
                      int k = snprintf(p, av + 1, "%s", t.c_str()); if ((size_t)k > av) t.resize(av); if (o.fw) o.fw->advance(); else o.b->advance(); E += t; log("formatted %s", t.c_str()); break; }
            default: { o.flush(); log("flush"); check_flushed("after a flush"); probe("flushed"); }
        }
        so_far();
    }
    if (choose(3)) { o.flush(); check_flushed("after the last flush"); }
    o.close(); check_flushed("after the writers are gone"); probe("closed"); state(log_hash());
}

void failing_sink() {
    OutStack o; o.open(0, true, false); o.sink.err_mode = 100 + choose(5) * 150; int off = choose(251); int next = 0; int n = 1 + small(30); bool thrower = o.os && o.os->exceptions();
    auto byte = [&](int i) { return (unsigned char)((i * 7 + off) % 251); };
    auto take = [&](int k) { std::string s; for (int i = 0; i < k; i++) s += (char)byte(next++); return s; };
    auto verify = [&]() { int last = -1; int inv[251]; for (int i = 0; i < 251; i++) inv[byte(i)] = i; for (size_t i = 0; i < o.sink.got.size(); i++) { unsigned char c = o.sink.got[i]; SIM_CHECK(c < 251 && inv[c] < next, "foreign-byte", "byte %d arrived that was never written", c); SIM_CHECK(inv[c] != last, "byte-twice", "byte number %d arrived twice", inv[c]); SIM_CHECK(inv[c] > last, "order-broken", "byte number %d arrived after number %d: %s", inv[c], last, inv[c] < last ? "again or out of order" : ""); last = inv[c]; } };
    for (int i = 0; i < n && next < 200; i++) {
        int op = choose(6); size_t k = 1 + choose(20); if (op == 1 && o.fw) op = 2; if (op == 3 && !o.b && !o.fw) op = 0;
        if (op == 0) { int c = byte(next); next++; bool ok = guarded(o, thrower, [&]() { if (o.fw) o.fw->write_char(c); else o.top->write_char(c); }); log("write_char #%d%s", next - 1, ok ? "" : " throws"); }
        else if (op == 1) { std::string s = take((int)k); bool ok = guarded(o, thrower, [&]() { o.top->write(s.data(), s.size()); }); log("write #%d..%d%s", next - (int)k, next - 1, ok ? "" : " throws"); }
        else if (op == 2) { std::string s = take((int)k); bool ok = guarded(o, thrower, [&]() { if (o.fw) o.fw->write_string(s); else if (o.s) o.s->write_string(s); else o.top->write(s.data(), s.size()); }); log("write_string #%d..%d%s", next - (int)k, next - 1, ok ? "" : " throws"); }
        else if (op == 3) { bool ok = guarded(o, thrower, [&]() { size_t need = 1 + choose(8); char* p = o.fw ? o.fw->data(need) : o.b->data(need); if (!p) return; size_t m = 0; char tmp[16]; while (m < need && byte(next) != 0) tmp[m++] = (char)byte(next++); tmp[m] = 0; strcpy(p, tmp); if (o.fw) o.fw->advance(); else o.b->advance(); }); log("formatted up to #%d%s", next - 1, ok ? "" : " throws"); }
        else if (op == 4) { bool ok = guarded(o, thrower, [&]() { o.flush(); }); log("flush%s", ok ? "" : " throws"); }
        else { if (choose(2)) o.recover(); if (choose(3) == 1) { o.sink.err_mode = choose(2) ? 0 : 1000; log("error rate %d/1000", o.sink.err_mode); } }
        verify();
    }
    if (choose(2)) {
        // the sink recovers: what is written from here on arrives
        o.sink.err_mode = 0; o.sink.down = 0; o.recover(); guarded(o, false, [&]() { o.flush(); }); verify(); std::string m = take(1 + choose(30)); size_t before = o.sink.got.size(); guarded(o, false, [&]() { if (o.fw) o.fw->write_string(m); else o.top->write(m.data(), m.size()); o.flush(); });
        SIM_CHECK(o.sink.got.size() == before + m.size() && o.sink.got.compare(before, NPOS, m) == 0, "not-recovered", "%zu of %zu bytes written after the sink recovered arrived", o.sink.got.size() - before, m.size()); probe("recovered");
    }
    o.close(); verify();
    if (o.sink.got.size() < (size_t)next) { SIM_CHECK(o.lost_reported, "silent-loss", "%zu of %d bytes never arrived and no error is reported", (size_t)next - o.sink.got.size(), next); probe("loss-reported"); }
    state(log_hash());
}

bool well_formed(const std::string& t, int precision, bool sc) {
    size_t i = 0; if (i < t.size() && t[i] == '-') i++; size_t d = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (i == d) return false; if (sc && i - d != 1) return false;
    if (precision > 0) { if (i >= t.size() || t[i] != '.') return false; i++; d = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if ((int)(i - d) != precision) return false; }
    if (sc) { if (i + 1 >= t.size() || t[i] != 'e' || (t[i + 1] != '-' && t[i + 1] != '+')) return false; i += 2; d = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (i - d < 3) return false; }
    return i == t.size();
}
void round_trip() {
    struct V { int k; long long i; double d, tol; std::string s; }; std::vector<V> vs; std::string text;
    {
        OutStack o; o.open(2, false, false); int n = 1 + small(10);
        for (int i = 0; i < n; i++) {
            V v; v.k = choose(7); v.i = 0; v.d = v.tol = 0;
            switch (v.k) {
                case 0: v.i = any_int(INT_MIN, INT_MAX); if (o.fw) o.fw->write_int((int)v.i); else o.s->write_int((int)v.i); break;
                case 1: v.i = any_int(LLONG_MIN, LLONG_MAX); if (o.fw) o.fw->write_ll(v.i); else o.s->write_ll(v.i); break;
                case 2: { v.s = any_word(true); if (o.fw) o.fw->write_string(v.s); else o.s->write_string(v.s); break; }
                case 3: { v.s = any_line('\n'); if (o.fw) o.fw->write_string(v.s); else o.s->write_string(v.s); break; }
                case 4: case 5: { v.d = any_double(); if (choose(2)) v.d = -v.d; bool sc = v.k == 5; int p = choose(10); if (sc && choose(3) == 1) v.d *= pow(10, (int)choose(520) - 260); if (!sc && choose(4) == 1) v.d *= pow(10, (int)choose(80)); if (sc && v.d != 0 && (fabs(v.d) < 1e-285 || fabs(v.d) > 1e300)) v.d = fabs(v.d) < 1 ? 1e-280 : 1e280;
                    double unit = sc ? fabs(v.d) : 1; v.tol = unit * 0.500001 * pow(10, -p) + fabs(v.d) * 4e-15;
                    std::string t = printed([&](aio::simple_writer& w) { w.write_double(v.d, p, sc); }); log("%.17g prints as %s", v.d, t.c_str()); SIM_CHECK(well_formed(t, p, sc), "malformed-number", "%.17g is printed as %s with precision %d%s", v.d, t.c_str(), p, sc ? ", scientific" : "");
                    if (o.fw) o.fw->write_double(v.d, p, sc); else o.s->write_double(v.d, p, sc); break; }
                default: { int w = choose(3); uint64_t u = bits64() >> choose(64); v.i = (long long)(w == 0 ? (uint8_t)u : w == 1 ? (uint16_t)u : u >> 1); if (o.fw) { if (w == 0) o.fw->write_integral_number<short>((short)(v.i = (short)u)); else if (w == 1) o.fw->write_integral_number<uint16_t>((uint16_t)v.i); else o.fw->write_integral_number<uint64_t>((uint64_t)v.i); } else { if (w == 0) o.s->write_integral_number<short>((short)(v.i = (short)u)); else if (w == 1) o.s->write_integral_number<uint16_t>((uint16_t)v.i); else o.s->write_integral_number<uint64_t>((uint64_t)v.i); } }
            }
            char sep = v.k == 3 ? '\n' : " \n\t"[choose(3)]; if (o.fw) o.fw->write_char(sep); else o.s->write_char(sep); vs.push_back(v);
        }
        o.close(); text = o.sink.got;
    }
    In in; in.open(text, 2, false); aio::simple_reader* s = in.s; aio::fast_read* f = in.fr.get();
    for (auto& v : vs) switch (v.k) {
        case 0: { int x = s ? s->read_int() : f->read_int(); if (s) s->read_char(); else f->read_char(); SIM_CHECK(x == v.i, "value-changed", "%lld is read back as %d", v.i, x); probe("int"); break; }
        case 1: case 6: { long long x = s ? s->read_ll() : f->read_ll(); if (s) s->read_char(); else f->read_char(); SIM_CHECK(x == v.i, "value-changed", "%lld is read back as %lld", v.i, x); probe("integer"); break; }
        case 2: { std::string x = s ? s->read_string() : f->read_string(); if (s) s->read_char(); else f->read_char(); SIM_CHECK(x == v.s, "value-changed", "the word %s is read back as %s", show(v.s).c_str(), show(x).c_str()); probe("word"); break; }
        case 3: { std::string x; if (s) x = s->read_line(); else for (int c = f->read_char(); c != -1 && c != '\n'; c = f->read_char()) x += (char)c; SIM_CHECK(x == v.s, "value-changed", "the line %s is read back as %s", show(v.s).c_str(), show(x).c_str()); probe("line"); break; }
        default: { double x = s ? s->read_double() : f->read_double(); if (s) s->read_char(); else f->read_char(); SIM_CHECK(fabs(x - v.d) <= v.tol + fabs(v.d) * 1e-14, "value-changed", "%.17g is read back as %.17g", v.d, x); probe(v.k == 4 ? "fixed" : "scientific"); }
    }
    state(log_hash());
}
} // namespace io_h
#ifdef P_I04
SIM_SCENARIO(I04, output, 1) { write_history(); }
#endif
#ifdef P_I05
SIM_SCENARIO(I05, failing_sink, 1) { failing_sink(); }
#endif
#ifdef P_I06
SIM_SCENARIO(I06, round_trip, 1) { round_trip(); }
#endif

// ---------------------------------------------------------------- tokenizer
#if defined P_I07 || defined P_C08
namespace io_h {
namespace st = aio::stream_tokenizer;
typedef st::tokens_delimited<' ', 'b'> tok_sp_b; typedef st::tokens_allowed<st::allowed_p<'0', '1'>> tok_bin;
struct TokModel {
    const std::string& C; size_t pos; size_t stop; bool failed;      // nothing arrives from `stop` on
    bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
    template<typename P> std::string token(P p) {                    // extraction of one token
        std::string t; if (failed) return t;
        while (pos < stop && ws(C[pos])) pos++;
        if (pos == stop) { failed = true; return t; }
        while (pos < stop && p(C[pos])) t += C[pos++];
        if (pos == stop) failed = true;
        return t;
    }
    template<typename P, typename Q> std::vector<std::string> list(P p, Q q) { std::vector<std::string> v; while (!failed) { v.push_back(token(p)); if (!failed) token(q); } return v; }
    bool integer(long long& v) { while (pos < stop && ws(C[pos])) pos++; size_t b = pos; if (pos < stop && (C[pos] == '-' || C[pos] == '+')) pos++; size_t d = pos; while (pos < stop && isdigit((unsigned char)C[pos])) pos++; if (pos == d) { failed = true; v = 0; return false; } v = atoll(C.substr(b, pos - b).c_str()); return true; }
};
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += '['; s += show(x); s += ']'; } return s; }
void tokens(bool faults) {
    std::string C; int kind = choose(8); int n = small(40); 
    for (int i = 0; i < n; i++) { static const char* A[] = {"ab,; \n", "a1_, \t", "01 2", "xy ,z", "ab  c", "a,b;", "12 -", "34,-"}; C += A[kind][choose((uint32_t)strlen(A[kind]))]; }
    if (kind >= 6) { C.clear(); for (int i = small(6); i > 0; i--) { C += std::to_string((int)choose(2000) - 1000); C += kind == 6 ? ' ' : ','; } if (!C.empty() && choose(2)) C.pop_back(); }
    if (kind < 6 && choose(4) == 1) for (auto& c : C) if (choose(6) == 1) { c = (char)(choose(4) ? 0x80 + choose(128) : choose(32)); if (kind == 1 && c < 0) c = '#'; }
    Source src; src.data = C; src.mode = choose(4); size_t stop = C.size(); bool thr = false;
    if (faults && !C.empty()) { src.fail_at = (long)choose((uint32_t)C.size()); stop = src.fail_at; thr = choose(2); }
    SourceBuf sb(&src, 1 + choose(20)); sb.on_error = thr; std::istream is(&sb); std::ios::fmtflags fl = is.flags(); if (choose(3) == 1) { is >> std::hex >> std::noskipws; if (kind >= 6) is >> std::dec >> std::skipws; fl = is.flags(); }
    bool ex = choose(3) == 1; if (ex) is.exceptions(choose(2) ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    log("text %s, tokens of kind %d, split mode %d, %s at %zu, %s", show(C).c_str(), kind, src.mode, faults ? "the stream fails" : "end", stop, ex ? "exceptions on" : "no exceptions"); step_budget(3000000);
    TokModel m{C, 0, stop, false}; std::vector<std::string> got, want; bool threw = false;
    auto comma = [](char c) { return c != ','; };
#define LIST(T, p) do { T ts; try { is >> ts; } catch (const SimFault&) { threw = true; } catch (const std::ios_base::failure&) { threw = true; } got = st::unbox_tokens(ts); auto P = p; want = m.list(P, [&](char c) { return !P(c); }); } while (0)
    switch (kind) {
        case 0: LIST(st::tokens_delimited_comma, comma); break;
        case 1: LIST(st::tokens_allowed<st::alphanum_p>, [](char c) { return isalnum((unsigned char)c) != 0; }); break;
        case 2: LIST(tok_bin, [](char c) { return c == '0' || c == '1'; }); break;
        case 3: LIST(st::tokens_delimited_space, [](char c) { return c != ' '; }); break;
        case 4: LIST(tok_sp_b, [](char c) { return c != ' ' && c != 'b'; }); break;
        case 5: { int k = 1 + choose(4); for (int i = 0; i < k; i++) { st::token_delimited_comma a; st::token_delimited_semicolon b; int w = choose(2); try { if (w) is >> b; else is >> a; } catch (const SimFault&) { threw = true; } catch (const std::ios_base::failure&) { threw = true; } got.push_back(w ? b.s : a.s); if (m.failed) { got.pop_back(); break; } want.push_back(m.token([&](char c) { return w ? c != ';' : c != ','; })); if (!m.failed && m.pos < stop && choose(2)) { char c = 0; if (is.get(c)) { SIM_CHECK(c == C[m.pos], "wrong-position", "behind a token the stream gives %d instead of %d", c, C[m.pos]); m.pos++; } else SIM_CHECK(false, "wrong-position", "behind a token the stream has nothing to give"); } } break; }
        default: { st::tokens<int, char> ti; try { is >> ti; } catch (const SimFault&) { threw = true; } catch (const std::ios_base::failure&) { threw = true; } for (int x : ti.v) got.push_back(std::to_string(x)); long long v; while (!m.failed) { bool at_end = false; if (m.integer(v)) { at_end = m.pos == stop; want.push_back(std::to_string(v)); } else { want.push_back("0"); } if (at_end) m.failed = true; if (!m.failed) m.pos++; } 
                   // a list element that could not be read is either left out or there as zero; a stream failure within a number spoils that number
                   if (!want.empty() && want.back() == "0" && got.size() + 1 == want.size()) want.pop_back(); if (faults && !got.empty() && got.size() == want.size() && m.pos == stop) { got.pop_back(); want.pop_back(); } else if (faults && want.size() == got.size() + 1) want.pop_back(); break; }
    }
#undef LIST
    // the token during which a throwing stream failed may be missing
    if (ex && want.size() == got.size() + 1) want.pop_back();
    log("tokens %s", join(got).c_str());
    SIM_CHECK(got == want, "tokens-differ", "%s instead of %s", join(got).c_str(), join(want).c_str());
    if (m.failed && !threw) SIM_CHECK(!is, "stream-not-failed", "the stream is still good after its end");
    if (kind != 5 || true) SIM_CHECK(is.flags() == fl, "flags-changed", "formatting flags are %x instead of %x", (unsigned)is.flags(), (unsigned)fl);
    probe(threw ? "threw" : "returned"); state(log_hash());
}
}
SIM_SCENARIO(I07, whole, 1) { tokens(false); }
SIM_SCENARIO(I07, failing, 1) { tokens(true); }
#endif

// ---------------------------------------------------------------- manipulators
#ifdef P_I08
namespace io_h {
using altruct::math::fraction; using altruct::math::modulo; using altruct::math::polynom; typedef modulo<int, 1009, altruct::math::modulo_storage::CONSTANT> md;
struct Mode { bool fd = false, fp = false, mm = false, mp = false, pv = true; };
std::string txt(const Mode&, int v) { return std::to_string(v); }
std::string txt(const Mode& m, const fraction<int>& f) { if (m.fp) return "{" + std::to_string(f.p) + ", " + std::to_string(f.q) + "}"; if (m.fd || f.q != 1) return std::to_string(f.p) + "/" + std::to_string(f.q); return std::to_string(f.p); }
std::string txt(const Mode& m, const md& x) { if (m.mp) return "{" + std::to_string(x.v) + ", 1009}"; if (m.mm) return std::to_string(x.v) + " (mod 1009)"; return std::to_string(x.v); }
template<typename T> std::string txt(const Mode& m, const std::vector<T>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) { if (i) s += ", "; s += txt(m, v[i]); } return s + "}"; }
template<typename T> std::string txt(const Mode& m, const polynom<T>& p) { if (m.pv) return txt(m, p.c); std::string s; int h = p.deg(), l = p.lowest(); for (int i = h; i >= l; i--) { if (i < h && p[i] == T(0)) continue; if (i < h) s += " + "; s += txt(m, p[i]); if (i > 0) s += " x"; if (i > 1) s += "^" + std::to_string(i); } return s; }
struct Mani {
    std::ostream& os; Sink& sink; Mode mode; std::string E; bool faulty; int budget; bool broken = false;
    template<typename T> void put(const T& v) { std::string w = txt(mode, v) + "|"; log("prints %s", w.c_str()); put_raw([&]() { os << v << "|"; }, w); }
    template<typename F> void put_raw(F f, const std::string& w) { if (faulty) { f(); if (!os) { broken = true; os.clear(); } } else { f(); E += w; SIM_CHECK(sink.got == E, "output-differs", "%s is printed instead of %s", show(sink.got.substr(std::min(sink.got.size(), E.size() - w.size()))).c_str(), show(w).c_str()); } }
    void value() { fraction<int> f((int)choose(19) - 9, 1 + (int)choose(5)); md x((int)choose(2000)); polynom<int> p; for (int i = choose(4); i >= 0; i--) p[i] = (int)choose(5) - 2; polynom<md> pm{md(3), md(0), md((int)choose(1009))}; polynom<fraction<int>> pf{f, fraction<int>(1, 3)};
        switch (choose(6)) { case 0: put(f); break; case 1: put(x); break; case 2: put(p); break; case 3: put(pm); break; case 4: put(pf); break; default: put(std::vector<fraction<int>>{f, fraction<int>(7, 3)}); } }
    void one_shot() { // temporaries that live for one expression
        Mode save = mode; fraction<int> f((int)choose(9), 1 + (int)choose(3)); bool v = choose(2), w = choose(2); mode.fd = v; Mode in = mode; in.fp = w; md x(5); in.mm = true; std::string t = txt(in, f) + " " + txt(in, x);
        put_raw([&]() { os << io_fraction_denominator(v) << io_fraction_as_pair(w) << io_modulo_modulus(true) << f << " " << x; }, t); mode = save; }
    void scope(int depth) {
        for (int i = 1 + choose(3); i > 0 && budget > 0; i--) {
            budget--;
            int k = depth < 5 ? choose(8) : 6; Mode save = mode; bool v = choose(2);
            switch (k) {
                case 0: { io_fraction_denominator g(v); mode.fd = v; log("denominator %d {", v); scope(depth + 1); break; }
                case 1: { io_fraction_as_pair g(v); mode.fp = v; log("pair %d {", v); scope(depth + 1); break; }
                case 2: { io_modulo_modulus g(v); mode.mm = v; log("modulus %d {", v); scope(depth + 1); break; }
                case 3: { io_modulo_as_pair g(v); mode.mp = v; log("modulo pair %d {", v); scope(depth + 1); break; }
                case 4: { io_polynom_as_vector g(v); mode.pv = v; log("vector %d {", v); scope(depth + 1); break; }
                case 5: if (faulty && choose(2)) { log("user exception"); fault("scope-left-by-exception"); throw SimFault(); } one_shot(); break;
                default: value();
            }
            if (k < 5) { log("}"); mode = save; }
        }
    }
};
void manipulators(bool faulty) {
    Sink sink; sink.mode = choose(2); SinkBuf sb(&sink, false); std::ostream os(&sb); bool thr = faulty && choose(2);
    if (faulty) { sb.throws = choose(2); sink.err_mode = 80; if (thr) os.exceptions(std::ios::badbit | (choose(2) ? std::ios::failbit : std::ios::badbit)); }
    Mani m{os, sink, Mode(), "", faulty, 30};
    try { m.scope(0); } catch (const SimFault&) { probe("left-by-exception"); } catch (const std::ios_base::failure&) { probe("left-by-exception"); }
    // outside every scope the defaults are in force again
    sink.err_mode = 0; sink.down = 0; os.exceptions(std::ios::goodbit); os.clear(); Mani a{os, sink, Mode(), sink.got, false, 0}; a.put(fraction<int>(4, 1)); a.put(fraction<int>(3, 2)); a.put(md(7)); a.put(polynom<int>{1, 0, 2});
    SIM_CHECK(!iostream_fraction_state.always_output_denominator && !iostream_fraction_state.output_as_pair && !iostream_modulo_state.output_modulus && !iostream_modulo_state.output_as_pair && iostream_polynom_state.output_as_vector, "mode-leaked", "a printing mode outlives its scope");
    state(log_hash());
}
}
SIM_SCENARIO(I08, nesting, 1) { manipulators(false); }
SIM_SCENARIO(I08, failing_stream, 1) { manipulators(true); }
#endif
