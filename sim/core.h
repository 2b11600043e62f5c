// Deterministic-simulation core: one recorded stream of choices decides every
// operation, size, schedule step and fault of a run; the run happens in a
// forked child; the parent explores seeds, minimises and replays.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace sim {

// ---- decisions ---------------------------------------------------------
// A value in [0, n). 0 is always the simplest alternative (no fault, stop,
// stay, smallest), so that minimisation tends to plain runs.
uint32_t choose(uint32_t n);
inline int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }
// true with probability num/den; 0 in the stream means false
inline bool chance(uint32_t num, uint32_t den) { return choose(den) + num >= den; }
// size with a bias towards small values
uint32_t small(uint32_t max);
uint64_t bits64();

// ---- recording ---------------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // in the text, not in the hash
uint64_t log_hash();
int counter_id(const char* name);
void count_id(int id, uint64_t by);
void count(const char* name, uint64_t by = 1);      // any counter
void fault(const char* kind);                        // "fault:<kind>" += 1, and logged
void probe(const char* name);                        // "probe:<name>" += 1
uint64_t faults_fired();
void state(uint64_t h);                              // a distinct state / interleaving digest
void sim_time(uint64_t ns);                          // simulated time covered, added to the run

// ---- verdicts ----------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
[[noreturn]] void finish();                          // ends the run as passed
void set_crash_class(const char* cls);               // prefix of the class of a crash from here on
void choice_budget(uint32_t n);                      // decisions a run may draw before it counts as stuck
void step_budget(uint64_t steps);                    // hang detector budget for this run
uint64_t steps();

// ---- scenarios ---------------------------------------------------------
struct Scenario {
    const char* property;
    const char* name;
    void (*fn)();
    int weight;
};
void add_scenario(const char* property, const char* name, void (*fn)(), int weight = 1);
struct Reg { Reg(const char* p, const char* n, void (*f)(), int w = 1) { add_scenario(p, n, f, w); } };
#define SIM_SCENARIO(prop, nm, weight) \
    static void scn_##prop##_##nm(); \
    static ::sim::Reg reg_##prop##_##nm(#prop, #nm, &scn_##prop##_##nm, weight); \
    static void scn_##prop##_##nm()

extern const char* (*crash_describer)();             // optional text for a crash (ASan)

// FNV mix helper
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x100000001b3ULL; h ^= h >> 29; return h; }

} // namespace sim
