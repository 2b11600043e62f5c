// Simulated threads. Real threads run one at a time; which one runs next is
// drawn at every instrumented memory access and synchronisation call.
#pragma once
#include "core.h"
#include <stdint.h>

namespace csim {
void start();                       // draws a scheduling policy; from here on threads are simulated
void stop();                        // back to a single thread; fails if other threads are left
bool active();
int  tid();                         // 0 = main
int  live_threads();                // started and not finished, without the caller
int  started_threads();
void fail_thread_start(int nth);    // the nth pthread_create from now fails with EAGAIN (0: none)
void fail_threads_from(int nth);    // that one and all later ones fail
void fail_alloc(long nth);          // the nth allocation from now fails (0: none)
bool alloc_fault_fired();
void park(int ev);                  // block until open(ev)
void open_event(int ev);
bool is_open(int ev);
void yield_point();
void fail_here_if(int kind);        // reserved
uint64_t now_ns();
long live_blocks();
bool runnable_or_done_all_others(); // true when every other thread is parked, blocked or done
int  parked_count();
struct Quiet { Quiet(); ~Quiet(); };  // no scheduling, no race checks inside (harness bookkeeping)
uint64_t schedule_hash();
uint64_t switches();
void set_handler_on_idle(bool (*f)());   // called when nothing can run; returns true if it made progress
}
