// Explicit-state exploration of real multi-threaded code.
//
// The code under test is compiled with -fsanitize=thread against this runtime instead of the sanitizer's:
// atomic operations, semaphores, mutexes, joins and channel reads are scheduling points, and every plain
// access to shared memory is checked. Threads are fibers; pthread, semaphore, shared memory and mapping calls
// are replaced by models whose state is part of a "world" which is saved, restored and hashed with the stacks,
// the heap and the shared memory, so that every reachable state is visited once.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

enum Category { CALLBACK = 1, TERMINATION = 2, RACE = 4, PROTOCOL = 8, CAPTURE = 16, RELEASE = 32, ANY = 63 };

struct Options {
  int report = ANY;             // categories that are violations
  bool track_races = false;     // the ordering of accesses is part of the state (otherwise races only refine the schedule)
  bool spurious = true;         // compare_exchange_weak may fail spuriously (only where the compiler tells it from the strong form)
  uint64_t max_states = 4000000;
  int policy = 0;               // 0 explore everything, 1.. one fixed schedule
  bool (*done)() = nullptr;     // what the property asks for has happened: a run that is stuck later is no violation
  bool (*tick)() = nullptr;     // called now and then; false: give up
};

struct Outcome {
  uint64_t states = 0, transitions = 0, terminals = 0;
  bool complete = true;
  std::string violation;        // empty if none
  std::string schedule;
};

// Runs body(arg) as the main thread of the model in every schedule. `ghost` is memory of the harness that belongs to the state.
Outcome explore(void (*body)(void *), void *arg, const Options& opt, void *ghost, size_t ghost_size, void (*at_end)());

// To be called by the code that runs in the model
void fail(int category, const std::string& what);
bool in_model();
int self();                                     // number of the running thread
int spawn_process(void *(*f)(void *), void *);  // a thread with an address space of its own; joined with join_process
void join_process(int t);
int process();                                  // number of its process
void allow(const void *p, size_t n);            // this part of shared memory may be accessed
void guard(const void *p, size_t n);            // this part of shared memory may not, except what is allowed
int channel_count(int c);
struct Message { uint8_t n, b[63]; };
void channel_put(int c, const Message& m);      // asynchronous queue between processes
Message channel_get(int c);                     // waits
void set_input(const std::string& content);     // what open() of any file gives
int live_blocks();
void point();                                   // other threads may run here

struct Ghost { Ghost(); ~Ghost(); };            // scope in which the harness's own code runs (not part of the model)
}
