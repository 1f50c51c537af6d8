// A controlled scheduler for two threads whose code was compiled with
// -fsanitize=thread but linked with the hooks in sched_rt.cpp instead of the
// sanitizer's: every memory access and function entry of the code under test
// can be recorded and can be a point at which the other thread takes over.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace sched {
enum Mode { Off, Record, Accesses, Entries };
struct Switch { int thread; uint64_t point; };
struct Outcome { bool blocked = false; uint64_t accesses[2] = {0, 0}, points[2] = {0, 0}; };
// Runs a on thread 0 and b on thread 1, one at a time: `first` starts, control
// changes at the given switches and when a thread is done. prepare runs on the
// thread before control begins.
Outcome run(Mode mode, int first, const std::vector<Switch>& switches, const std::function<void()>& a, const std::function<void()>& b, const std::function<void()>& prepareA = nullptr, const std::function<void()>& prepareB = nullptr);
void forget(bool all = true);        // starts a new recording; all: drops the points found before, too
size_t conflicts(size_t limit);      // memory words both threads used, one of them writing, since forget(); they are added to the points of mode Accesses
void firstEntries(unsigned k);       // only the first k entries of every function of the library are points of mode Entries
}
