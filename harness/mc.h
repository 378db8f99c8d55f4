// Stateless, deviation-bounded model checker for code run in-process.
//
// A scenario is a deterministic function that resolves every piece of
// nondeterminism through choose()/deviate(). The explorer enumerates every
// answer sequence whose number of non-default deviate() answers is at most the
// scenario's bound (choose() answers are always all enumerated).
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {
// free choice: all n answers explored at no cost
int choose(int n, const char *label = "");
// environment answer: 0 is the default, every other answer costs one deviation
int deviate(int n, const char *label = "");
// deviation whose alternatives cost c
int deviate_cost(int n, int c, const char *label = "");

// record a violation. The key identifies the failing behaviour (what fails),
// the message gives the details of this execution.
void fail(const std::string &key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
bool failed();
// make every key reported by this execution carry this prefix
void state(uint64_t h);   // a distinct observed state
void step(uint64_t n = 1); // transitions executed
void evaluated(uint64_t n); // for enumerations done in an inner loop
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void sample(const std::string &s); // case for the evidence file
bool thorough();
uint64_t seed();

struct Scenario {
    std::string name;
    std::function<void()> fn;
    int bound;
};
void add(const std::string &name, std::function<void()> fn, int quick_bound,
         int thorough_bound = -1);

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull)
{
    return fnv(s.data(), s.size(), h);
}
std::string printable(const std::string &s, size_t max = 300);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// spin detection: called by the simulated system calls
void tick();
void tick_reset();
// this execution may use up to s seconds of CPU time
void allow_secs(double s);
} // namespace mc

// provided by each check
void register_scenarios();
