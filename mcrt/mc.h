// Harness-facing interface of the controlled scheduler ("mcrt").
//
// A scenario is a function run as thread 0 of a simulated process.  Every pthread operation, condition
// variable, future, atomic and clock access made by it (and by the instrumented oac-tree code it calls) is
// under the control of the explorer, which runs the scenario once for every schedule within its bounds.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <cstdint>
#include <string>
#include <vector>

namespace mc
{
// Property violation: ends the current execution.
[[noreturn]] void Fail(const std::string& message);
inline void Check(bool ok, const std::string& message)
{
  if (!ok)
    Fail(message);
}
// Globally ordered log: the order of entries between threads is part of the explored behaviour.
void Log(const std::string& entry);
std::vector<std::string> GetLog();
// Position in the global order of events (a synchronisation event, like Log).
int64_t Stamp();
// Nondeterministic choice in [0, n): all values are explored.
int Choose(int n);
// Voluntary scheduling point (switching away is charged as a preemption).
void Point();
// Free switch: lets other threads run (not charged).
void Yield();
// Virtual time in nanoseconds.
int64_t Now();
// Number of the current simulated thread.
int Tid();
// Sequential explorers: depth parameter of the current tier.
int Depth();
// Outcome class of this execution, for counting distinct observed outcomes.
void Outcome(const std::string& outcome);

struct Scenario
{
  const char* name;
  void (*fn)();
  bool early_timers = false;  // timers may fire while threads are runnable (charged as a preemption)
  bool spurious = false;      // spurious wake-ups (charged as a preemption)
  bool delay_bound = false;   // charge also for non-default choices at blocking switches
  int max_steps = 20000;      // horizon: more steps than this is a livelock
  bool spin_fatal = true;     // exceeding the horizon is a violation
  bool fresh = false;         // every execution in a process of its own: first use of statics is explored
  int quick = 2;              // preemption bound, quick tier
  int thorough = 4;           // preemption bound, thorough tier
};
void Register(const Scenario& s);
struct Registrar
{
  explicit Registrar(const Scenario& s) { Register(s); }
};
}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_CHECK(cond, msg)                                                                        \
  do                                                                                               \
  {                                                                                                \
    if (!(cond))                                                                                   \
      ::mc::Fail(std::string("assertion (") + #cond + ") failed: " + (msg));                        \
  } while (false)
#define SCENARIO(name, ...)                                                                        \
  static void MC_CAT(scn_, name)();                                                                \
  static ::mc::Scenario MC_CAT(scd_, name)()                                                       \
  {                                                                                                \
    ::mc::Scenario s{#name, &MC_CAT(scn_, name)};                                                  \
    __VA_ARGS__;                                                                                   \
    return s;                                                                                      \
  }                                                                                                \
  static ::mc::Registrar MC_CAT(scr_, name){MC_CAT(scd_, name)()};                                 \
  static void MC_CAT(scn_, name)()

#endif
