// Waiting for the states of a job.
// LIB: full
#include "job_util.h"
#include "mc.h"
#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/job_states.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <vector>
using namespace sup::oac_tree;
using Monitor = utils::SimpleJobStateMonitor;
namespace
{
bool Fin(JobState s) { return s == JobState::kSucceeded || s == JobState::kFailed || s == JobState::kHalted; }
const JobState kAll[] = {JobState::kInitial, JobState::kPaused, JobState::kStepping, JobState::kRunning, JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
struct Report
{
  int64_t stamp_before, stamp_after, time;
  JobState state;
};
struct Waiter
{
  int kind;  // 0: finished, 1: given state
  JobState target;
  int64_t limit_ms;
  bool ok = false;
  JobState result = JobState::kInitial;
  int64_t start = 0, end = 0, stamp_start = 0, stamp_end = 0;
  void Run(const Monitor& m)
  {
    start = mc::Now();
    stamp_start = mc::Stamp();
    if (kind == 0)
    {
      result = m.WaitForFinished();
      ok = true;
    }
    else
      ok = m.WaitForState(target, limit_ms / 1000.0);
    stamp_end = mc::Stamp();
    end = mc::Now();
  }
  bool Wants(JobState s) const { return kind == 0 ? Fin(s) : s == target; }
  std::string Str() const
  {
    return (kind == 0 ? std::string("finished") : ToString(target) + "/" + std::to_string(limit_ms)) + (ok ? " ok" : " no") + " after " + std::to_string((end - start) / 1000000);
  }
};
void Check(const std::vector<Report>& reps, const Waiter& w, const std::string& what)
{
  std::string t = what + w.Str();
  // the state at the end of the history
  JobState last = reps.empty() ? JobState::kInitial : reps.back().state;
  int64_t since = reps.empty() ? 0 : reps.back().time;
  for (size_t i = reps.size(); i-- > 0 && w.Wants(reps[i].state);)
    since = reps[i].time;
  if (w.ok)
  {
    // the wanted state was current at some moment of the wait
    bool possible = w.Wants(JobState::kInitial) && (reps.empty() || w.stamp_start < reps[0].stamp_after);
    bool returned_possible = w.kind != 0;
    for (size_t i = 0; i < reps.size(); ++i)
    {
      bool overlaps = reps[i].stamp_before < w.stamp_end && (i + 1 == reps.size() || w.stamp_start < reps[i + 1].stamp_after);
      if (overlaps && w.Wants(reps[i].state))
        possible = true;
      if (overlaps && w.kind == 0 && reps[i].state == w.result)
        returned_possible = true;
    }
    MC_CHECK(possible, t + ": returned without the state");
    MC_CHECK(returned_possible, t + ": returned " + ToString(w.result));
    if (w.kind == 0)
      MC_CHECK(Fin(w.result), t);
  }
  else
  {
    MC_CHECK(w.end - w.start >= w.limit_ms * 1000000, t + ": gave up early");
    MC_CHECK(w.end - w.start < w.limit_ms * 1000000 + 100000000, t + ": gave up late");
    MC_CHECK(!(w.Wants(last) && since < w.start + w.limit_ms * 1000000 - 1000000), t + ": missed the state");
  }
  // returns as soon as the state stays
  if (w.Wants(last))
    MC_CHECK(w.end <= std::max(since, w.start) + 100000000 || w.end <= w.start + w.limit_ms * 1000000 + 1000000, t + ": late");
  if (w.Wants(last) && w.ok)
    MC_CHECK(w.end <= std::max(since, w.start) + 100000000, t + ": late");
}
void Run(int n_waiters, int n_reports, bool two_reporters)
{
  const JobState seqs[] = {JobState::kRunning, JobState::kPaused, JobState::kSucceeded, JobState::kInitial};
  Monitor m;
  std::vector<Report> reps;
  std::mutex mtx;
  std::vector<JobState> plan;
  std::string what;
  for (int i = 0; i < n_reports; ++i)
  {
    plan.push_back(i + 1 == n_reports ? (mc::Choose(2) ? JobState::kHalted : JobState::kSucceeded) : seqs[mc::Choose(4)]);
    what += ToString(plan.back()) + ",";
  }
  bool slow = mc::Choose(2);
  what += slow ? " slow; " : " ";
  std::vector<Waiter> ws(n_waiters);
  for (auto& w : ws)
  {
    w.kind = mc::Choose(2);
    w.target = w.kind == 0 ? JobState::kInitial : plan[mc::Choose(n_reports)];
    w.limit_ms = w.kind == 0 ? 1000000000 : mc::Choose(2) ? 10000 : 1500;
  }
  std::vector<std::thread> ts;
  for (auto& w : ws)
    ts.emplace_back([&m, &w] { w.Run(m); });
  auto report = [&](size_t from, size_t to) {
    for (size_t i = from; i < to; ++i)
    {
      if (slow)
        std::this_thread::sleep_for(std::chrono::seconds(1));
      Report r;
      r.stamp_before = mc::Stamp();
      r.state = plan[i];
      r.time = mc::Now();
      m.OnStateChange(plan[i]);
      r.stamp_after = mc::Stamp();
      std::lock_guard<std::mutex> lk{mtx};
      reps.push_back(r);
    }
  };
  if (two_reporters)
  {
    report(0, plan.size() - 1);
    std::thread r([&] { report(plan.size() - 1, plan.size()); });
    r.join();
  }
  else
    report(0, plan.size());
  MC_CHECK(m.GetCurrentState() == plan.back(), what + "current state");
  for (auto& t : ts)
    t.join();
  for (auto& w : ws)
  {
    Check(reps, w, what);
    what += w.Str() + "; ";
  }
  mc::Outcome(what);
}
}  // namespace
SCENARIO(one_waiter, s.quick = 3, s.thorough = 5) { Run(1, 2, false); }
SCENARIO(one_waiter_three_reports, s.quick = 2, s.thorough = 4) { Run(1, 3, false); }
SCENARIO(two_waiters, s.quick = 2, s.thorough = 4) { Run(2, 2, false); }
SCENARIO(two_waiters_one_report, s.quick = 4, s.thorough = 6) { Run(2, 1, true); }
SCENARIO(three_waiters, s.quick = 1, s.thorough = 2) { Run(3, 1, false); }
SCENARIO(two_waiters_three_reports, s.quick = -1, s.thorough = 2) { Run(2, 3, true); }
// Spurious wake-ups do not end a wait.
SCENARIO(spurious, s.quick = 2, s.thorough = 4, s.spurious = true) { Run(1, 2, false); }
// Timers that expire while others are still running.
SCENARIO(early_timers, s.quick = 2, s.thorough = 3, s.early_timers = true)
{
  Monitor m;
  bool ok = false;
  int64_t el = 0;
  std::thread t([&] {
    int64_t s = mc::Now();
    ok = m.WaitForState(JobState::kRunning, 1.0);
    el = mc::Now() - s;
  });
  m.OnStateChange(JobState::kPaused);
  m.OnStateChange(JobState::kRunning);
  t.join();
  MC_CHECK(ok || el >= 1000000000, "gave up after " + std::to_string(el));
  mc::Outcome(std::to_string(ok));
}
// A state that is current already; one that is never reported; every state.
SCENARIO(alone, s.quick = 1, s.thorough = 1)
{
  Monitor m;
  MC_CHECK(m.GetCurrentState() == JobState::kInitial, "initial state");
  JobState s = kAll[mc::Choose(7)], t = kAll[mc::Choose(7)];
  if (mc::Choose(2))
    m.OnStateChange(s);
  else
    s = JobState::kInitial;
  int64_t start = mc::Now();
  double limit = mc::Choose(2) ? 0.0 : 2.5;
  bool ok = m.WaitForState(t, limit);
  int64_t el = mc::Now() - start;
  std::string w = ToString(s) + " " + ToString(t) + " " + std::to_string(ok) + " " + std::to_string(el);
  MC_CHECK(ok == (s == t), w);
  MC_CHECK(ok ? el < 1000000 : el >= limit * 1e9 && el < limit * 1e9 + 1e8, w);
  MC_CHECK(IsFinishedJobState(s) == Fin(s), w);
  if (Fin(s))
    MC_CHECK(m.WaitForFinished() == s, w);
}

// The current state can be asked at any time: never an older one than before, never one that was not reported.
SCENARIO(asked_meanwhile, s.quick = 3, s.thorough = 5)
{
  Monitor m;
  int n = 1 + mc::Choose(3);
  const JobState plan[] = {JobState::kRunning, JobState::kPaused, JobState::kHalted};
  std::atomic<int> done{0};
  std::thread t([&] {
    for (int i = 0; i < n; ++i)
    {
      m.OnStateChange(plan[i]);
      done = i + 1;
    }
  });
  int last = 0;
  std::string w;
  for (int i = 0; i < 3; ++i)
  {
    int from = done;
    JobState s = m.GetCurrentState();
    int at = s == JobState::kInitial ? 0 : s == JobState::kRunning ? 1 : s == JobState::kPaused ? 2 : s == JobState::kHalted ? 3 : -1;
    w += ToString(s) + " ";
    MC_CHECK(at >= last && at >= from && at <= n, "asked for the current state: " + w);
    last = at;
  }
  t.join();
  MC_CHECK(m.GetCurrentState() == plan[n - 1], "the last state");
  mc::Outcome(w);
}
// The runner that the applications create: its monitor is told everything, so that waiting for the end works.
SCENARIO(application_runner, s.quick = 2, s.thorough = 3)
{
  using namespace ju;
  const char* scripts[] = {"S", "NF", "NN"};
  int k = mc::Choose(3), before = mc::Choose(2);
  Procedure proc("");
  auto top = k == 2 ? Node("Repeat", Probe::Make(0, "S", 100)) : Probe::Make(0, scripts[k]);
  if (k == 2)
    top->AddAttribute("maxCount", "-1");
  proc.PushInstruction(std::move(top));
  DefaultUserInterface ui;
  Monitor m;
  proc.Setup();
  std::string message = before ? "from earlier" : "";
  auto runner = utils::CreateAsyncRunner(proc, ui, m, message);
  MC_CHECK(runner && message.empty(), "no runner: " + message);
  MC_CHECK(m.GetCurrentState() == JobState::kInitial, "initial");
  runner->Start();
  if (k == 2)
  {
    MC_CHECK(m.WaitForState(JobState::kRunning, 1000.0), "does not run");
    runner->Halt();
  }
  JobState s = m.WaitForFinished();
  MC_CHECK(s == (k == 0 ? JobState::kSucceeded : k == 1 ? JobState::kFailed : JobState::kHalted), "ends as " + ToString(s));
  runner->Reset();
  MC_CHECK(m.WaitForState(JobState::kInitial, 1000.0), "is not reset");
  runner.reset();
  MC_CHECK(m.GetCurrentState() == JobState::kInitial, "at the end");
  mc::Outcome(std::to_string(k));
}

// A finished job that is reset at once: who waited for its end gets a finished state, or waits for the next end.
SCENARIO(reset_at_once, s.quick = 4, s.thorough = 7)
{
  Monitor m;
  const JobState ends[] = {JobState::kSucceeded, JobState::kFailed};
  JobState first = ends[mc::Choose(2)];
  Waiter w{mc::Choose(2), first, 1000000000};
  std::vector<Report> reps;
  std::thread t([&] { w.Run(m); });
  for (auto s : {first, JobState::kInitial, w.kind == 0 ? JobState::kHalted : first})
  {
    Report r;
    r.stamp_before = mc::Stamp();
    r.state = s;
    r.time = mc::Now();
    m.OnStateChange(s);
    r.stamp_after = mc::Stamp();
    reps.push_back(r);
  }
  t.join();
  Check(reps, w, "");
  mc::Outcome(w.Str() + ToString(w.result));
}
