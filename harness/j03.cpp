// Job control under every schedule: bursts of commands, halting, destruction at any moment.
// LIB: full
#include "job_util.h"
using namespace ju;
namespace
{
const char* names[] = {"start", "step", "pause", "halt", "reset"};
void Issue(LocalJob& job, int c)
{
  switch (c)
  {
  case 0:
    return job.Start();
  case 1:
    return job.Step();
  case 2:
    return job.Pause();
  case 3:
    return job.Halt();
  case 4:
    return job.Reset();
  }
}
std::unique_ptr<Procedure> Make(int k)
{
  switch (k)
  {
  case 0:
    return Proc(Probe::Make(0, "S"));
  case 1:
    return Proc(Node("Sequence", Probe::Make(0, "S"), Probe::Make(1, "S")));
  case 2:
    return Proc(Attr(GlobalInstructionRegistry().Create("Wait"), "timeout", "5.0"));
  case 3:
    return Proc(Node("Async", Probe::Make(0, "S", 10)));
  case 4:
    return Proc(Node("Async", Attr(GlobalInstructionRegistry().Create("Wait"), "timeout", "0.15")));
  case 5:
    return Proc(Node("ParallelSequence", Probe::Make(0, "S", 10), Attr(GlobalInstructionRegistry().Create("Wait"), "timeout", "0.15")));
  default:
    return Proc(Attr(Node("Repeat", Probe::Make(0, "S", 10)), "maxCount", "-1"));
  }
}
void CheckEnd(const std::string& w)
{
  auto log = mc::GetLog();
  CheckStatePath(log);
  mc::Outcome(w + Join(Filter(log, "s")));
}
// n commands without waiting, then an end.
void Burst(int kind, int n, int first)
{
  std::string w = "kind " + std::to_string(kind);
  bool reset = false, halt = false;
  int others = 0;
  {
    Recorder rec;
    LocalJob job{Make(kind), rec};
    if (first >= 0)
    {
      Issue(job, first);
      w += std::string(" ") + names[first];
    }
    for (int i = 0; i < n; ++i)
    {
      int c = mc::Choose(5);
      w += std::string(" ") + names[c];
      reset = reset || c == 4;
      halt = c == 3 || (halt && c != 4);
      if (c == 1 || c == 2)
        ++others;
      Issue(job, c);
    }
    int end = mc::Choose(3);
    w += std::string(" ") + (end == 0 ? "destroy " : end == 1 ? "halt,wait " : "settle ");
    if (end == 1)
    {
      job.Halt();
      if (!reset)
      {
        auto st = rec.WaitFinished();
        MC_CHECK(IsFinishedJobState(st), "finished");
      }
    }
    if (end == 2)
    {
      Settle(kind == 6 ? 55000000 : 100000000000);
      auto st = rec.Current();
      MC_CHECK(kind == 6 || st != JobState::kRunning, w + ": still running");
      MC_CHECK(st != JobState::kStepping, w + ": still stepping");
      if (halt && !reset)
        MC_CHECK(IsFinishedJobState(st), w + ": not halted but " + St(st));
      if (first == 0 && !halt && others == 0 && !reset && kind != 6)
        MC_CHECK(st == JobState::kSucceeded, w + ": ended " + St(st));
    }
  }
  CheckEnd(w);
}
}  // namespace

SCENARIO(burst_simple, s.quick = 2, s.thorough = 4) { Burst(0, 2, 0); }
SCENARIO(burst_sequence, s.quick = 2, s.thorough = 3) { Burst(1, 1, 0); }
SCENARIO(burst_initial, s.quick = 1, s.thorough = 3) { Burst(1, 3, -1); }
SCENARIO(burst_wait, s.quick = 2, s.thorough = 3) { Burst(2, 1, 0); }
SCENARIO(burst_async, s.quick = 2, s.thorough = 3) { Burst(3, 1, 0); }
SCENARIO(burst_async_wait, s.quick = 2, s.thorough = 3) { Burst(4, 1, 0); }
SCENARIO(burst_parallel, s.quick = 1, s.thorough = 2) { Burst(5, 1, 0); }
SCENARIO(burst_loop, s.quick = 2, s.thorough = 3) { Burst(6, 1, 0); }

// A complete second run after a reset.
SCENARIO(rerun, s.quick = 2, s.thorough = 4)
{
  int kind = mc::Choose(4);
  int halt = mc::Choose(2);
  {
    Recorder rec;
    LocalJob job{Make(kind), rec};
    job.Start();
    if (halt)
      job.Halt();
    rec.WaitFinished();
    job.Reset();
    rec.WaitState(JobState::kInitial);
    job.Start();
    auto st = rec.WaitFinished();
    MC_CHECK(st == JobState::kSucceeded, "second run ends " + St(st));
  }
  CheckEnd(std::to_string(kind));
}
// Two controlling threads.
SCENARIO(two_controllers, s.quick = 1, s.thorough = 3)
{
  int kind = mc::Choose(2) ? 3 : 0;
  {
    Recorder rec;
    LocalJob job{Make(kind), rec};
    int a = mc::Choose(3);
    std::thread t([&] { job.Halt(); });
    Issue(job, a);
    t.join();
    auto st = rec.WaitFinished();
    MC_CHECK(st == JobState::kHalted || (st == JobState::kSucceeded && a != 2), "ends " + St(st));
  }
  CheckEnd(std::to_string(kind));
}

// Commands that are still pending when a job that would execute forever is destroyed.
SCENARIO(pending, s.quick = 1, s.thorough = 2)
{
  static const char* const scripts[] = {"hrs", "hr", "hrsrs", "hrst", "hrsh", "srhrs", "rs", "phrs", "hrtrs", "hrsp"};
  std::string script = scripts[mc::Choose(10)];
  int kind = mc::Choose(2) ? 6 : 3, stopped = mc::Choose(3);
  std::string w = "kind " + std::to_string(kind) + " start " + script + " stopped " + std::to_string(stopped);
  {
    Recorder rec;
    LocalJob job{Make(kind), rec};
    job.Start();
    bool halted = false;
    for (char c : script)
    {
      if (c == 's')
        job.Start();
      else if (c == 't')
        job.Step();
      else if (c == 'p')
        job.Pause();
      else if (c == 'h')
        job.Halt();
      else
        job.Reset();
      // a job that was reset has nothing to end
      if (c == 'h' && stopped && !halted && script.find('r') > script.find('h'))
      {
        rec.WaitFinished();
        halted = true;
      }
    }
    if (stopped == 2)
      mc::Yield();
  }
  CheckEnd(w);
}
