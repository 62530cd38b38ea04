// Breakpoints of an asynchronous job: set, hit, resumed, removed, re-armed, under every schedule.
// LIB: full
#include "job_util.h"
#include <sup/oac-tree/instruction_info.h>
#include <algorithm>
#include <map>
using namespace ju;
namespace
{
int Count(const std::vector<std::string>& log, const std::string& e)
{
  int n = 0;
  for (auto& l : log)
    n += l == e;
  return n;
}
std::unique_ptr<Instruction> Rep(std::unique_ptr<Instruction> i, int n)
{
  return Attr(Node("Repeat", std::move(i)), "maxCount", std::to_string(n));
}
// The last thing an observer is told about each instruction: "status" + "b" when a breakpoint is set.
std::map<std::string, std::string> LastInstr(const std::vector<std::string>& log)
{
  std::map<std::string, std::string> r;
  for (auto& e : Filter(log, "i"))
  {
    auto p = e.find(':', 2);
    r[e.substr(2, p - 2)] = e.substr(p + 1);
  }
  return r;
}
}  // namespace

// Stop, end the run in one of several ways, reset and run again: stops again at the same place.
SCENARIO(rearmed, s.quick = 1, s.thorough = 2)
{
  int how = mc::Choose(3);
  int twice = mc::Choose(2);
  Recorder rec;
  {
    LocalJob job{Proc(Node("Sequence", Probe::Make(0, "S"), Probe::Make(1, "S"))), rec};
    job.SetBreakpoint(twice ? 0 : 2);
    job.Start();
    rec.WaitState(JobState::kPaused);
    int e0 = Count(mc::GetLog(), "e:0"), e1 = Count(mc::GetLog(), "e:1");
    MC_CHECK(e0 == (twice ? 0 : 1) && e1 == 0, "executed before the stop: " + Join(mc::GetLog()));
    if (how == 0)
      job.Halt();
    else if (how == 1)
    {
      job.Start();
      if (twice)
      {
        rec.WaitNth(JobState::kPaused, 2);  // the root is executed twice
        job.Start();
      }
    }
    else
    {
      job.Step();
      job.Halt();
    }
    auto st = rec.WaitFinished();
    if (how == 1)
      MC_CHECK(st == JobState::kSucceeded, "first run ends " + St(st));
    job.Reset();
    rec.WaitState(JobState::kInitial);
    size_t before = mc::GetLog().size();
    job.Start();
    rec.WaitState(JobState::kPaused);
    auto log = mc::GetLog();
    std::vector<std::string> second(log.begin() + before, log.end());
    MC_CHECK(Count(second, "e:0") == (twice ? 0 : 1) && Count(second, "e:1") == 0, "second run executed before the stop: " + Join(second));
    job.RemoveBreakpoint(twice ? 0 : 2);
    job.Start();
    st = rec.WaitFinished();
    MC_CHECK(st == JobState::kSucceeded, "second run ends " + St(st));
  }
  CheckStatePath(mc::GetLog());
}
// The number of stops of a repeated body; removing the breakpoint after k stops.
SCENARIO(loop_stops, s.quick = 1, s.thorough = 3)
{
  int k = mc::Choose(4);
  int stops = 0;
  int step = mc::Choose(2);
  Recorder rec;
  {
    LocalJob job{Proc(Rep(Probe::Make(0, "S"), 3)), rec};
    job.SetBreakpoint(1);
    job.SetBreakpoint(1);
    sup::dto::uint32 none = mc::Choose(2) ? 77 : 2;
    job.SetBreakpoint(none);
    job.RemoveBreakpoint(none);
    job.Start();
    for (int i = 0; i < 3; ++i)
    {
      if (i < k)
      {
        rec.WaitNth(JobState::kPaused, ++stops);
        MC_CHECK(Count(mc::GetLog(), "e:0") == i, "stop " + std::to_string(i) + ": " + Join(mc::GetLog()));
        if (i + 1 == k && k < 3)
          job.RemoveBreakpoint(1);
        if (step && i == 0 && k == 3)
        {
          // a step executes one tick and leaves the next stop in place
          job.Step();
          rec.WaitNth(JobState::kPaused, ++stops);
          MC_CHECK(Count(mc::GetLog(), "e:0") == 1, "step: " + Join(mc::GetLog()));
        }
        job.Start();
      }
      else if (k == 0 && i == 0)
      {
        rec.WaitState(JobState::kPaused);
        job.RemoveBreakpoint(1);
        job.RemoveBreakpoint(1);
        job.Start();
      }
    }
    auto st = rec.WaitFinished();
    MC_CHECK(st == JobState::kSucceeded, "ends " + St(st));
    if (k == 0)
      stops = 1;
    MC_CHECK(Count(mc::GetLog(), "s:paused") == stops, "stops: " + Join(mc::GetLog()));
  }
  CheckStatePath(mc::GetLog());
}
// A stop in front of an asynchronous operation, then a step into it, then a resume.
SCENARIO(step_into_async, s.quick = 1, s.thorough = 2)
{
  int kind = mc::Choose(3);
  int bp = mc::Choose(2);
  Recorder rec;
  {
    LocalJob job{Proc(kind == 0   ? Node("Async", Probe::Make(0, "S", 10))
                      : kind == 1 ? Node("ParallelSequence", Probe::Make(0, "S", 10), Probe::Make(1, "S"))
                                  : Node("Async", Node("Sequence", Probe::Make(0, "S", 10), Probe::Make(1, "S")))),
                 rec};
    job.SetBreakpoint(bp);
    job.Start();
    rec.WaitState(JobState::kPaused);
    MC_CHECK(Count(mc::GetLog(), "e:0") == 0, "executed before the stop");
    job.Step();
    rec.WaitNth(JobState::kPaused, 2);
    job.Start();
    for (;;)
    {
      Settle(100000000000);
      auto st = rec.Current();
      if (st == JobState::kPaused && kind == 2)
      {
        job.Start();  // the breakpoint may be met again in the next tick
        continue;
      }
      MC_CHECK(st == JobState::kSucceeded, "ends " + St(st) + ": " + Join(mc::GetLog()));
      break;
    }
  }
  CheckStatePath(mc::GetLog());
}
// Breakpoints changed while the job is executing.
SCENARIO(concurrent_change, s.quick = 2, s.thorough = 3)
{
  int kind = mc::Choose(2);
  Recorder rec;
  rec.log_instr = true;
  {
    LocalJob job{Proc(kind ? Node("Async", Probe::Make(0, "S", 10)) : Rep(Probe::Make(0, "S"), 2)), rec};
    job.Start();
    job.SetBreakpoint(1);
    if (mc::Choose(2))
    {
      job.RemoveBreakpoint(1);
      Settle(100000000000);
      if (rec.Current() == JobState::kPaused)
        job.Start();
      auto st = rec.WaitFinished();
      MC_CHECK(st == JobState::kSucceeded, "ends " + St(st));
      MC_CHECK(LastInstr(mc::GetLog())["1"] == "S" || (!kind && LastInstr(mc::GetLog())["1"] == "-"), "last report: " + Join(mc::GetLog()));
    }
    else
    {
      for (int i = 0; i < 3; ++i)
      {
        Settle(100000000000);
        if (rec.Current() == JobState::kPaused)
          job.Start();
      }
      auto st = rec.WaitFinished();
      MC_CHECK(st == JobState::kSucceeded, "ends " + St(st));
      auto last = LastInstr(mc::GetLog())["1"];
      MC_CHECK(last == "Sb" || (!kind && last == "-b"), "last report: " + Join(mc::GetLog()));
    }
  }
  CheckStatePath(mc::GetLog());
}
// Breakpoints inside branches that execute asynchronously: each stops the job once, before its instruction executes.
SCENARIO(async_branches, s.quick = 1, s.thorough = 3)
{
  int kind = mc::Choose(2);
  int slow = mc::Choose(2) ? 450 : 0;
  int bps = 1 + mc::Choose(kind ? 15 : 3);
  auto seq = [slow](int first) { return Node("Sequence", Probe::Make(first, "S", first ? 0 : slow), Probe::Make(first + 1, "S")); };
  std::string w = std::string(kind ? "parallel" : "async") + " breakpoints " + std::to_string(bps) + " slow " + std::to_string(slow) + ": ";
  Recorder rec;
  {
    LocalJob job{Proc(kind ? Node("ParallelSequence", seq(0), seq(2)) : Node("Async", seq(0))), rec};
    auto info = job.GetInfo();
    auto branches = info.GetRootInstructionInfo()->Children();
    for (int i = 0; i < (kind ? 4 : 2); ++i)
      if (bps & (1 << i))
        job.SetBreakpoint(branches[i / 2]->Children()[i % 2]->GetIndex());
    int stops = 0;
    job.Start();
    for (;;)
    {
      Settle(1000000000);
      auto st = rec.Current();
      if (st != JobState::kPaused)
      {
        MC_CHECK(st == JobState::kSucceeded, w + "ends " + St(st) + ": " + Join(mc::GetLog()));
        break;
      }
      ++stops;
      job.Start();
    }
    auto log = mc::GetLog();
    auto find = [&log](const std::string& e) { return std::find(log.begin(), log.end(), e); };
    int set = 0;
    for (int i = 0; i < (kind ? 4 : 2); ++i)
    {
      MC_CHECK(Count(log, "e:" + std::to_string(i)) == 1, w + "executes: " + Join(log));
      if (!(bps & (1 << i)))
        continue;
      ++set;
      auto from = i % 2 ? find("e:" + std::to_string(i - 1)) : log.begin();
      auto to = find("e:" + std::to_string(i));
      MC_CHECK(std::find(from, to, "s:paused") != to, w + "does not stop before " + std::to_string(i) + ": " + Join(log));
    }
    MC_CHECK(stops >= 1 && stops <= set, w + "stops " + std::to_string(stops) + " times: " + Join(log));
  }
  CheckStatePath(mc::GetLog());
}
// A breakpoint set before the start holds whatever is commanded.
SCENARIO(commands, s.quick = 2, s.thorough = 3)
{
  int c = mc::Choose(4);
  Recorder rec;
  {
    LocalJob job{Proc(Node("Sequence", Probe::Make(0, "S"), Probe::Make(1, "S"))), rec};
    job.SetBreakpoint(2);
    job.Start();
    if (c == 1)
      job.Pause();
    if (c == 2)
      job.Halt();
    if (c == 3)
      job.Start();
    Settle(100000000000);
    auto log = mc::GetLog();
    auto st = rec.Current();
    if (c == 2)
      MC_CHECK(st == JobState::kHalted, "halted: " + St(st));
    else if (c != 3)
      MC_CHECK(st == JobState::kPaused, "paused: " + St(st));
    if (c != 3)
      MC_CHECK(Count(log, "e:1") == 0, "ran over the breakpoint: " + Join(log));
    else
    {
      // the second start is either swallowed by the running job or resumes the stopped one
      MC_CHECK(st == JobState::kSucceeded ? Count(log, "s:paused") == 1 : st == JobState::kPaused && Count(log, "e:1") == 0, Join(log));
    }
  }
  CheckStatePath(mc::GetLog());
}
