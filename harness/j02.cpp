// Every history of job commands against the job state machine.
// LIB: full
#include "job_util.h"
#include <set>
using namespace ju;
namespace
{
// Abstract procedures: ticks needed by a run, result, and whether they go on until stopped.
struct Kind
{
  const char* name;
  int ticks;       // number of leaf executions of a complete run
  const char* end; // state it ends in; empty: never ends
};
const Kind kinds[] = {{"S", 1, "succeeded"}, {"F", 1, "failed"}, {"Seq(S,F)", 2, "failed"}, {"Seq(NS,S)", 3, "succeeded"},
                      {"loop", 0, ""}};
std::unique_ptr<Procedure> Make(int k)
{
  switch (k)
  {
  case 0:
    return Proc(Probe::Make(0, "S"));
  case 1:
    return Proc(Probe::Make(0, "F"));
  case 2:
    return Proc(Node("Sequence", Probe::Make(0, "S"), Probe::Make(1, "F")));
  case 3:
    return Proc(Node("Sequence", Probe::Make(0, "NS"), Probe::Make(1, "S")));
  default:
    return Proc(Attr(Node("Repeat", Probe::Make(0, "S", 10)), "maxCount", "-1"));
  }
}
struct JobModel
{
  Kind k;
  std::string state = "initial";
  int done = 0;                      // leaf executions of the current run
  std::vector<std::string> states{"s:initial"};
  void To(const std::string& s)
  {
    state = s;
    states.push_back("s:" + s);
  }
  void Command(int c)
  {
    bool idle = state == "initial" || state == "paused";
    switch (c)
    {
    case 0:  // start
      if (idle)
      {
        To("running");
        if (*k.end)
        {
          done = k.ticks;
          To(k.end);
        }
      }
      break;
    case 1:  // step
      if (idle)
      {
        To("stepping");
        ++done;
        To(*k.end && done == k.ticks ? k.end : "paused");
      }
      else if (state == "running")
        To("paused");
      break;
    case 2:  // pause
      if (state == "running")
        To("paused");
      break;
    case 3:  // halt
      if (!Fin(state))
        To("halted");
      break;
    case 4:  // reset
      if (Fin(state))
      {
        done = 0;
        To("initial");
      }
      break;
    }
  }
};
void Issue(LocalJob& job, int c)
{
  switch (c)
  {
  case 0:
    return job.Start();
  case 1:
    return job.Step();
  case 2:
    return job.Pause();
  case 3:
    return job.Halt();
  case 4:
    return job.Reset();
  }
}
int Execs(const std::vector<std::string>& log) { return static_cast<int>(Filter(log, "e").size()); }
const char* names[] = {"start", "step", "pause", "halt", "reset"};

// Every command is issued when the previous one has taken effect.
void Histories(int kind, int depth)
{
  Recorder rec;
  JobModel model{kinds[kind]};
  std::string w = kinds[kind].name;
  {
    LocalJob job{Make(kind), rec};
    int total = 0;
    for (int d = 0; d < depth; ++d)
    {
      int c = mc::Choose(5);
      w += std::string(" ") + names[c];
      std::string before = model.state;
      int done = model.done;
      int e0 = Execs(mc::GetLog());
      Issue(job, c);
      Settle(30000000);  // the job is idle, or in its endless loop
      model.Command(c);
      auto log = mc::GetLog();
      MC_CHECK(Join(Filter(log, "s")) == Join(model.states), w + ": states " + Join(Filter(log, "s")) + " prescribed " + Join(model.states));
      int e1 = Execs(log) - e0;
      if (kind < 4)
      {
        int expect = c == 4 ? 0 : model.done - done;
        MC_CHECK(e1 == expect, w + ": instructions executed " + std::to_string(e1) + " times, prescribed " + std::to_string(expect));
      }
      else
      {
        bool executes = before == "running" || model.state == "running" || (c == 1 && (before == "initial" || before == "paused"));
        bool stopping = before == "running" && model.state != "running";
        MC_CHECK(stopping || executes == (e1 > 0), w + ": instructions executed " + std::to_string(e1) + " times");
        // nothing executes any more in a job that is not running
        if (model.state != "running")
        {
          int e2 = Execs(mc::GetLog());
          Settle(50000000);
          MC_CHECK(Execs(mc::GetLog()) == e2, w + ": executes while " + model.state);
        }
      }
    }
    (void)total;
  }
  auto log = mc::GetLog();
  MC_CHECK(Join(Filter(log, "s")) == Join(model.states), w + " destroyed: states " + Join(Filter(log, "s")));
  mc::Outcome(Join(model.states));
}

// All histories that commands may give when none waits for the effect of the one before: the job takes the first pending
// command while it is idle and, while it runs, after each tick; a halt goes first and nothing executes after it.
struct Pending
{
  enum Phase { kIdle, kLoop, kRunTick, kAfterRunTick, kStepTick, kAfterStepTick, kResetting };
  JobModel job;
  size_t issued = 0;
  std::vector<int> queue;
  bool halt = false;
  Phase phase = kIdle;
  int execs = 0;

  std::string Key() const
  {
    std::string r = Join(job.states) + ";" + std::to_string(job.done) + ";" + std::to_string(issued) + ";" + std::to_string(halt) + std::to_string(phase) + ";" + std::to_string(execs) + ";";
    for (int c : queue)
      r += std::to_string(c);
    return r;
  }
  void Issue(int c)
  {
    ++issued;
    if (c != 3)
      queue.push_back(c);
    else if (queue.empty() || queue[0] != 3)
    {
      queue.insert(queue.begin(), 3);
      halt = true;
    }
  }
  void Take()
  {
    int c = queue[0];
    queue.erase(queue.begin());
    bool idle = job.state == "initial" || job.state == "paused";
    if (c == 3 && !Fin(job.state))
    {
      job.To("halted");
      phase = kIdle;
    }
    else if (c == 4 && Fin(job.state))
      phase = kResetting;
    else if (idle && c == 0)
    {
      job.To("running");
      phase = kLoop;
    }
    else if (idle && c == 1)
    {
      job.To("stepping");
      phase = kStepTick;
    }
    else if (job.state == "running" && (c == 1 || c == 2))
    {
      job.To("paused");
      phase = kIdle;
    }
  }
  // One move of the job; false when there is nothing to do.
  bool Go()
  {
    bool over = job.done == job.k.ticks;
    switch (phase)
    {
    case kIdle:
      if (queue.empty())
        return false;
      Take();
      break;
    case kLoop:
      phase = over || halt ? kIdle : kRunTick;
      break;
    case kRunTick:
    case kStepTick:
      if (!halt && !over)
      {
        ++job.done;
        ++execs;
      }
      phase = phase == kRunTick ? kAfterRunTick : kAfterStepTick;
      break;
    case kAfterRunTick:
      phase = kLoop;
      if (over)
      {
        job.To(job.k.end);
        phase = kIdle;
      }
      else if (!queue.empty())
        Take();
      break;
    case kAfterStepTick:
      job.To(over ? job.k.end : "paused");
      phase = kIdle;
      break;
    case kResetting:
      job.done = 0;
      halt = false;
      job.To("initial");
      phase = kIdle;
      break;
    }
    return true;
  }
};
void AllHistories(const std::vector<int>& cmds, const Pending& p, std::set<std::string>& seen, std::set<std::string>& result)
{
  if (!seen.insert(p.Key()).second)
    return;
  if (p.issued < cmds.size())
  {
    Pending q = p;
    q.Issue(cmds[q.issued]);
    AllHistories(cmds, q, seen, result);
  }
  Pending q = p;
  if (q.Go())
    AllHistories(cmds, q, seen, result);
  else if (p.issued == cmds.size())
    result.insert(Join(p.job.states) + " with " + std::to_string(p.execs) + " executions");
}
void Rapid(int kind, int first, int depth)
{
  std::vector<int> cmds;
  std::string w = std::string(kinds[kind].name) + " without waiting:";
  if (first >= 0)
    cmds.push_back(first);
  for (int d = 0; d < depth; ++d)
    cmds.push_back(mc::Choose(5));
  for (int c : cmds)
    w += std::string(" ") + names[c];
  std::set<std::string> seen, allowed;
  Pending start{JobModel{kinds[kind]}};
  AllHistories(cmds, start, seen, allowed);
  Recorder rec;
  LocalJob job{Make(kind), rec};
  for (int c : cmds)
    Issue(job, c);
  Settle(30000000);
  auto log = mc::GetLog();
  auto got = Join(Filter(log, "s")) + " with " + std::to_string(Execs(log)) + " executions";
  std::string text;
  for (auto& a : allowed)
    text += "\n  " + a;
  MC_CHECK(allowed.count(got), w + ": states " + got + ", allowed are" + text);
  mc::Outcome(w + got);
}
}  // namespace

// Shorter histories also with a preemption at any point.
SCENARIO(histories_success, s.quick = 0, s.thorough = 1) { Histories(0, 5); }
SCENARIO(histories_failure, s.quick = 0, s.thorough = 1) { Histories(1, 4); }
SCENARIO(histories_steps, s.quick = 0, s.thorough = 0) { Histories(2, 5); }
SCENARIO(histories_ticks, s.quick = 0, s.thorough = 0) { Histories(3, 5); }
SCENARIO(histories_loop, s.quick = 0, s.thorough = 0) { Histories(4, 5); }
SCENARIO(preempted_steps, s.quick = 1, s.thorough = 2) { Histories(2, 3); }
SCENARIO(preempted_loop, s.quick = 1, s.thorough = 1) { Histories(4, 3); }
SCENARIO(long_steps, s.quick = -1, s.thorough = 0) { Histories(2, 7); }
SCENARIO(long_ticks, s.quick = -1, s.thorough = 0) { Histories(3, 7); }
SCENARIO(long_loop, s.quick = -1, s.thorough = 0) { Histories(4, 7); }
SCENARIO(rapid_start_ticks, s.quick = 1, s.thorough = 2) { Rapid(3, 0, 2); }
SCENARIO(rapid_steps, s.quick = 1, s.thorough = 2) { Rapid(2, -1, 3); }
SCENARIO(rapid_success, s.quick = 2, s.thorough = 3) { Rapid(0, 0, 2); }
SCENARIO(rapid_long, s.quick = -1, s.thorough = 1) { Rapid(3, 0, 3); }
