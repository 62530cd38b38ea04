// Parallel sequence: thresholds, halting of the other branches, every completion order.
// LIB: full
#include "par_util.h"
#include <algorithm>
using namespace pu;
namespace
{
struct Case
{
  std::vector<std::string> scripts;
  int sth, fth;  // -1: not given
  std::string Str() const
  {
    std::string r = "branches";
    for (auto& s : scripts)
      r += " " + s;
    return r + " success " + std::to_string(sth) + " failure " + std::to_string(fth);
  }
};
char Final(const std::string& s) { return s == "B" ? 'B' : s.back(); }
void Run(const Case& c, int free_ticks, bool rerun)
{
  std::string w = c.Str();
  int n = static_cast<int>(c.scripts.size());
  // the documented thresholds
  int s = c.sth < 0 ? n : std::min(n, c.sth);
  int f = c.fth < 0 ? 1 : std::min(n, c.fth);
  if (c.sth >= 0)
    f = std::min(f, n + 1 - s);
  else if (c.fth >= 0)
    s = std::min(s, n + 1 - f);
  DefaultUserInterface ui;
  auto root = GlobalInstructionRegistry().Create("ParallelSequence");
  if (c.sth >= 0)
    root->AddAttribute("successThreshold", std::to_string(c.sth));
  if (c.fth >= 0)
    root->AddAttribute("failureThreshold", std::to_string(c.fth));
  for (int i = 0; i < n; ++i)
    AppendChildInstruction(*root, Step::Make(i, c.scripts[i]));
  auto proc = Proc(std::move(root));
  proc->Setup();
  int can_s = 0, can_f = 0;
  for (auto& x : c.scripts)
  {
    can_s += Final(x) == 'S';
    can_f += Final(x) == 'F';
  }
  size_t base = 0;
  for (int pass = 0; pass < (rerun ? 2 : 1); ++pass)
  {
    auto since = [&]
    {
      auto l = mc::GetLog();
      return std::vector<std::string>(l.begin() + base, l.end());
    };
    auto st = proc->GetStatus();
    MC_CHECK(st == ES::NOT_STARTED, w + ": not fresh");
    for (int t = 0; t < free_ticks + 8 && !IsFinishedStatus(st); ++t)
    {
      if (t > free_ticks)
        Settle(1000);  // let the branches finish their steps
      proc->ExecuteSingle(ui);
      st = proc->GetStatus();
      auto log = since();
      int ns = 0, nf = 0;
      for (int i = 0; i < n; ++i)
      {
        ns += Count(log, "-:" + std::to_string(i) + "S");
        nf += Count(log, "-:" + std::to_string(i) + "F");
      }
      MC_CHECK(st != ES::NOT_STARTED, w + ": not started after a tick");
      if (st == ES::SUCCESS)
        MC_CHECK(ns >= s, w + ": succeeded too early: " + Join(log));
      if (st == ES::FAILURE)
        MC_CHECK(nf >= f && f > 0, w + ": failed too early: " + Join(log));
    }
    bool must_s = can_s >= s, must_f = can_f >= f;
    if (must_s || must_f)
    {
      MC_CHECK(IsFinishedStatus(st), w + ": not finished: " + Join(since()));
      if (!must_f)
        MC_CHECK(st == ES::SUCCESS, w + ": failed");
      if (!must_s)
        MC_CHECK(st == ES::FAILURE, w + ": succeeded");
    }
    else
    {
      MC_CHECK(!IsFinishedStatus(st), w + ": finished: " + Join(since()));
      MC_CHECK(st == ES::RUNNING, w + ": not running although branches execute");
      if (pass || !rerun)
      {
        proc->Halt();
        Settle(10000000);
        for (int t = 0; t < 2; ++t)
          proc->ExecuteSingle(ui);
      }
    }
    // every branch was started; what still executes was told to stop and starts nothing any more
    size_t mark = mc::GetLog().size();
    Settle(10000000);
    auto log = mc::GetLog();
    if (IsFinishedStatus(st) || pass || !rerun)
    {
      auto sub = since();
      for (int i = 0; i < n; ++i)
      {
        MC_CHECK(CountPrefix(sub, "-:" + std::to_string(i)) == Count(sub, "+:" + std::to_string(i)), w + ": branch " + std::to_string(i) + " was not stopped: " + Join(sub));
        if (s > 0 && pass == 0)
        {
          // a branch that was halted before its thread got going executes nothing
          if (IsFinishedStatus(st) || !must_s)
            MC_CHECK(Count(sub, "+:" + std::to_string(i)) > 0 || IsFinishedStatus(st) , w + ": branch not started: " + Join(sub));
        }
      }
      size_t m2 = mc::GetLog().size();
      proc->ExecuteSingle(ui);
      Settle(10000000);
      MC_CHECK(mc::GetLog().size() == m2, w + ": executes after the end");
    }
    (void)mark;
    mc::Outcome(w + " " + C(st));
    proc->Reset(ui);
    for (auto i : proc->RootInstruction()->ChildInstructions())
      MC_CHECK(i->GetStatus() == ES::NOT_STARTED && !i->IsHaltRequested(), w + ": not reset");
    base = mc::GetLog().size();
    Settle(10000000);
    MC_CHECK(mc::GetLog().size() == base, w + ": executes after a reset");
  }
}
Case Pick(int n, const std::vector<std::string>& scripts)
{
  Case c;
  for (int i = 0; i < n; ++i)
    c.scripts.push_back(scripts[mc::Choose(static_cast<int>(scripts.size()))]);
  c.sth = mc::Choose(n + 3) - 1;
  c.fth = mc::Choose(n + 2);
  if (c.fth == 0)
    c.fth = -1;
  return c;
}
}  // namespace

SCENARIO(one, s.quick = 3, s.thorough = 6) { Run(Pick(1, {"S", "F", "NS", "B"}), 2, true); }
SCENARIO(two, s.quick = 1, s.thorough = 3) { Run(Pick(2, {"S", "F", "B"}), 1, false); }
SCENARIO(two_steps, s.quick = 0, s.thorough = 2) { Run(Pick(2, {"S", "NF", "NS", "RS"}), 1, true); }
SCENARIO(three, s.quick = 0, s.thorough = 1) { Run(Pick(3, {"S", "F", "B"}), 0, false); }
SCENARIO(three_orders, s.quick = 1, s.thorough = 2)
{
  Case c{{"S", "F", "S"}, -1, -1};
  c.sth = mc::Choose(2) + 1;
  Run(c, 0, false);
}
// A reset at any moment stops all branches first.
SCENARIO(reset_midway, s.quick = 1, s.thorough = 3)
{
  const char* kinds[] = {"B", "N", "S", "R"};
  std::string a = kinds[mc::Choose(4)], b = kinds[mc::Choose(4)];
  int ticks = 1 + mc::Choose(2);
  std::string w = a + " " + b + " reset after " + std::to_string(ticks);
  DefaultUserInterface ui;
  auto proc = Proc(Node("ParallelSequence", Step::Make(0, a), Step::Make(1, b)));
  proc->Setup();
  for (int t = 0; t < ticks; ++t)
  {
    proc->ExecuteSingle(ui);
    if (mc::Choose(2))
      Settle(1000);
  }
  proc->Reset(ui);
  auto log = mc::GetLog();
  for (int i = 0; i < 2; ++i)
    MC_CHECK(CountPrefix(log, "-:" + std::to_string(i)) == Count(log, "+:" + std::to_string(i)), w + ": still executing: " + Join(log));
  for (auto i : proc->RootInstruction()->ChildInstructions())
    MC_CHECK(i->GetStatus() == ES::NOT_STARTED && !i->IsHaltRequested(), w + ": not reset");
  Settle(10000000);
  MC_CHECK(mc::GetLog().size() == log.size(), w + ": executes after the reset");
  mc::Outcome(w);
}
