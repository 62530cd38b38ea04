// Asynchronous child: status while a step executes, no overlap, reset/halt/destruction at any moment.
// LIB: full
#include "par_util.h"
using namespace pu;
namespace
{
char LastResult(const std::vector<std::string>& log)
{
  char r = 0;
  for (auto& e : log)
    if (e[0] == '-')
      r = e.back();
  return r;
}
int Active(const std::vector<std::string>& log) { return CountPrefix(log, "+:") - CountPrefix(log, "-:"); }
std::vector<std::string> Since(size_t base)
{
  auto l = mc::GetLog();
  return std::vector<std::string>(l.begin() + base, l.end());
}
}  // namespace

SCENARIO(ticks, s.quick = 3, s.thorough = 6)
{
  const char* scripts[] = {"S", "F", "NS", "RS", "NF", "NRS"};
  std::string script = scripts[mc::Choose(6)];
  int free_ticks = mc::Choose(3);
  std::string w = script + " free ticks " + std::to_string(free_ticks);
  DefaultUserInterface ui;
  auto proc = Proc(Node("Async", Step::Make(0, script)));
  proc->Setup();
  size_t base = 0;
  for (int pass = 0; pass < 2; ++pass)
  {
    auto st = proc->GetStatus();
    int t = 0;
    int unfinished = 0;
    for (; t < 20 && !IsFinishedStatus(st); ++t)
    {
      if (t > free_ticks)
        Settle(1000);
      proc->ExecuteSingle(ui);
      int active = Active(Since(base));
      st = proc->GetStatus();
      auto log = Since(base);
      unfinished += st == ES::NOT_FINISHED;
      if (t == 0)
        MC_CHECK(st == ES::RUNNING, w + ": first status " + C(st));
      if (active)
        MC_CHECK(st == ES::RUNNING, w + ": status " + std::string(1, C(st)) + " while a step executes: " + Join(log));
      if (st != ES::RUNNING)
        MC_CHECK(C(st) == LastResult(log), w + ": status " + std::string(1, C(st)) + " after " + Join(log));
      MC_CHECK(active <= 1, w + ": overlapping steps");
    }
    auto log = Since(base);
    MC_CHECK(C(st) == script.back(), w + ": ends " + std::string(1, C(st)));
    MC_CHECK(CountPrefix(log, "+:") == static_cast<int>(script.size()), w + ": steps " + Join(log));
    std::string results;
    for (auto& e : log)
      if (e[0] == '-')
        results += e.back();
    MC_CHECK(results == script, w + ": results " + results);
    proc->ExecuteSingle(ui);
    Settle(1000);
    MC_CHECK(Since(base).size() == log.size(), w + ": executes after the end");
    int steps_n = 0;
    for (char c : script)
      steps_n += c == 'N';
    MC_CHECK(unfinished == steps_n, w + ": not finished was reported " + std::to_string(unfinished) + " times");
    mc::Outcome(w + " " + std::to_string(t > free_ticks));
    proc->Reset(ui);
    base = mc::GetLog().size();
    MC_CHECK(proc->GetStatus() == ES::NOT_STARTED && proc->RootInstruction()->ChildInstructions()[0]->GetStatus() == ES::NOT_STARTED, w + ": not reset");
  }
}
SCENARIO(interrupted, s.quick = 3, s.thorough = 6)
{
  const char* scripts[] = {"S", "NS", "RS", "B", "N", "R"};
  std::string script = scripts[mc::Choose(6)];
  int ticks = mc::Choose(4);
  int how = mc::Choose(3);
  std::string w = script + " ticks " + std::to_string(ticks) + (how == 0 ? " reset" : how == 1 ? " halt" : " destroy");
  DefaultUserInterface ui;
  auto proc = Proc(Node("Async", Step::Make(0, script)));
  proc->Setup();
  for (int t = 0; t < ticks; ++t)
  {
    if (t && mc::Choose(2))
      Settle(1000);
    proc->ExecuteSingle(ui);
  }
  if (how == 0)
  {
    proc->Reset(ui);
    auto log = mc::GetLog();
    MC_CHECK(Active(log) == 0, w + ": still executing: " + Join(log));
    auto c = proc->RootInstruction()->ChildInstructions()[0];
    MC_CHECK(proc->GetStatus() == ES::NOT_STARTED && c->GetStatus() == ES::NOT_STARTED && !c->IsHaltRequested(), w + ": not reset");
    Settle(10000000);
    MC_CHECK(mc::GetLog().size() == log.size(), w + ": executes after the reset");
  }
  else if (how == 1)
  {
    proc->Halt();
    Settle(10000000);
    auto log = mc::GetLog();
    MC_CHECK(Active(log) == 0, w + ": still executing: " + Join(log));
    proc->ExecuteSingle(ui);
    proc->ExecuteSingle(ui);
    Settle(10000000);
    MC_CHECK(mc::GetLog().size() == log.size(), w + ": executes after the halt");
    proc->Reset(ui);
    MC_CHECK(!proc->RootInstruction()->IsHaltRequested(), w + ": still halted");
  }
  else
  {
    if (script == "B")
      proc->Halt();  // a step that never ends has to be halted first
    proc.reset();
    auto log = mc::GetLog();
    MC_CHECK(Active(log) == 0, w + ": still executing: " + Join(log));
    Settle(10000000);
    MC_CHECK(mc::GetLog().size() == log.size(), w + ": executes after the destruction");
  }
}
// An asynchronous tree inside: steps of the subtree are executed one at a time and none is lost.
SCENARIO(subtree, s.quick = 2, s.thorough = 4)
{
  int kind = mc::Choose(3);
  DefaultUserInterface ui;
  auto proc = Proc(Node("Async", kind == 0   ? Node("Sequence", Step::Make(0, "S"), Step::Make(1, "NS"))
                                 : kind == 1 ? Node("Fallback", Step::Make(0, "F"), Step::Make(1, "S"))
                                             : Node("Inverter", Node("Async", Step::Make(0, "NF")))));
  proc->Setup();
  auto st = proc->GetStatus();
  for (int t = 0; t < 30 && !IsFinishedStatus(st); ++t)
  {
    if (t > 2)
      Settle(1000);
    proc->ExecuteSingle(ui);
    st = proc->GetStatus();
    MC_CHECK(Active(mc::GetLog()) == 0 || st == ES::RUNNING || kind == 2, "status while a step executes");
  }
  MC_CHECK(st == ES::SUCCESS, std::string("ends ") + C(st));
  auto log = Join(mc::GetLog());
  MC_CHECK(log == (kind == 0 ? "+:0 -:0S +:1 -:1N +:1 -:1S " : kind == 1 ? "+:0 -:0F +:1 -:1S " : "+:0 -:0N +:0 -:0F "), log);
}
