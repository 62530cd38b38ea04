// A halt request from another thread at every moment of the execution of small trees.
// LIB: full
#include "par_util.h"
using namespace pu;
namespace
{
std::unique_ptr<Instruction> W(bool blocking)
{
  return Attr(Attr(GlobalInstructionRegistry().Create("Wait"), "timeout", "1000.0"), "blocking", blocking ? "true" : "false");
}
std::unique_ptr<Instruction> Rep(std::unique_ptr<Instruction> c) { return Attr(Node("Repeat", std::move(c)), "maxCount", "-1"); }
const int kKinds = 15;
std::unique_ptr<Instruction> Tree(int k)
{
  switch (k)
  {
  case 0:
    return Node("Sequence", Step::Make(0, "S"), Step::Make(1, "B"));
  case 1:
    return Rep(Step::Make(0, "S"));
  case 2:
    return Rep(Step::Make(0, "B"));
  case 3:
    return Rep(Node("Sequence", Step::Make(0, "S"), Step::Make(1, "S")));
  case 4:
    return Node("Fallback", Step::Make(0, "F"), W(true));
  case 5:
    return Node("Inverter", W(false));
  case 6:
    return Node("Async", Step::Make(0, "B"));
  case 7:
    return Rep(Node("Async", Step::Make(0, "S")));
  case 8:
    return Node("ParallelSequence", Step::Make(0, "S"), Step::Make(1, "B"));
  case 9:
    return Node("ParallelSequence", Rep(Step::Make(0, "S")), W(true));
  case 10:
    return Node("ReactiveSequence", Step::Make(0, "S"), Node("Async", Step::Make(1, "B")));
  case 11:
    return Node("ReactiveFallback", Step::Make(0, "F"), W(false));
  case 12:
    return Rep(Node("ForceSuccess", Node("Sequence", Step::Make(0, "S"), W(true))));
  case 13:
    return Rep(Node("ReactiveSequence", Step::Make(0, "S"), Step::Make(1, "RS")));
  case 14:
    return Rep(Node("ParallelSequence", Step::Make(0, "S")));
  }
  return nullptr;
}
int Active(const std::vector<std::string>& log) { return CountPrefix(log, "+:") - CountPrefix(log, "-:"); }
void HaltAt(int k, int max_ticks)
{
  std::string w = "tree " + std::to_string(k);
  DefaultUserInterface ui;
  auto proc = Proc(Tree(k));
  proc->Setup();
  std::atomic<bool> halted{false};
  std::thread t([&] { proc->Halt(); halted = true; mc::Log("halted"); });
  int after = 0;
  auto root = proc->RootInstruction();
  for (int i = 0; i < max_ticks && !root->IsHaltRequested() && !IsFinishedStatus(proc->GetStatus()); ++i)
  {
    proc->ExecuteSingle(ui);
    if (proc->GetStatus() == ES::RUNNING)
      Settle(1000);
  }
  t.join();
  // whatever executes stops within a moment (the timing accuracy of waits), long before any timeout
  Settle(300000000);
  auto log = mc::GetLog();
  MC_CHECK(Active(log) == 0, w + ": still executing: " + Join(log));
  size_t p = 0;
  while (p < log.size() && log[p] != "halted")
    ++p;
  for (size_t i = p; i < log.size(); ++i)
    after += log[i][0] == '+';
  // a leaf of each executing thread may have been starting at that moment
  MC_CHECK(after <= (k == 8 || k == 9 || k == 10 || k == 14 ? 2 : 1), w + ": leaves start after the halt: " + Join(log));
  auto st = proc->GetStatus();
  for (int i = 0; i < 4; ++i)
  {
    proc->ExecuteSingle(ui);
    Settle(300000000);
  }
  MC_CHECK(mc::GetLog().size() == log.size(), w + ": executes after the halt");
  MC_CHECK(proc->GetStatus() != ES::SUCCESS || st == ES::SUCCESS, w + ": progress after the halt");
  mc::Outcome(w + " " + C(st) + " " + std::to_string(after));
  proc->Reset(ui);
  std::function<void(const Instruction*)> fresh = [&](const Instruction* i)
  {
    MC_CHECK(i->GetStatus() == ES::NOT_STARTED && !i->IsHaltRequested(), w + ": not fresh after the reset: " + i->GetType());
    for (auto c : i->ChildInstructions())
      fresh(c);
  };
  fresh(root);
  // executes again
  size_t base = mc::GetLog().size();
  if (k != 2 && k != 4 && k != 5 && k != 12)
  {
    proc->ExecuteSingle(ui);
    Settle(10000000);
    MC_CHECK(mc::GetLog().size() > base, w + ": does not execute after the reset");
  }
  proc->Halt();
  Settle(300000000);
}
}  // namespace

SCENARIO(halt_sequential, s.quick = 4, s.thorough = 6)
{
  int ks[] = {0, 1, 2, 3, 4, 5, 11, 12, 13};
  HaltAt(ks[mc::Choose(9)], 5);
}
SCENARIO(halt_parallel, s.quick = 2, s.thorough = 3)
{
  int ks[] = {6, 7, 8, 9, 10, 14};
  HaltAt(ks[mc::Choose(6)], 4);
}
