// Reactive instructions with asynchronous children.
// LIB: full
#include "par_util.h"
using namespace pu;
namespace
{
int Active(const std::vector<std::string>& log) { return CountPrefix(log, "+:") - CountPrefix(log, "-:"); }
}  // namespace

// The condition changes its mind after n evaluations: the asynchronous child is interrupted.
SCENARIO(interrupt, s.quick = 3, s.thorough = 4)
{
  bool seq = mc::Choose(2) == 0;
  int n = 1 + mc::Choose(2);
  const char* scripts[] = {"B", "N", "R"};
  std::string child = scripts[mc::Choose(3)];
  bool settle = mc::Choose(2);
  char pass = seq ? 'S' : 'F', stop = seq ? 'F' : 'S';
  std::string w = std::string(seq ? "sequence " : "fallback ") + child + " after " + std::to_string(n);
  DefaultUserInterface ui;
  std::string cond(n, pass);
  cond += std::string(8, stop);
  struct Cond : Instruction
  {
    Cond(int k, ES a, ES b) : Instruction("Cond"), n{k}, pass{a}, stop{b} {}
    ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return count++ < n ? pass : stop; }
    int n, count = 0;
    ES pass, stop;
  };
  auto cptr = new Cond(n, seq ? ES::SUCCESS : ES::FAILURE, seq ? ES::FAILURE : ES::SUCCESS);
  auto proc = Proc(Node(seq ? "ReactiveSequence" : "ReactiveFallback", std::unique_ptr<Instruction>(cptr), Node("Async", Step::Make(1, child))));
  proc->Setup();
  auto st = proc->GetStatus();
  int t = 0;
  for (; t < 30 && !IsFinishedStatus(st); ++t)
  {
    if (settle || t > 3)
      Settle(1000);
    proc->ExecuteSingle(ui);
    st = proc->GetStatus();
    int evals = cptr->count;
    if (IsFinishedStatus(st))
      MC_CHECK(evals == n + 1, w + ": evaluations " + std::to_string(evals));
    else
      MC_CHECK(evals <= n, w + ": the changed condition was ignored");
  }
  MC_CHECK(st == (seq ? ES::FAILURE : ES::SUCCESS), w + ": ends " + C(st));
  // the child is stopped
  Settle(20000000);
  auto log = mc::GetLog();
  MC_CHECK(Active(log) == 0, w + ": the asynchronous child was not stopped: " + Join(log));
  proc->Reset(ui);
  auto c = proc->RootInstruction()->ChildInstructions()[1];
  MC_CHECK(!c->IsHaltRequested() && c->GetStatus() == ES::NOT_STARTED, w + ": not reset");
  mc::Outcome(w);
}
// An asynchronous child that completes decides the result.
SCENARIO(completes, s.quick = 2, s.thorough = 4)
{
  bool seq = mc::Choose(2) == 0;
  const char* scripts[] = {"S", "F", "NS", "NF", "RS"};
  std::string child = scripts[mc::Choose(5)];
  std::string w = std::string(seq ? "sequence " : "fallback ") + child;
  DefaultUserInterface ui;
  auto proc = Proc(Node(seq ? "ReactiveSequence" : "ReactiveFallback", Step::Make(0, seq ? "S" : "F"), Node("Async", Step::Make(1, child))));
  proc->Setup();
  auto st = proc->GetStatus();
  for (int t = 0; t < 30 && !IsFinishedStatus(st); ++t)
  {
    if (t > 2)
      Settle(1000);
    proc->ExecuteSingle(ui);
    st = proc->GetStatus();
    auto log = mc::GetLog();
    bool running = CountPrefix(log, "+:1") > CountPrefix(log, "-:1");
    if (running)
      MC_CHECK(st == ES::RUNNING, w + ": status " + std::string(1, C(st)));
    // a tick that leaves the tree running re-evaluates the condition in the next one
  }
  MC_CHECK(C(st) == child.back(), w + ": ends " + C(st));
  auto log = mc::GetLog();
  std::string r;
  for (auto& e : log)
    if (e.compare(0, 3, "-:1") == 0)
      r += e.back();
  MC_CHECK(r == child, w + ": child steps " + r);
  MC_CHECK(Count(log, "+:0") >= 2, w + ": condition evaluated once: " + Join(log));
  mc::Outcome(w);
}
