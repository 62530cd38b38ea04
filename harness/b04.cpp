// First use of the global registries (and of the other process-wide tables) by several threads at once.
// Every execution runs in a process in which nothing has been used before.
// LIB: full
#include "user_util.h"
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>

#include <algorithm>
#include <set>
using namespace uu;
namespace
{
const std::vector<std::string> kInstructions = {
    "Choice", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Sequence", "UserChoice",
    "Async", "For", "ForceSuccess", "Include", "IncludeProcedure", "Inverter", "Listen", "Repeat",
    "AddElement", "AddMember", "Condition", "CopyFromProcedure", "CopyToProcedure", "Copy", "Decrement", "Equals",
    "Fail", "GreaterThan", "GreaterThanOrEqual", "Increment", "Input", "LessThan", "LessThanOrEqual", "Log",
    "Message", "Output", "ResetVariable", "Succeed", "UserConfirmation", "VarExists", "Wait", "WaitForVariable",
    "WaitForVariables"};

void UseInstructions(int who)
{
  auto& reg = GlobalInstructionRegistry();
  const std::string name = who == 0 ? "Sequence" : who == 1 ? "WaitForVariables" : "Async";
  MC_CHECK(reg.IsRegisteredInstructionName(name), name + " is not registered at first use");
  auto instr = reg.Create(name);
  MC_CHECK(instr && instr->GetType() == name, "first use creates something else than " + name);
  auto names = reg.RegisteredInstructionNames();
  std::set<std::string> all(names.begin(), names.end());
  MC_CHECK(all.size() == names.size(), "a name is reported twice");
  for (auto& n : kInstructions)
    MC_CHECK(all.count(n), "a thread sees the global registry without " + n);
}
void UseVariables(int who)
{
  auto& reg = GlobalVariableRegistry();
  const std::string name = who == 0 ? "Local" : "File";
  auto var = reg.Create(name);
  MC_CHECK(var && var->GetType() == name, "first use creates something else than " + name);
  auto names = reg.RegisteredVariableNames();
  MC_CHECK(names.size() == 2, "a thread sees the global variable registry with " + std::to_string(names.size()) + " names");
  MC_CHECK(reg.IsRegisteredVariableName("Local") && reg.IsRegisteredVariableName("File"), "a built-in variable type is missing");
}
// Building, checking and running a procedure from text: everything it needs is used for the first time.
void UseDocument(int who)
{
  const std::string body = who == 0 ? R"(<Log message="hello" severity="warning"/>)" : R"(<Copy inputVar="a" outputVar="b"/>)";
  auto proc = ParseProcedureString(
      R"(<?xml version="1.0" encoding="UTF-8"?><Procedure xmlns="http://codac.iter.org/sup/oac-tree" version="1.0" name="Trivial procedure">)"
      R"(<Sequence>)" + body + R"(</Sequence><Workspace><Local name="a" type='{"type":"uint32"}' value='7'/>)"
      R"(<Local name="b" type='{"type":"uint32"}' value='1'/></Workspace></Procedure>)");
  MC_CHECK(proc != nullptr, "the document is not accepted");
  proc->Setup();
  DefaultUserInterface ui;
  while (proc->GetStatus() != ES::SUCCESS && proc->GetStatus() != ES::FAILURE)
    proc->ExecuteSingle(ui);
  MC_CHECK(proc->GetStatus() == ES::SUCCESS, "the procedure fails");
  sup::dto::AnyValue v;
  proc->GetWorkspace().GetValue("b", v);
  MC_CHECK(v.As<sup::dto::uint32>() == (who == 0 ? 1u : 7u), "wrong value");
}
void Together(void (*f)(int), int n)
{
  std::vector<std::thread> t;
  for (int i = 1; i < n; ++i)
    t.emplace_back([f, i] { f(i); });
  f(0);
  for (auto& x : t)
    x.join();
}
}  // namespace

SCENARIO(instructions, s.fresh = true; s.quick = 3; s.thorough = 6) { Together(&UseInstructions, 2); }
SCENARIO(three, s.fresh = true; s.quick = 2; s.thorough = 4) { Together(&UseInstructions, 3); }
SCENARIO(variables, s.fresh = true; s.quick = 3; s.thorough = 6) { Together(&UseVariables, 3); }
SCENARIO(both, s.fresh = true; s.quick = 2; s.thorough = 4)
{
  std::thread t{[] { UseVariables(1); UseInstructions(2); }};
  UseInstructions(0);
  UseVariables(0);
  t.join();
}
SCENARIO(documents, s.fresh = true; s.quick = 1; s.thorough = 3) { Together(&UseDocument, 2); }
SCENARIO(states, s.fresh = true; s.quick = 3; s.thorough = 6)
{
  auto use = [](JobState s, const std::string& text, bool fin)
  {
    MC_CHECK(ToString(s) == text, "text of a job state");
    MC_CHECK(IsFinishedJobState(s) == fin, "finished states");
  };
  std::thread t{[&] { use(JobState::kHalted, "Halted", true); }};
  use(JobState::kRunning, "Running", false);
  t.join();
}
