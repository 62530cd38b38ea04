// Listen while other threads write the variables.
// LIB: full
#include "par_util.h"
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
// Records the values it reads.
class See : public Instruction
{
public:
  See(std::string script, std::vector<int>& out) : Instruction("See"), m_script{std::move(script)}, m_out{out} {}

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    AnyValue v;
    m_out.push_back(ws.GetValue("v", v) ? v.As<int>() : -1);
    char c = m_script[m_pos++ % m_script.size()];
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  std::string m_script;
  std::vector<int>& m_out;
  size_t m_pos = 0;
};
std::string Str(const std::vector<int>& v)
{
  std::string r;
  for (int i : v)
    r += std::to_string(i) + " ";
  return r;
}
}  // namespace

SCENARIO(writer, s.quick = 4, s.thorough = 7)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  ws.AddVariable("o", wsm::Local(R"({"type":"int32"})", "0"));
  ws.Setup();
  const char* scripts[] = {"S", "NS", "RS"};
  std::string script = scripts[mc::Choose(3)];
  int n = 1 + mc::Choose(3);
  std::vector<int> seen;
  auto instr = Attr(Node("Listen", std::unique_ptr<Instruction>(new See(script, seen))), "varNames", "v");
  instr->Setup(proc);
  std::atomic<int> done{0};
  std::thread t([&] {
    for (int i = 1; i <= n; ++i)
    {
      ws.SetValue("v", AnyValue{sup::dto::int32(i)});
      done = i;
      ws.SetValue("o", AnyValue{sup::dto::int32(i)});
    }
  });
  size_t len = script.size();
  for (int k = 0; k < 3; ++k)
  {
    instr->ExecuteSingle(ui, ws);
    MC_CHECK(NeedsExecute(instr->GetStatus()), "ends by itself");
  }
  t.join();
  size_t before = seen.size();
  int last_idle = 0;
  for (int k = 0; k < 8 && last_idle < 2; ++k)
  {
    size_t s = seen.size();
    instr->ExecuteSingle(ui, ws);
    last_idle = seen.size() == s ? last_idle + 1 : 0;
  }
  MC_CHECK(last_idle == 2, "keeps executing its child without an update: " + Str(seen));
  MC_CHECK(seen.size() % len == 0, "the child is not executed completely: " + Str(seen));
  // the last execution started after the last write
  MC_CHECK(!seen.empty() && seen[seen.size() - len] == n, "an update was missed: the child saw " + Str(seen));
  for (size_t i = 1; i < seen.size(); ++i)
    MC_CHECK(seen[i] >= seen[i - 1], "old value: " + Str(seen));
  MC_CHECK(seen.size() / len <= static_cast<size_t>(n) + 1, "more executions than updates: " + Str(seen));
  mc::Outcome(script + std::to_string(n) + " " + std::to_string(before) + " " + Str(seen));
}
// A job with a listening branch and a branch that writes.
SCENARIO(job, s.quick = 1, s.thorough = 2)
{
  ju::Recorder io;
  std::vector<int> seen;
  int ending = mc::Choose(2);
  auto listen = Attr(Node("Listen", std::unique_ptr<Instruction>(new See(ending ? "SF" : "S", seen))), "varNames", "v");
  auto writer = Node("Sequence", Attr(Node("Wait"), "timeout", "0.15"), Attr(Node("Increment"), "varName", "v"));
  auto par = Node("ParallelSequence", std::move(listen), std::move(writer));
  par->AddAttribute("successThreshold", "2");
  auto root = Node("Sequence", std::move(par));
  auto p = Proc(std::move(root));
  p->AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  {
    LocalJob job{std::move(p), io};
    job.Start();
    if (ending)
    {
      auto st = io.WaitFinished();
      MC_CHECK(st == JobState::kFailed, "a failing child ends the listening: " + St(st));
      MC_CHECK(mc::Now() <= 600 * 1000000ll, "late");
    }
    else
    {
      std::this_thread::sleep_for(std::chrono::milliseconds(550));
      MC_CHECK(!Fin(St(io.Current())), "ends by itself");
      job.Halt();
      auto st = io.WaitFinished();
      MC_CHECK(Fin(St(st)) && st != JobState::kSucceeded, "ends as " + St(st));
    }
  }
  MC_CHECK(Str(seen) == "0 1 " || Str(seen) == "1 ", "the child saw " + Str(seen));
  mc::Outcome(Str(seen));
}
// A halt ends the listening and its child.
SCENARIO(halt, s.quick = 4, s.thorough = 7)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  ws.Setup();
  const char* scripts[] = {"S", "NNNNN", "B", "F"};
  std::string script = scripts[mc::Choose(4)];
  int force = mc::Choose(2);
  auto instr = Attr(Node("Listen", pu::Step::Make(1, script)), "varNames", "v");
  if (force)
    instr->AddAttribute("forceSuccess", "true");
  instr->Setup(proc);
  std::atomic<bool> halted{false};
  std::thread t([&] {
    ws.SetValue("v", AnyValue{sup::dto::int32(1)});
    instr->Halt();
    halted = true;
  });
  int n = 0;
  bool was = false;
  while (NeedsExecute(instr->GetStatus()) && !was)
  {
    was = halted;
    size_t steps = was ? mc::GetLog().size() : 0;  // the other thread has nothing to log
    instr->ExecuteSingle(ui, ws);
    MC_CHECK(!was || mc::GetLog().size() == steps, "a halted instruction executes its child");
    MC_CHECK(++n < 50, "does not end");
    if (NeedsExecute(instr->GetStatus()))
      ju::Settle();
  }
  t.join();
  MC_CHECK(instr->GetStatus() != ES::SUCCESS, "ends with success");
  if (script == "F" && !force)
    MC_CHECK(instr->GetStatus() == ES::FAILURE || was, "ends without failure");
  mc::Outcome(std::to_string(n));
}
