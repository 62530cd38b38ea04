// What observers of a job are told about variables that are connected and disconnected, of any type of value.
// LIB: full
#include "job_util.h"
using namespace ju;
namespace
{
struct Change
{
  int value;  // -1: no value, -2: a structure
  bool connected;
};
constexpr Change kChanges[] = {{7, true}, {-1, false}, {7, false}, {-2, true}, {8, true}, {0, true}};
sup::dto::AnyValue Value(int v)
{
  if (v == -1)
    return {};
  if (v == -2)
    return sup::dto::AnyValue{{{"a", {sup::dto::SignedInteger32Type, 1}}}};
  return sup::dto::AnyValue{sup::dto::int32(v)};
}
// A variable that reports what the test says.
class Flaky : public Variable
{
public:
  Flaky(int at_setup) : Variable("Flaky"), m_at_setup{at_setup} {}
  void Report(int k) const { Notify(Value(kChanges[k].value), kChanges[k].connected); }

private:
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (m_at_setup >= 0)
      Report(m_at_setup);
    return {};
  }
  int m_at_setup;
};
class Reporter : public Instruction
{
public:
  Reporter(Flaky& v, int k) : Instruction("Reporter"), m_v{v}, m_k{k} {}

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    m_v.Report(m_k);
    return ES::SUCCESS;
  }
  Flaky& m_v;
  int m_k;
};
struct Observer : public Recorder
{
  void VariableUpdated(sup::dto::uint32 idx, const sup::dto::AnyValue& v, bool c) override
  {
    std::string t = v == Value(-1) ? "none" : v == Value(-2) ? "struct" : sup::dto::IsScalarValue(v) ? std::to_string(v.As<int>()) : "?";
    mc::Log("v:" + std::to_string(idx) + ":" + t + (c ? "" : "!"));
  }
};
std::string Text(int var, int k)
{
  int v = kChanges[k].value;
  return "v:" + std::to_string(var) + ":" + (v == -1 ? "none" : v == -2 ? "struct" : std::to_string(v)) + (kChanges[k].connected ? "" : "!");
}
}  // namespace
SCENARIO(connections, s.quick = 0, s.thorough = 1)
{
  Observer rec;
  rec.log_states = false;
  int at_setup = mc::Choose(3) - 1;
  std::vector<std::string> expected;
  auto expect = [&expected](const std::string& e) {
    // a report that repeats the previous one of the same variable is no change
    for (auto i = expected.rbegin(); i != expected.rend(); ++i)
      if (i->compare(0, 4, e, 0, 4) == 0)
      {
        if (*i == e)
          return;
        break;
      }
    expected.push_back(e);
  };
  std::vector<std::string> log;
  {
    auto p = std::unique_ptr<Procedure>(new Procedure(""));
    auto a = new Flaky{at_setup}, b = new Flaky{-1};
    p->AddVariable("a", std::unique_ptr<Variable>(a));
    p->AddVariable("b", std::unique_ptr<Variable>(b));
    if (at_setup >= 0)
      expect(Text(0, at_setup));
    auto root = Node("Sequence");
    for (int i = 0; i < 3; ++i)
    {
      int var = i < 2 ? mc::Choose(2) : 0;
      int k = mc::Choose(6);
      AppendChildInstruction(*root, std::unique_ptr<Instruction>(new Reporter{var ? *b : *a, k}));
      expect(Text(var, k));
    }
    p->PushInstruction(std::move(root));
    LocalJob job{std::move(p), rec};
    job.Start();
    MC_CHECK(rec.WaitFinished() == JobState::kSucceeded, "the job failed");
    log = mc::GetLog();
  }
  auto all = log;
  log.clear();
  for (auto& e : all)
  {
    bool repeated = false;
    for (auto i = log.rbegin(); i != log.rend(); ++i)
      if (i->compare(0, 4, e, 0, 4) == 0)
      {
        repeated = *i == e;
        break;
      }
    if (!repeated)
      log.push_back(e);
  }
  MC_CHECK(log == expected, "the observer is told " + Join(log) + " instead of " + Join(expected));
}
