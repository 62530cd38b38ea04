// User interaction of a whole job: the user of the job interface decides the same as the user of a user interface.
// LIB: full
#include "user_util.h"
#include "../seq/wsmodel.h"
#include <sup/oac-tree/user_input_request.h>
using namespace uu;
using wsm::Build;
using wsm::N;
using wsm::Read;
using wsm::S;
using wsm::T;
using wsm::V;
namespace
{
const char* kVars[] = {"d", "e", "st", "txt", "x"};
std::unique_ptr<Variable> Var(int i)
{
  switch (i)
  {
  case 0:
    return wsm::Local(R"({"type":"int16"})", "1", true);
  case 1:
    return wsm::Local("", "");
  case 2:
    return wsm::Local(R"({"type":"st","attributes":[{"a":{"type":"int32"}},{"b":{"type":"string"}}]})", R"({"a":-3,"b":"q"})");
  case 3:
    return wsm::Local(R"({"type":"string"})", "\"hello\"");
  default:
    return wsm::Local(R"({"type":"uint8"})", "5");
  }
}
std::string Values(const Workspace& ws)
{
  std::string r;
  for (auto n : kVars)
  {
    AnyValue a;
    r += std::string(" ") + n + "=" + (ws.GetValue(n, a) ? Read(a).Str() : "-");
  }
  return r;
}
std::vector<V> Answers() { return {N("uint8", 200), N("int32", 300), N("int64", -7), S("t"), wsm::B(true), T({{"a", N("int32", 1)}, {"b", S("c")}}), V{}}; }
// Notes what the user of the job is shown and answers with one value or choice.
struct JobUser : public Recorder
{
  std::vector<std::string> said;
  bool ok = true;
  AnyValue value;
  int choice = 0;
  bool GetUserValue(sup::dto::uint64, AnyValue& v, const std::string& d) override
  {
    said.push_back("value " + d + " " + Read(v).Str());
    v = value;
    if (!ok && choice)
      v = AnyValue{};
    return ok;
  }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>& o, const AnyValue& m) override
  {
    said.push_back("choice " + Join(o) + " " + Read(m).Str());
    return choice;
  }
  void PutValue(const AnyValue& v, const std::string& d) override { said.push_back("put " + d + " " + Read(v).Str()); }
  void Message(const std::string& m) override { said.push_back("msg " + m); }
  void Log(int s, const std::string& m) override { said.push_back("log" + std::to_string(s) + " " + m); }
};
// The same, asked directly.
struct Direct : public Ui
{
  std::vector<std::string> shown;
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    AnyValue v;
    std::string d;
    std::vector<std::string> o;
    if (r.m_request_type == InputRequestType::kUserValue)
    {
      MC_CHECK(ParseUserValueRequest(r, v, d), "invalid request for a value");
      shown.push_back("value " + d + " " + Read(v).Str());
    }
    else
    {
      MC_CHECK(ParseUserChoiceRequest(r, o, v), "invalid request for a choice");
      shown.push_back("choice " + Join(o) + " " + Read(v).Str());
    }
    return Ui::RequestUserInput(r);
  }
  bool PutValue(const AnyValue& v, const std::string& d) override
  {
    shown.push_back("put " + d + " " + Read(v).Str());
    return true;
  }
  void Message(const std::string& m) override { shown.push_back("msg " + m); }
  void Log(int s, const std::string& m) override { shown.push_back("log" + std::to_string(s) + " " + m); }
};
void Compare(const std::string& w, const std::function<std::unique_ptr<Instruction>()>& make, const UserInputReply& reply, JobUser& io)
{
  // directly
  Procedure proc{""};
  Workspace ws;
  for (int i = 0; i < 5; ++i)
    ws.AddVariable(kVars[i], Var(i));
  ws.Setup();
  Direct ui;
  ui.Answer(reply);
  auto instr = make();
  instr->Setup(proc);
  for (int i = 0; i < 4 && !IsFinishedStatus(instr->GetStatus()); ++i)
    instr->ExecuteSingle(ui, ws);
  auto st = instr->GetStatus();
  MC_CHECK(IsFinishedStatus(st), w + ": the instruction does not finish when answered");
  auto probes = mc::GetLog();
  // in a job
  auto p = Proc(make());
  for (int i = 0; i < 5; ++i)
    p->AddVariable(kVars[i], Var(i));
  auto& jws = p->GetWorkspace();
  JobState js;
  std::string values;
  {
    io.log_states = false;
    LocalJob job{std::move(p), io};
    job.Start();
    js = io.WaitFinished();
    values = Values(jws);
  }
  auto log = mc::GetLog();
  std::vector<std::string> jprobes(log.begin() + probes.size(), log.end());
  MC_CHECK(js == (st == ES::SUCCESS ? JobState::kSucceeded : JobState::kFailed), w + ": the job ends " + St(js) + ", the instruction alone " + C(st));
  MC_CHECK(values == Values(ws), w + ": the job leaves" + values + ", the instruction alone" + Values(ws));
  MC_CHECK(io.said == ui.shown, w + ": the job shows the user [" + Join(io.said) + "] instead of [" + Join(ui.shown) + "]");
  MC_CHECK(jprobes == probes, w + ": the job executes " + Join(jprobes) + " instead of " + Join(probes));
}
}  // namespace
SCENARIO(input_in_job, s.quick = 0, s.thorough = 1)
{
  auto answers = Answers();
  std::string var = kVars[mc::Choose(5)];
  int k = mc::Choose(static_cast<int>(answers.size()) + 1);
  JobUser io;
  io.ok = k < static_cast<int>(answers.size());
  if (io.ok)
    io.value = Build(answers[k]);
  else
    io.choice = mc::Choose(2);
  auto reply = io.ok ? UserInputReply{InputRequestType::kUserValue, true, Build(answers[k])} : CreateUserValueReply(false, {});
  Compare("Input " + var + " answer " + std::to_string(k), [&] { return Attr(Attr(Node("Input"), "outputVar", var), "description", "give"); }, reply, io);
}
SCENARIO(choice_in_job, s.quick = 0, s.thorough = 1)
{
  static const int choices[] = {-1000, -2, -1, 0, 1, 2, 3, 1000};
  JobUser io;
  io.choice = choices[mc::Choose(8)];
  int n = 1 + mc::Choose(3);
  int bad = mc::Choose(n + 1) - 1;
  auto reply = CreateUserChoiceReply(io.choice >= 0, io.choice >= 0 ? io.choice : -1);
  auto make = [&] {
    auto r = Node("UserChoice");
    for (int i = 0; i < n; ++i)
      AppendChildInstruction(*r, Probe::Make(i, i == bad ? "F" : "S"));
    return r;
  };
  Compare("UserChoice of " + std::to_string(n) + " choice " + std::to_string(io.choice), make, reply, io);
}
SCENARIO(confirmation_in_job, s.quick = 0, s.thorough = 1)
{
  static const int choices[] = {-2, -1, 0, 1, 2, 3};
  JobUser io;
  io.choice = choices[mc::Choose(6)];
  bool texts = mc::Choose(2);
  auto reply = CreateUserChoiceReply(io.choice >= 0, io.choice >= 0 ? io.choice : -1);
  auto make = [&] {
    auto r = Attr(Node("UserConfirmation"), "description", "sure?");
    return texts ? Attr(Attr(std::move(r), "okText", "do"), "cancelText", "") : std::move(r);
  };
  Compare("UserConfirmation choice " + std::to_string(io.choice), make, reply, io);
}
SCENARIO(output_in_job, s.quick = 0, s.thorough = 1)
{
  JobUser io;
  int kind = mc::Choose(3);
  std::string var = kVars[mc::Choose(5)];
  static const char* texts[] = {"", "plain text", "@txt", "@st.b"};
  std::string text = texts[mc::Choose(4)];
  static const char* sev[] = {"emergency", "warning", "info", "trace"};
  auto make = [&] {
    if (kind == 0)
      return Attr(Attr(Node("Output"), "fromVar", var), "description", text);
    if (kind == 1)
      return Attr(Node("Message"), "text", text);
    return Attr(Attr(Node("Log"), "message", text), "severity", sev[var[0] % 4]);
  };
  Compare("output " + std::to_string(kind) + " " + var + " " + text, make, kInvalidUserInputReply, io);
}
