// User interaction instructions: every answer, attribute form and history of ticks, resets and halts.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
using wsm::A;
using wsm::Build;
using wsm::N;
using wsm::Read;
using wsm::S;
using wsm::T;
using wsm::V;
namespace
{
struct World
{
  Procedure proc{""};
  Workspace ws;
  wsm::Model m;
  Ui ui;
  std::unique_ptr<Instruction> instr;
  std::string w;
  World()
  {
    Add("x", wsm::Local(R"({"type":"uint8"})", "5"), N("uint8", 5), false);
    Add("st", wsm::Local(R"({"type":"st","attributes":[{"a":{"type":"int32"}},{"b":{"type":"string"}}]})", R"({"a":-3,"b":"q"})"), T({{"a", N("int32", -3)}, {"b", S("q")}}, "st"), false);
    Add("d", wsm::Local(R"({"type":"int16"})", "1", true), N("int16", 1), true);
    Add("txt", wsm::Local(R"({"type":"string"})", "\"hello\""), S("hello"), false);
    Add("e", wsm::Local("", ""), V{}, false);
    ws.Setup();
    m.Setup();
    ui.log_errors = true;
  }
  void Add(const std::string& n, std::unique_ptr<Variable> v, const V& init, bool dyn)
  {
    ws.AddVariable(n, std::move(v));
    m.vars[n].init = init;
    m.vars[n].dynamic = dyn;
  }
  void Use(std::unique_ptr<Instruction> i)
  {
    instr = std::move(i);
    instr->Setup(proc);
  }
  ES Tick()
  {
    instr->ExecuteSingle(ui, ws);
    return instr->GetStatus();
  }
  void CheckVars()
  {
    for (auto& [n, v] : m.vars)
    {
      AnyValue a;
      V got = ws.GetValue(n, a) ? Read(a) : V{};
      MC_CHECK(got == v.cur, w + ": variable " + n + " is " + got.Str() + " instead of " + v.cur.Str());
    }
  }
  // Text of an attribute that may refer to a variable.
  bool Text(const std::string& attr, std::string& out)
  {
    if (attr == "-")
      return true;
    if (attr.empty() || attr[0] != '@')
    {
      out = attr;
      return true;
    }
    auto v = m.Get(attr.substr(1), V{});
    if (!v || v->kind != 's')
      return false;
    out = v->s;
    return true;
  }
};
void Set(std::unique_ptr<Instruction>& i, const std::string& n, const std::string& v)
{
  if (v != "-")
    i->AddAttribute(n, v);
}
const std::vector<std::string> kTexts = {"-", "plain text", "", "@txt", "@st.b", "@missing", "@x", "@st", "@e"};
std::vector<UserInputReply> ValueReplies(std::vector<std::optional<V>>& model)
{
  std::vector<UserInputReply> r;
  for (auto& v : std::vector<V>{N("uint8", 200), N("int32", 300), N("int64", -7), S("t"), wsm::B(true), T({{"a", N("int32", 1)}, {"b", S("c")}}), V{}})
  {
    r.push_back(UserInputReply{InputRequestType::kUserValue, true, Build(v)});
    model.push_back(v);
  }
  auto bad = [&](const UserInputReply& x) { r.push_back(x); model.push_back({}); };
  bad({InputRequestType::kUserValue, false, Build(N("uint8", 3))});
  bad({InputRequestType::kUserChoice, true, Build(N("int32", 3))});
  bad({InputRequestType::kInvalid, true, Build(N("uint8", 3))});
  bad(kInvalidUserInputReply);
  return r;
}
}  // namespace

SCENARIO(input, s.quick = 1, s.thorough = 1)
{
  std::vector<std::optional<V>> model;
  auto replies = ValueReplies(model);
  World p;
  const char* vars[] = {"x", "st.a", "st", "d", "txt", "missing", "st.zz", "e", "st.b"};
  std::string var = vars[mc::Choose(9)];
  std::string text = kTexts[mc::Choose(static_cast<int>(kTexts.size()))];
  p.ui.supported = mc::Choose(8) != 0;
  auto i = Node("Input");
  i->AddAttribute("outputVar", var);
  Set(i, "description", text);
  p.Use(std::move(i));
  for (int round = 0; round < 2; ++round)
  {
    int wait = mc::Choose(round == 0 ? 3 : 2);
    int k = mc::Choose(round == 0 ? static_cast<int>(replies.size()) : 3);
    p.w += "Input " + var + " " + text + " wait " + std::to_string(wait) + " reply " + std::to_string(k);
    p.ui.Silent();
    p.ui.s.requests.clear();
    std::string d;
    auto cur = p.m.Get(var, V{});
    bool init = p.Text(text, d) && cur && p.ui.supported;
    if (wait == 0)
      p.ui.Answer(replies[k]);
    ES st = p.Tick();
    if (!init)
    {
      MC_CHECK(st == ES::FAILURE, p.w + ": does not fail");
      MC_CHECK(p.ui.s.requests.empty(), p.w + ": the user is asked");
      p.CheckVars();
      p.instr->Reset(p.ui);
      continue;
    }
    MC_CHECK(p.ui.s.requests.size() == 1, p.w + ": the user is not asked once");
    auto& rq = p.ui.s.requests[0];
    MC_CHECK(rq.m_request_type == InputRequestType::kUserValue && rq.m_meta_data.As<std::string>() == d && rq.m_input_type == Build(*cur).GetType(), p.w + ": wrong request");
    for (int t = 0; t < wait; ++t)
    {
      MC_CHECK(st == ES::RUNNING, p.w + ": not running while the user thinks");
      MC_CHECK(p.ui.Pending() == 1, p.w + ": the request is not pending");
      p.CheckVars();
      if (t == wait - 1)
        p.ui.Answer(replies[k]);
      st = p.Tick();
    }
    MC_CHECK(p.ui.Created() && p.ui.s.requests.size() == 1, p.w + ": the user is asked again");
    bool ok = model[k] && p.m.Set(var, *model[k]);
    MC_CHECK(st == (ok ? ES::SUCCESS : ES::FAILURE), p.w + ": ends as " + C(st));
    MC_CHECK(p.ui.Pending() == 0, p.w + ": a request is still pending");
    p.CheckVars();
    p.Tick();
    MC_CHECK(p.instr->GetStatus() == st && p.ui.s.requests.size() == 1, p.w + ": executes again");
    p.instr->Reset(p.ui);
    p.w += " | ";
  }
}

SCENARIO(choice, s.quick = 1, s.thorough = 1)
{
  World p;
  std::string text = kTexts[mc::Choose(static_cast<int>(kTexts.size()))];
  p.ui.supported = mc::Choose(8) != 0;
  const char* scripts[] = {"NS", "F", "RRS"};
  auto i = Node("UserChoice");
  Set(i, "description", text);
  for (int k = 0; k < 3; ++k)
  {
    auto c = Probe::Make(k, scripts[k]);
    if (k != 1)
      c->SetName("name" + std::to_string(k));
    AppendChildInstruction(*i, std::move(c));
  }
  p.Use(std::move(i));
  for (int round = 0; round < 2; ++round)
  {
    int wait = mc::Choose(2);
    int k = mc::Choose(9);
    UserInputReply reply = k < 5 ? CreateUserChoiceReply(true, k - 1) : k == 5 ? CreateUserChoiceReply(false, 1) : k == 6 ? CreateUserValueReply(true, Build(N("int32", 1))) : k == 7 ? UserInputReply{InputRequestType::kUserChoice, true, Build(N("uint32", 1))} : CreateUserChoiceReply(true, 2147483647);
    int chosen = k < 5 && k >= 1 && k - 1 < 3 ? k - 1 : -1;
    p.w += "UserChoice " + text + " wait " + std::to_string(wait) + " reply " + std::to_string(k);
    p.ui.Silent();
    p.ui.s.requests.clear();
    std::string d;
    bool init = p.Text(text, d) && p.ui.supported;
    if (wait == 0)
      p.ui.Answer(reply);
    size_t log0 = mc::GetLog().size();
    ES st = p.Tick();
    if (!init)
    {
      MC_CHECK(st == ES::FAILURE && p.ui.s.requests.empty(), p.w + ": does not fail");
      p.instr->Reset(p.ui);
      continue;
    }
    MC_CHECK(p.ui.s.requests.size() == 1, p.w + ": the user is not asked once");
    auto& rq = p.ui.s.requests[0];
    auto& meta = rq.m_meta_data;
    MC_CHECK(rq.m_request_type == InputRequestType::kUserChoice, p.w + ": wrong request");
    MC_CHECK(Read(meta["options"]).Str() == A({S("name0 (type:Probe)"), S(" (type:Probe)"), S("name2 (type:Probe)")}).Str(), p.w + ": wrong options " + Read(meta["options"]).Str());
    MC_CHECK(meta["metadata.text"].As<std::string>() == d && meta["metadata.dialog_type"].As<sup::dto::uint32>() == dialog_type::kSelection, p.w + ": wrong metadata");
    MC_CHECK(IsUserChoiceMetadata(meta["metadata"]) && GetMainTextFromMetadata(meta["metadata"]) == d, p.w + ": wrong metadata");
    for (int t = 0; t < wait; ++t)
    {
      MC_CHECK(st == ES::RUNNING && p.instr->NextInstructions().empty(), p.w + ": not running while the user thinks");
      p.ui.Answer(reply);
      st = p.Tick();
    }
    if (chosen < 0)
    {
      MC_CHECK(st == ES::FAILURE, p.w + ": does not fail");
      MC_CHECK(mc::GetLog().size() == log0, p.w + ": a child was executed");
    }
    else
    {
      std::string script = scripts[chosen];
      size_t n = 0;
      // in the first round, the reset may come before the end
      int cut = round == 0 ? mc::Choose(3) : 0;
      for (int t = 0; t < 6 && NeedsExecute(st); ++t)
      {
        auto next = p.instr->NextInstructions();
        bool exec = mc::GetLog().size() > log0 + n;
        if (exec)
        {
          ++n;
          MC_CHECK(mc::GetLog().back() == "e:" + std::to_string(chosen), p.w + ": executes the wrong child");
          MC_CHECK(st == p.instr->ChildInstructions()[chosen]->GetStatus(), p.w + ": does not report the status of its child");
        }
        else
          MC_CHECK(t == 0 && st == ES::NOT_FINISHED, p.w + ": does not execute its child");
        if (ReadyForExecute(p.instr->ChildInstructions()[chosen]->GetStatus()))
          MC_CHECK(next.size() == 1 && next[0] == p.instr->ChildInstructions()[chosen], p.w + ": wrong next instruction");
        else
          MC_CHECK(next.empty(), p.w + ": a child that is not ready is next");
        if (cut > 0 && t + 1 == cut)
          break;
        st = p.Tick();
      }
      if (cut > 0)
        p.w += " cut " + std::to_string(cut);
      else
      {
        MC_CHECK(C(st) == script.back(), p.w + ": ends as " + C(st));
        MC_CHECK(mc::GetLog().size() == log0 + script.size(), p.w + ": wrong number of steps");
      }
    }
    MC_CHECK(p.ui.Pending() == 0 && p.ui.s.requests.size() == 1, p.w + ": a request is still pending");
    p.instr->Reset(p.ui);
    for (auto c : p.instr->ChildInstructions())
      MC_CHECK(c->GetStatus() == ES::NOT_STARTED, p.w + ": child not reset");
    p.w += " | ";
  }
}

SCENARIO(confirmation, s.quick = 1, s.thorough = 1)
{
  World p;
  std::string text = kTexts[1 + mc::Choose(static_cast<int>(kTexts.size()) - 1)];
  const char* ok_texts[] = {"-", "Yes", "@txt", "@missing"};
  std::string ok = ok_texts[mc::Choose(4)], cancel = ok_texts[mc::Choose(4)];
  p.ui.supported = mc::Choose(8) != 0;
  auto i = Node("UserConfirmation");
  Set(i, "description", text);
  Set(i, "okText", ok);
  Set(i, "cancelText", cancel);
  p.Use(std::move(i));
  for (int round = 0; round < 2; ++round)
  {
    int wait = mc::Choose(2);
    int k = mc::Choose(7);
    UserInputReply reply = k < 4 ? CreateUserChoiceReply(true, k - 1) : k == 4 ? CreateUserChoiceReply(false, 0) : k == 5 ? CreateUserValueReply(true, Build(N("int32", 0))) : UserInputReply{InputRequestType::kUserChoice, true, Build(N("int8", 0))};
    p.w += "UserConfirmation " + text + "/" + ok + "/" + cancel + " wait " + std::to_string(wait) + " reply " + std::to_string(k);
    p.ui.Silent();
    p.ui.s.requests.clear();
    std::string d, o = "Ok", c = "Cancel";
    bool init = p.Text(text, d) && p.Text(ok, o) && p.Text(cancel, c) && p.ui.supported;
    if (wait == 0)
      p.ui.Answer(reply);
    ES st = p.Tick();
    if (!init)
    {
      MC_CHECK(st == ES::FAILURE && p.ui.s.requests.empty(), p.w + ": does not fail");
      p.instr->Reset(p.ui);
      continue;
    }
    MC_CHECK(p.ui.s.requests.size() == 1, p.w + ": the user is not asked once");
    auto& meta = p.ui.s.requests[0].m_meta_data;
    MC_CHECK(p.ui.s.requests[0].m_request_type == InputRequestType::kUserChoice, p.w + ": wrong request");
    MC_CHECK(Read(meta["options"]).Str() == A({S(o), S(c)}).Str(), p.w + ": wrong options " + Read(meta["options"]).Str());
    MC_CHECK(meta["metadata.text"].As<std::string>() == d && meta["metadata.dialog_type"].As<sup::dto::uint32>() == dialog_type::kConfirmation, p.w + ": wrong metadata");
    if (wait)
    {
      MC_CHECK(st == ES::RUNNING, p.w + ": not running while the user thinks");
      p.ui.Answer(reply);
      st = p.Tick();
    }
    MC_CHECK(st == (k == 1 ? ES::SUCCESS : ES::FAILURE), p.w + ": ends as " + C(st));
    MC_CHECK(p.ui.Pending() == 0 && p.ui.s.requests.size() == 1, p.w + ": a request is still pending");
    p.Tick();
    MC_CHECK(p.instr->GetStatus() == st && p.ui.s.requests.size() == 1, p.w + ": executes again");
    p.instr->Reset(p.ui);
    p.w += " | ";
  }
}

SCENARIO(telling, s.quick = 1, s.thorough = 1)
{
  World p;
  int kind = mc::Choose(3);
  std::string text = kTexts[mc::Choose(static_cast<int>(kTexts.size()))];
  const char* vars[] = {"-", "x", "st.a", "st", "txt", "missing", "e", "st.zz"};
  const char* sevs[] = {"-", "emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "Info", "", "8", "@txt", "@sev", "@missing"};
  std::string told, var = "-", sev = "-";
  std::optional<AnyValue> put;
  bool ok;
  std::string d;
  if (kind == 0)
  {
    if (text == "-")
      return;
    auto i = Node("Message");
    Set(i, "text", text);
    p.Use(std::move(i));
    ok = p.Text(text, d);
    told = "msg " + d;
  }
  else if (kind == 1)
  {
    var = vars[1 + mc::Choose(7)];
    p.ui.put_ok = mc::Choose(2);
    auto i = Node("Output");
    Set(i, "fromVar", var);
    Set(i, "description", text);
    p.Use(std::move(i));
    auto v = p.m.Get(var, V{});
    ok = p.Text(text, d) && v;
    told = "put " + d;
    if (ok)
      put = Build(*v);
  }
  else
  {
    var = vars[mc::Choose(8)];
    int s = mc::Choose(16);
    sev = sevs[s];
    if (text == "-" && var == "-")
      return;
    p.Add("sev", wsm::Local(R"({"type":"string"})", "\"notice\""), S("notice"), false);
    p.ws.Teardown();
    p.ws.Setup();
    p.m.Teardown();
    p.m.Setup();
    auto i = Node("Log");
    Set(i, "message", text);
    Set(i, "inputVar", var);
    Set(i, "severity", sev);
    p.Use(std::move(i));
    std::string sv = "info";
    ok = p.Text(sev, sv) && p.Text(text, d);
    int level = -1;
    for (int k = 1; k <= 9; ++k)
      if (sv == sevs[k])
        level = k - 1;
    ok = ok && level >= 0;
    std::string val;
    if (var != "-")
    {
      auto v = p.m.Get(var, V{});
      if (!v)
        ok = false;
      else
        val = *v == N("uint8", 5) ? "5" : *v == N("int32", -3) ? "-3" : *v == S("hello") ? "\"hello\"" : "{\"a\":-3,\"b\":\"q\"}";
    }
    told = "log" + std::to_string(level) + " " + d + val;
  }
  p.w = std::to_string(kind) + " " + text + " " + var + " " + sev;
  for (int round = 0; round < 2; ++round)
  {
    p.ui.said.clear();
    p.ui.put.clear();
    ES st = p.Tick();
    MC_CHECK(st == (ok && p.ui.put_ok ? ES::SUCCESS : ES::FAILURE), p.w + ": ends as " + C(st));
    if (ok)
      MC_CHECK(p.ui.said.size() == 1 && p.ui.said[0] == told, p.w + ": told '" + (p.ui.said.empty() ? "" : p.ui.said[0]) + "' instead of '" + told + "'");
    else
      for (auto& s : p.ui.said)
        MC_CHECK(s.compare(0, 5, "log3 ") == 0 || s.compare(0, 5, "log4 ") == 0, p.w + ": told although it failed: " + s);
    MC_CHECK(p.ui.put.size() == (put ? 1 : 0), p.w + ": wrong number of outputs");
    if (put)
      MC_CHECK(p.ui.put[0] == *put, p.w + ": wrong value is output");
    p.CheckVars();
    p.instr->Reset(p.ui);
  }
}

// The blocking requests: they ask once, wait for the answer however long it takes, and return exactly that answer.
namespace
{
class LateUi : public DefaultUserInterface
{
public:
  class Future : public IUserInputFuture
  {
  public:
    explicit Future(LateUi& u) : m_u{u} { ++m_u.alive; }
    ~Future() { --m_u.alive; }
    sup::dto::uint64 GetId() const override { return 7; }
    bool IsValid() const override { return true; }
    bool IsReady() const override { return m_u.waits <= 0; }
    bool WaitFor(double s) const override
    {
      MC_CHECK(s > 0, "waits without a time");
      MC_CHECK(!m_u.instr || s <= 1.0, "does not look for a halt within a second");
      MC_CHECK(!m_u.instr || !m_u.instr->IsHaltRequested(), "waits although it is halted");
      if (m_u.instr && m_u.halt_at-- == 0)
        m_u.instr->Halt();
      return m_u.waits-- <= 0;
    }
    UserInputReply GetValue() override
    {
      MC_CHECK(m_u.waits <= 0, "a value is taken that is not there");
      return m_u.reply;
    }

  private:
    LateUi& m_u;
  };
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    requests.push_back(r);
    if (!supported)
      return std::unique_ptr<IUserInputFuture>{new UnsupportedInputFuture};
    return std::unique_ptr<IUserInputFuture>{new Future{*this}};
  }
  void Log(int, const std::string&) override { ++logs; }
  bool supported = true;
  mutable int waits = 0;
  int alive = 0, logs = 0, halt_at = -1;
  Instruction* instr = nullptr;
  UserInputReply reply{kInvalidUserInputReply};
  std::vector<UserInputRequest> requests;
};
}  // namespace
SCENARIO(blocking, s.quick = 0, s.thorough = 0)
{
  LateUi ui;
  ui.waits = mc::Choose(4);
  ui.supported = mc::Choose(4) != 0;
  std::vector<std::optional<V>> model;
  auto replies = ValueReplies(model);
  std::string w;
  int mode = mc::Choose(3);
  if (mode == 1)
  {
    int k = mc::Choose(static_cast<int>(replies.size())), d = mc::Choose(2);
    ui.reply = replies[k];
    V ask[] = {N("uint8", 5), T({{"a", N("int32", -3)}, {"b", S("q")}}, "st"), S("x")};
    V a = ask[mc::Choose(3)];
    w = "value " + std::to_string(k);
    auto r = GetBlockingUserValue(ui, Build(a), d ? "tell me" : "");
    MC_CHECK(ui.requests.size() == 1 && ui.requests[0].m_request_type == InputRequestType::kUserValue, w + ": request");
    MC_CHECK(ui.requests[0].m_meta_data.As<std::string>() == (d ? "tell me" : "") && ui.requests[0].m_input_type == Build(a).GetType(), w + ": request");
    bool ok = ui.supported && model[k].has_value();
    MC_CHECK(r.first == ok, w + ": result " + std::to_string(r.first));
    if (ok)
      MC_CHECK(Read(r.second) == *model[k], w + ": value " + Read(r.second).Str());
  }
  else
  {
    int k = mc::Choose(12);
    ui.reply = k < 6 ? CreateUserChoiceReply(true, k - 1) : k == 6 ? CreateUserChoiceReply(false, 1) : k == 7 ? UserInputReply{InputRequestType::kUserChoice, true, Build(N("uint32", 1))} : replies[k - 8];
    w = "choice " + std::to_string(k);
    auto meta = CreateUserChoiceMetadata();
    auto wait = GlobalInstructionRegistry().Create("Wait");
    int halt_at = mode == 2 ? mc::Choose(6) - 2 : -2;
    if (mode == 2)
    {
      ui.instr = wait.get();
      ui.halt_at = halt_at;
      if (halt_at == -1)
        wait->Halt();
      w += " halted at " + std::to_string(halt_at);
    }
    int waits = ui.waits;
    std::vector<std::string> ask{"one", "two", ""};
    auto r = mode == 2 ? GetInterruptableUserChoice(ui, *wait, ask, meta) : GetBlockingUserChoice(ui, ask, meta);
    MC_CHECK(ui.requests.size() == 1 && ui.requests[0].m_request_type == InputRequestType::kUserChoice, w + ": request");
    MC_CHECK(Read(ui.requests[0].m_meta_data["options"]).Str() == A({S("one"), S("two"), S("")}).Str(), w + ": options");
    // the answer is there at the wait after all that fail
    bool halted = halt_at >= -1 && halt_at <= waits;
    MC_CHECK(ui.supported || ui.logs > 0, w + ": not told that input is not possible");
    bool ok = ui.supported && k < 6 && !halted;
    MC_CHECK(r.first == ok && (!ok || r.second == k - 1), w + ": result " + std::to_string(r.first) + " " + std::to_string(r.second));
  }
  MC_CHECK(ui.alive == 0, w + ": the request is left over");
  mc::Outcome(w);
}
// Many options: exactly the chosen one executes.
SCENARIO(many_options, s.quick = 1, s.thorough = 1)
{
  const int sizes[] = {8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257};
  int size = sizes[mc::Choose(14)], which = mc::Choose(6);
  int choice = which == 0 ? 0 : which == 1 ? size / 2 : which == 2 ? size - 1 : which == 3 ? size : which == 4 ? size + 256 : 65536;
  World p;
  auto i = Node("UserChoice");
  for (int k = 0; k < size; ++k)
    AppendChildInstruction(*i, Probe::Make(k, "S"));
  p.Use(std::move(i));
  p.ui.Answer(CreateUserChoiceReply(true, choice));
  auto before = mc::GetLog().size();
  ES st = ES::NOT_STARTED;
  for (int t = 0; t < 4 && !IsFinishedStatus(st); ++t)
    st = p.Tick();
  auto log = mc::GetLog();
  log.erase(log.begin(), log.begin() + before);
  std::string w = "choice " + std::to_string(choice) + " of " + std::to_string(size) + ": ";
  MC_CHECK(st == (choice < size ? ES::SUCCESS : ES::FAILURE), w + "ends " + C(st));
  MC_CHECK(choice < size ? log == std::vector<std::string>{"e:" + std::to_string(choice)} : log.empty(), w + "executes " + Join(log));
}
