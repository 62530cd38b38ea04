// Setup and teardown: every history over small workspaces and procedures, with shared actions and failing parts.
// LIB: full
#include "wsmodel.h"
#include "user_util.h"
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/oac-tree/setup_teardown_actions.h>
#include <sup/oac-tree/variable_registry.h>
#include <fstream>
#include <set>
using namespace uu;
namespace
{
std::vector<std::string> g_log;
std::string Log()
{
  std::string r;
  for (auto& l : g_log)
    r += l + " ";
  return r;
}
struct Kind
{
  const char* id;
  bool setup, teardown;
};
const Kind kKinds[] = {{"", false, false}, {"", true, true}, {"A", true, true}, {"A", true, false}, {"A", false, true}, {"B", true, true}, {"A", false, false}};
class Ext : public Variable
{
public:
  Ext(std::string name, Kind k, int fail_at = 0) : Variable("Ext"), m_name{std::move(name)}, m_k{k}, m_fail_at{fail_at} {}

private:
  bool GetValueImpl(AnyValue& v) const override { v = AnyValue{7}; return true; }
  bool SetValueImpl(const AnyValue&) override { return true; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    g_log.push_back("up:" + m_name);
    if (m_fail_at && --m_fail_at == 0)
      throw VariableSetupException("refuses");
    SetupTeardownActions r;
    r.m_identifier = m_k.id;
    std::string id = *m_k.id ? m_k.id : "none", n = m_name;
    if (m_k.setup)
      r.m_setup = [id] { g_log.push_back("setup:" + id); };
    if (m_k.teardown)
      r.m_teardown = [id] { g_log.push_back("teardown:" + id); };
    return r;
  }
  void TeardownImpl() override { g_log.push_back("down:" + m_name); }
  std::string m_name;
  Kind m_k;
  int m_fail_at;
};
std::unique_ptr<Variable> MakeExt(const std::string& n, const Kind& k, int fail_at = 0) { return std::unique_ptr<Variable>(new Ext(n, k, fail_at)); }
int CountOf(const std::string& e)
{
  int n = 0;
  for (auto& l : g_log)
    n += l == e;
  return n;
}
int LastOf(const std::string& prefix)
{
  int r = -1;
  for (size_t i = 0; i < g_log.size(); ++i)
    if (g_log[i].compare(0, prefix.size(), prefix) == 0)
      r = static_cast<int>(i);
  return r;
}
int FirstOf(const std::string& prefix)
{
  for (size_t i = 0; i < g_log.size(); ++i)
    if (g_log[i].compare(0, prefix.size(), prefix) == 0)
      return static_cast<int>(i);
  return 1000;
}
}  // namespace

SCENARIO(actions, s.quick = 4, s.thorough = 6)
{
  g_log.clear();
  int fail = mc::Choose(3);  // 0: none, 1: the first setup of b fails, 2: the second
  std::vector<Kind> kinds;
  std::vector<std::string> names = {"a", "b"};
  for (int i = 0; i < 2; ++i)
    kinds.push_back(kKinds[mc::Choose(7)]);
  Kind late = kKinds[mc::Choose(3) * 2 + 1];
  std::string w = "vars ";
  auto desc = [](const Kind& k) { return std::string(k.id) + (k.setup ? "+" : "") + (k.teardown ? "-" : "") + " "; };
  for (auto& k : kinds)
    w += desc(k);
  w += "fail " + std::to_string(fail) + ": ";
  std::set<std::string> owed;  // teardown actions
  bool up = false;
  int ups_b = 0;
  {
    Workspace ws;
    ws.AddVariable("a", MakeExt("a", kinds[0]));
    ws.AddVariable("b", MakeExt("b", kinds[1], fail));
    std::set<std::string> ready;
    for (int d = 0; d < mc::Depth(); ++d)
    {
      g_log.clear();
      switch (mc::Choose(6))
      {
      case 0:
      {
        w += "setup ";
        bool threw = false;
        try
        {
          ws.Setup();
        }
        catch (const VariableSetupException&)
        {
          threw = true;
        }
        if (up)
        {
          MC_CHECK(!threw && g_log.empty(), w + ": a second setup does " + Log());
          break;
        }
        ++ups_b;
        bool expect = fail && ups_b == fail;
        MC_CHECK(threw == expect, w + ": setup " + (threw ? "throws" : "hides the failure of a variable"));
        MC_CHECK(ws.IsSuccessfullySetup() == !expect, w + ": IsSuccessfullySetup");
        if (expect)
        {
          MC_CHECK(LastOf("setup:") < 0, w + ": setup actions run although a variable failed: " + Log());
          AnyValue v;
          MC_CHECK(!ws.GetValue("b", v), w + ": a variable that failed its setup is read");
          ready.clear();
          break;
        }
        up = true;
        for (auto& n : names)
        {
          MC_CHECK(CountOf("up:" + n) == 1, w + ": setup of variable " + n + ": " + Log());
          ready.insert(n);
        }
        std::set<std::string> s;
        owed.clear();
        for (auto& k : kinds)
          if (*k.id)
          {
            if (k.setup)
              s.insert(k.id);
            if (k.teardown)
              owed.insert(k.id);
          }
        for (std::string id : {"A", "B", "none"})
          MC_CHECK(CountOf("setup:" + id) == static_cast<int>(s.count(id)), w + ": setup action " + id + " runs " + std::to_string(CountOf("setup:" + id)) + " times");
        MC_CHECK(LastOf("up:") < FirstOf("setup:"), w + ": a setup action runs before all variables are set up: " + Log());
        MC_CHECK(LastOf("teardown:") < 0 && LastOf("down:") < 0, w + ": teardown during setup: " + Log());
        break;
      }
      case 1:
      {
        w += "teardown ";
        ws.Teardown();
        MC_CHECK(!ws.IsSuccessfullySetup(), w + ": IsSuccessfullySetup");
        for (std::string id : {"A", "B", "none"})
          MC_CHECK(CountOf("teardown:" + id) == static_cast<int>(owed.count(id)), w + ": teardown action " + id + " runs " + std::to_string(CountOf("teardown:" + id)) + " times");
        for (auto& n : ready)
          MC_CHECK(CountOf("down:" + n) == 1, w + ": teardown of variable " + n + ": " + Log());
        MC_CHECK(LastOf("teardown:") < FirstOf("down:"), w + ": a teardown action runs after the teardown of a variable: " + Log());
        MC_CHECK(LastOf("setup:") < 0 && LastOf("up:") < 0, w + ": setup during teardown: " + Log());
        owed.clear();
        ready.clear();
        up = false;
        break;
      }
      case 2:
        if (!up)
          break;
        w += "reset a ";
        MC_CHECK(ws.ResetVariable("a"), w);
        MC_CHECK(Log() == "down:a up:a ", w + ": " + Log());
        break;
      case 3:
      {
        std::string n = "c" + std::to_string(names.size());
        w += "add " + desc(late);
        ws.AddVariable(n, MakeExt(n, late));
        names.push_back(n);
        kinds.push_back(late);
        MC_CHECK(g_log.empty(), w + ": " + Log());
        break;
      }
      case 4:
      {
        w += "add duplicate ";
        bool threw = false;
        try
        {
          ws.AddVariable("a", MakeExt("x", kKinds[5]));
        }
        catch (const InvalidOperationException&)
        {
          threw = true;
        }
        MC_CHECK(threw && ws.VariableNames() == names, w + ": duplicate name");
        break;
      }
      default:
        w += "use ";
        for (auto& n : names)
        {
          AnyValue v;
          bool r = up && ready.count(n);
          if (!up)
            continue;
          MC_CHECK(ws.GetValue(n, v) == r, w + ": reading " + n);
          MC_CHECK(ws.SetValue(n, v) == r, w + ": writing " + n);
          MC_CHECK(ws.GetVariable(n)->IsAvailable() == r, w + ": availability of " + n);
        }
        if (!up && !fail)
          for (auto& n : names)
          {
            AnyValue v;
            MC_CHECK(!ws.GetValue(n, v) && !ws.SetValue(n, v) && !ws.GetVariable(n)->IsAvailable(), w + ": use of " + n + " outside setup");
          }
        MC_CHECK(ws.VariableNames() == names, w + ": names");
      }
    }
    g_log.clear();
    w += "destroy ";
  }
  for (std::string id : {"A", "B", "none"})
    MC_CHECK(CountOf("teardown:" + id) == static_cast<int>(owed.count(id)), w + ": teardown action " + id + " runs " + std::to_string(CountOf("teardown:" + id)) + " times");
}

// Procedures with valid and invalid parts: what setup accepts.
SCENARIO(procedure, s.quick = 1, s.thorough = 1)
{
  using Info = TypeRegistrationInfo;
  std::string w;
  int ok = 1;
  g_log.clear();
  std::unique_ptr<Procedure> p{new Procedure("")};
  // attributes
  struct
  {
    const char *n, *v;
    bool ok;
  } attrs[] = {{"name", "x", true}, {"tickTimeout", "0.1", true}, {"tickTimeout", "abc", false}, {"timingAccuracy", "soon", false}};
  auto& a = attrs[mc::Choose(4)];
  p->AddAttribute(a.n, a.v);
  bool attr_ok = a.ok;
  w += std::string(a.n) + "=" + a.v + "; ";
  // preamble types
  const char* t1 = R"({"type":"T1","attributes":[{"x":{"type":"int32"}}]})";
  const char* t1b = R"({"type":"T1","attributes":[{"x":{"type":"int16"}}]})";
  const char* t2 = R"({"type":"T2","attributes":[{"in":{"type":"T1"}}]})";
  std::vector<std::vector<const char*>> types = {{}, {t1}, {t1, t2}, {t2}, {t2, t1}, {t1, t1}, {t1, t1b}, {"{"}};
  int t = mc::Choose(8);
  for (auto s : types[t])
    p->GetPreamble().AddTypeRegistration(Info{Info::kJSONString, s});
  bool types_ok = t == 0 || t == 1 || t == 2 || t == 5;
  w += "types " + std::to_string(t) + "; ";
  // variables
  int v = mc::Choose(6);
  bool var_ok = true;
  if (v == 1)
  {
    p->AddVariable("v", wsm::Local(R"({"type":"T1"})", R"({"x":4})"));
    var_ok = t == 1 || t == 2 || t == 5;
  }
  if (v == 2)
  {
    p->AddVariable("v", wsm::Local(R"({"type":"T2"})", R"({"in":{"x":4}})"));
    var_ok = t == 2;
  }
  if (v == 3)
  {
    p->AddVariable("v", wsm::Local(R"({"type":"uint8"})", "300"));
    var_ok = false;
  }
  if (v == 4)
  {
    p->AddVariable("v", wsm::Local("", "3"));
    var_ok = false;
  }
  if (v == 5)
    p->AddVariable("v", wsm::Local(R"({"type":"uint8"})", "30"));
  w += "var " + std::to_string(v) + "; ";
  // instructions
  int i = mc::Choose(9);
  bool instr_ok = i >= 3;
  auto root = [](std::unique_ptr<Instruction> n, bool r = true) { return r ? Attr(std::move(n), "isRoot", "true") : Attr(std::move(n), "isRoot", "false"); };
  int rooted = -1;
  switch (i)
  {
  case 0:
    break;
  case 1:
    p->PushInstruction(Node("Wait"));
    p->PushInstruction(Node("Succeed"));
    break;
  case 2:
    p->PushInstruction(Node("Sequence", Node("Inverter")));  // no child
    break;
  case 3:
    p->PushInstruction(Node("Sequence", Node("Inverter", Node("Fail"))));
    rooted = 0;
    break;
  case 4:
    p->PushInstruction(Node("Fail"));
    p->PushInstruction(root(Node("Succeed")));
    rooted = 1;
    break;
  case 5:
    p->PushInstruction(root(Node("Succeed")));
    p->PushInstruction(root(Node("Fail")));
    rooted = 0;
    break;
  case 6:
    p->PushInstruction(root(Node("Fail"), false));
    p->PushInstruction(root(Node("Succeed")));
    rooted = 1;
    break;
  case 7:
    p->PushInstruction(root(Node("Succeed"), false));
    rooted = 0;
    break;
  default:
    // an invalid tree that is not used
    p->PushInstruction(Node("Sequence", Node("Inverter")));
    p->PushInstruction(root(Node("Succeed")));
    rooted = 1;
  }
  w += "tree " + std::to_string(i);
  ok = attr_ok && types_ok && var_ok && instr_ok;
  auto tops = p->GetTopInstructions();
  MC_CHECK(p->RootInstruction() == (rooted >= 0 ? tops[rooted] : i == 2 ? tops[0] : nullptr), w + ": root instruction");
  Ui ui;
  for (int round = 0; round < 2; ++round)
  {
    bool threw = false;
    std::string what;
    try
    {
      p->Setup();
    }
    catch (const std::exception& e)
    {
      threw = true;
      what = e.what();
    }
    MC_CHECK(threw == !ok, w + ": setup " + (threw ? "throws " + what : "accepts it"));
    if (!ok)
      continue;
    for (int k = 0; k < 3; ++k)
    {
      AnyValue x;
      if (v == 1)
        MC_CHECK(p->GetVariableValue("v", x) && x["x"].As<int>() == 4, w + ": value");
      if (v == 2)
        MC_CHECK(p->GetVariableValue("v", x) && x["in.x"].As<int>() == 4, w + ": value");
      if (v == 5)
      {
        MC_CHECK(p->GetVariableValue("v", x) && x.As<int>() == 30, w + ": value");
        MC_CHECK(p->GetWorkspace().SetValue("v", AnyValue{31}), w + ": write");
      }
      MC_CHECK(p->GetStatus() == ES::NOT_STARTED, w + ": status");
      for (int n = 0; n < 3 && NeedsExecute(p->GetStatus()); ++n)
        p->ExecuteSingle(ui);
      MC_CHECK(p->GetStatus() == ES::SUCCESS, w + ": ends as " + C(p->GetStatus()));
      p->Reset(ui);
    }
  }
}

// Histories of a whole procedure: its tree increments n twice and then compares it with m.
SCENARIO(histories, s.quick = 8, s.thorough = 9)
{
  g_log.clear();
  std::string w;
  Ui ui;
  int n = 0, m = 2, pos = 0;
  bool up = false, owed = false;
  ES model = ES::NOT_STARTED;
  {
    auto p = Proc(Node("Sequence", Attr(Node("Increment"), "varName", "n"), Attr(Node("Increment"), "varName", "n"), Attr(Attr(Node("Equals"), "leftVar", "n"), "rightVar", "m")));
    p->AddVariable("n", wsm::Local(R"({"type":"int32"})", "0"));
    p->AddVariable("m", wsm::Local(R"({"type":"int32"})", "2"));
    p->AddVariable("x", MakeExt("x", kKinds[2]));
    for (int d = 0; d < mc::Depth(); ++d)
    {
      g_log.clear();
      switch (mc::Choose(up ? 5 : 2))
      {
      case 0:
        w += "setup ";
        p->Setup();
        MC_CHECK(Log() == (up ? "" : "up:x setup:A "), w + ": " + Log());
        if (!up)
        {
          n = 0;
          m = 2;
        }
        up = owed = true;
        break;
      case 1:
        w += "reset ";
        p->Reset(ui);
        MC_CHECK(Log() == (owed ? "teardown:A down:x up:x setup:A " : "down:x up:x setup:A "), w + ": " + Log());
        n = 0;
        m = 2;
        pos = 0;
        model = ES::NOT_STARTED;
        owed = true;
        // instructions are not set up by a reset
        if (!up)
          p->Setup();
        up = true;
        break;
      case 2:
      {
        w += "tick ";
        p->ExecuteSingle(ui);
        if (model == ES::NOT_STARTED || model == ES::NOT_FINISHED || model == ES::RUNNING)
        {
          if (pos < 2)
            ++n;
          model = pos < 2 ? ES::NOT_FINISHED : n == m ? ES::SUCCESS : ES::FAILURE;
          ++pos;
        }
        MC_CHECK(g_log.empty(), w + ": " + Log());
        break;
      }
      case 3:
        w += "n:=5 ";
        MC_CHECK(p->GetWorkspace().SetValue("n", AnyValue{5}), w);
        n = 5;
        break;
      default:
        w += "m:=n ";
        MC_CHECK(p->GetWorkspace().SetValue("m", AnyValue{n}), w);
        m = n;
      }
      MC_CHECK(p->GetStatus() == model, w + ": status " + C(p->GetStatus()) + " instead of " + C(model));
      AnyValue a, b;
      MC_CHECK(p->GetVariableValue("n", a) == up && p->GetVariableValue("m", b) == up, w + ": reading");
      if (up)
        MC_CHECK(a.As<int>() == n && b.As<int>() == m, w + ": n=" + std::to_string(a.As<int>()) + " m=" + std::to_string(b.As<int>()));
    }
    g_log.clear();
  }
  MC_CHECK(CountOf("teardown:A") == owed, w + "destroy: " + Log());
  MC_CHECK(CountOf("down:x") == 1, w + "destroy: " + Log());
}

// The workspace of an included file is set up, reset and torn down with its owner, exactly when the owner uses it.
namespace
{
class Shared : public Variable
{
public:
  Shared() : Variable("Shared") { AddAttributeDefinition("fails", sup::dto::StringType); }
  ~Shared() override { g_log.push_back("gone:" + GetName()); }

private:
  bool GetValueImpl(AnyValue& v) const override
  {
    v = AnyValue{m_value};
    return m_up;
  }
  bool SetValueImpl(const AnyValue& v) override
  {
    m_value = v.As<int>();
    return m_up;
  }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (HasAttribute("fails"))
      throw VariableSetupException("refuses");
    g_log.push_back("up:" + GetName());
    m_up = true;
    m_value = 1;
    SetupTeardownActions r;
    r.m_identifier = GetName();
    std::string n = GetName();
    r.m_setup = [n] { g_log.push_back("setup:" + n); };
    r.m_teardown = [n] { g_log.push_back("teardown:" + n); };
    return r;
  }
  void TeardownImpl() override
  {
    if (m_up)
      g_log.push_back("down:" + GetName());
    m_up = false;
  }
  bool m_up = false;
  int m_value = 0;
};
void IncludedFiles()
{
  static bool done = []
  {
    GlobalVariableRegistry().RegisterVariable("Shared", []() -> Variable* { return new Shared; });
    for (std::string n : {"p", "q"})
      std::ofstream{"v05" + n + ".xml"} << "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Procedure><Increment name=\"Inc\" varName=\"v\"/><Succeed name=\"Ok\"/>"
                                        << "<Workspace><Local name=\"v\" type='{\"type\":\"int32\"}' value=\"1\"/><Shared name=\"" << n << "\"/></Workspace></Procedure>";
    std::ofstream{"v05bad.xml"} << "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Procedure><Succeed name=\"Ok\"/>"
                                   "<Workspace><Shared name=\"bad\" fails=\"1\"/></Workspace></Procedure>";
    return true;
  }();
  (void)done;
}
std::unique_ptr<Instruction> Inc(const std::string& type, const std::string& file, const std::string& path)
{
  return Attr(Attr(Node(type), "file", file), "path", path);
}
}  // namespace
SCENARIO(included, s.quick = 5, s.thorough = 7)
{
  IncludedFiles();
  g_log.clear();
  std::string w;
  Ui ui;
  bool used[2] = {};  // are the workspaces of p and q used?
  bool bad = false;
  auto root = GlobalInstructionRegistry().Create("Sequence");
  for (int i = 0; i < 2; ++i)
  {
    std::string n = i ? "q" : "p";
    switch (mc::Choose(i ? 4 : 3))
    {
    case 0:
      used[i] = true;
      w += "procedure " + n + ": ";
      AppendChildInstruction(*root, Inc("IncludeProcedure", "v05" + n + ".xml", "Inc"));
      break;
    case 1:
      w += "tree of " + n + ": ";
      AppendChildInstruction(*root, Inc("Include", "v05" + n + ".xml", "Ok"));
      break;
    case 2:
      used[i] = true;
      w += "both of " + n + ": ";
      AppendChildInstruction(*root, Inc("Include", "v05" + n + ".xml", "Ok"));
      AppendChildInstruction(*root, Inc("IncludeProcedure", "v05" + n + ".xml", "Inc"));
      break;
    default:
      w += "tree of a file whose workspace cannot be set up: ";
      bad = true;
      AppendChildInstruction(*root, Inc("Include", "v05bad.xml", "Ok"));
    }
  }
  auto p = Proc(std::move(root));
  p->AddVariable("x", MakeExt("x", kKinds[2]));
  bool up = false;
  auto expect = [&](const std::string& what, bool was, bool is)
  {
    for (int i = 0; i < 2; ++i)
    {
      std::string n = i ? "q" : "p";
      MC_CHECK(CountOf("up:" + n) == (is && used[i]) && CountOf("setup:" + n) == (is && used[i]), w + what + " set up of " + n + ": " + Log());
      MC_CHECK(CountOf("down:" + n) == (was && used[i]) && CountOf("teardown:" + n) == (was && used[i]), w + what + " teardown of " + n + ": " + Log());
      if (was && is && used[i])
        MC_CHECK(LastOf("down:" + n) < FirstOf("up:" + n) && LastOf("teardown:" + n) < FirstOf("setup:" + n), w + what + ": order " + Log());
    }
    MC_CHECK(CountOf("teardown:A") == was && CountOf("setup:A") == is, w + what + ": own variables: " + Log());
    g_log.clear();
  };
  for (int d = 0; d < mc::Depth(); ++d)
  {
    switch (mc::Choose(up ? 3 : 1))
    {
    case 0:
      w += "setup ";
      p->Setup();
      expect("", false, !up);
      up = true;
      break;
    case 1:
      w += "run ";
      for (int k = 0; k < 9 && NeedsExecute(p->GetStatus()); ++k)
        p->ExecuteSingle(ui);
      MC_CHECK(p->GetStatus() == ES::SUCCESS, w + ": status " + C(p->GetStatus()));
      expect("", false, false);
      break;
    case 2:
      w += "reset ";
      p->Reset(ui);
      expect("", true, true);
      for (int i = 0; i < 2; ++i)
        if (used[i])
        {
          AnyValue v;
          MC_CHECK(p->GetContext().GetWorkspace(i ? "v05q.xml" : "v05p.xml").GetValue("v", v) && v.As<int>() == 1, w + ": value of an included variable");
        }
      break;
    }
  }
  p.reset();
  expect("destroy", up, false);
}
