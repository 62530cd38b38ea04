// After a reset every kind of instruction behaves like a freshly created one: for each configuration, every history
// before the reset and every history after it, the procedure that was reset and a new one do exactly the same.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/sequence_parser.h>
#include <chrono>
#include <thread>
using namespace uu;
namespace
{
const int64_t ms = 1000000;
// Operations: t tick, x/y change a variable, l change the list, p let time pass, h halt, a the user answers differently
struct Config
{
  const char* name;
  const char* ops;
  std::string body;
};
const std::string A = R"(<Equals leftVar="x" rightVar="one"/>)";                  // succeeds iff x == 1
const std::string B = R"(<Equals leftVar="y" rightVar="one"/>)";
const std::string W = R"(<WaitForVariable varName="x" equalsVar="one" timeout="0.05"/>)";  // takes time
const std::string WY = R"(<WaitForVariable varName="y" equalsVar="one" timeout="0.2"/>)";
const std::string INC = R"(<Increment varName="n"/>)";
std::string El(const std::string& n, const std::string& attrs, const std::string& kids) { return "<" + n + " " + attrs + ">" + kids + "</" + n + ">"; }
const std::vector<Config>& Configs()
{
  static const std::vector<Config> c = {
      {"wait", "tph", El("Wait", "timeout=\"0.1\"", "")},
      {"wait_var", "txyp", El("Sequence", "", WY + W + INC)},
      {"wait_vars", "txyph", El("WaitForVariables", "varType=\"t\" timeout=\"0.1\"", "")},
      {"listen", "txyh", El("Listen", "varNames=\"x, y\"", El("Sequence", "", INC + A))},
      {"listen_force", "txyp", El("Listen", "varNames=\"y\" forceSuccess=\"true\"", El("Sequence", "", INC + W))},
      {"choice", "txyl", El("Choice", "varName=\"list\"", INC + W + B)},
      {"choice_one", "txph", El("Choice", "varName=\"y\"", El("Sequence", "", INC + W) + A)},
      {"for", "txlp", El("For", "arrayVar=\"list\" elementVar=\"e\"", El("Sequence", "", El("Copy", "inputVar=\"e\" outputVar=\"n\"", "") + W))},
      {"for_plain", "txlh", El("For", "arrayVar=\"list\" elementVar=\"e\"", El("Fallback", "", El("Equals", "leftVar=\"e\" rightVar=\"y\"", "") + A))},
      {"repeat", "txph", El("Repeat", "maxCount=\"2\"", El("Sequence", "", INC + W))},
      {"repeat_var", "txyh", El("Repeat", "maxCount=\"@y\"", El("Sequence", "", A + INC))},
      {"repeat_forever", "txyh", El("Repeat", "maxCount=\"-1\"", El("Sequence", "", INC + A + WY))},
      {"sequence", "txyp", El("Sequence", "", INC + W + WY + A)},
      {"fallback", "txyp", El("Fallback", "", El("Sequence", "", A + WY) + El("Sequence", "", INC + W))},
      {"inverter", "txph", El("Inverter", "", El("Sequence", "", W + INC))},
      {"force", "txph", El("ForceSuccess", "", El("Sequence", "", W + INC))},
      {"reactive", "txyph", El("ReactiveSequence", "", A + El("Sequence", "", INC + WY))},
      {"reactive_fb", "txyph", El("ReactiveFallback", "", A + El("Sequence", "", INC + WY))},
      {"input", "txah", El("Input", "outputVar=\"n\" description=\"?\"", "")},
      {"user_choice", "txpa", El("UserChoice", "description=\"?\"", INC + El("Sequence", "", INC + W))},
      {"confirm", "tah", El("UserConfirmation", "description=\"?\"", "")},
      {"user_seq", "txpa", El("Sequence", "", El("UserConfirmation", "description=\"1\"", "") + El("Input", "outputVar=\"n\"", "") + W)},
      {"condition", "txyh", El("Sequence", "", El("Condition", "varName=\"y\"", "") + INC + El("Inverter", "", A))},
      {"compare", "txyh", El("Fallback", "", El("LessThan", "leftVar=\"x\" rightVar=\"y\"", "") + El("GreaterThanOrEqual", "leftVar=\"n\" rightVar=\"one\"", "") + INC)},
      {"include", "txph", El("Include", "path=\"lib\" v=\"x\"", "")},
      {"output", "txyh", El("Sequence", "", El("Output", "fromVar=\"x\" description=\"d\"", "") + El("Message", "text=\"m\"", "") + El("Log", "inputVar=\"y\" severity=\"warning\"", "") + WY)},
      // a variable that changes its type: an index, a text, a list
      {"choice_bad", "txzh", El("Choice", "varName=\"bad\"", INC + El("Sequence", "", INC + W))},
      {"for_bad", "txzh", El("For", "arrayVar=\"bad\" elementVar=\"e\"", El("Sequence", "", INC + W))},
      {"repeat_bad", "txzh", El("Repeat", "maxCount=\"@bad\"", El("Sequence", "", INC + A))},
      {"wait_bad", "tzph", El("Wait", "timeout=\"@bad\"", "")},
      {"wait_var_bad", "txzp", El("WaitForVariable", "varName=\"x\" equalsVar=\"one\" timeout=\"@bad\"", "")},
      {"input_bad", "tazh", El("Sequence", "", El("Input", "outputVar=\"n\" description=\"@bad\"", "") + El("Message", "text=\"@bad\"", ""))},
      {"copy_bad", "txzh", El("Fallback", "", El("Copy", "inputVar=\"bad\" outputVar=\"n\"", "") + El("Equals", "leftVar=\"bad\" rightVar=\"n\"", "") + El("Increment", "varName=\"bad\"", ""))},
      {"edit", "txlh", El("Sequence", "", El("AddElement", "inputVar=\"one\" outputVar=\"list\"", "") + El("ResetVariable", "varName=\"x\"", "") + INC + El("Copy", "inputVar=\"list\" outputVar=\"copy\"", "") + A)},
  };
  return c;
}
const std::string kHead = R"(<?xml version="1.0" encoding="UTF-8"?><Procedure>)";
const std::string kTail = R"(
<Workspace>
<Local name="x" type='{"type":"int32"}' value="0"/>
<Local name="y" type='{"type":"int32"}' value="0"/>
<Local name="one" type='{"type":"int32"}' value="1"/>
<Local name="n" type='{"type":"int32"}' value="0"/>
<Local name="e" type='{"type":"int32"}' value="0"/>
<Local name="list" type='{"type":"","multiplicity":2,"element":{"type":"int32"}}' value="[0,1]" dynamicType="true"/>
<Local name="copy" dynamicType="true"/>
<Local name="bad" type='{"type":"int32"}' value="1" dynamicType="true"/>
<Local name="t" type='{"type":"int32"}' value="0"/>
</Workspace></Procedure>)";
AnyValue I(int v) { return AnyValue{sup::dto::int32(v)}; }
class Watch : public Ui
{
public:
  std::vector<std::string>& log;
  std::map<const Instruction*, int> ids;
  explicit Watch(std::vector<std::string>& l) : log{l} { log_errors = true; }
  void UpdateInstructionStatus(const Instruction* i) override { log.push_back("status " + std::to_string(ids.at(i)) + ":" + std::to_string(int(i->GetStatus()))); }
};
struct World
{
  std::vector<std::string> log;
  Watch ui{log};
  std::unique_ptr<Procedure> proc;
  std::vector<const Instruction*> nodes;
  int answer = 0;
  explicit World(const Config& c)
  {
    std::string root = c.body;
    root.insert(root.find(' '), " isRoot=\"true\"");
    std::string lib = El("Sequence", "name=\"lib\"", INC + R"(<WaitForVariable varName="$v" equalsVar="one" timeout="0.05"/>)");
    proc = ParseProcedureString(kHead + (c.name == std::string("include") ? root + lib : root) + kTail);
    proc->Setup();
    Walk(proc->RootInstruction());
  }
  void Walk(const Instruction* i)
  {
    ui.ids[i] = static_cast<int>(nodes.size());
    nodes.push_back(i);
    for (auto k : i->ChildInstructions())
      Walk(k);
  }
  void State()
  {
    std::string s;
    for (auto i : nodes)
      s += std::to_string(int(i->GetStatus())) + (i->IsHaltRequested() ? "h" : "");
    s += " next";
    for (auto i : GetNextInstructions(*proc))
      s += " " + std::to_string(ui.ids.at(i));
    s += " leaves";
    for (auto i : GetNextLeaves(*proc))
      s += " " + std::to_string(ui.ids.at(i));
    s += " pending " + std::to_string(ui.Pending());
    for (auto& n : proc->VariableNames())
    {
      AnyValue v;
      s += " " + n + "=" + (proc->GetVariableValue(n, v) ? sup::dto::ValuesToJSONString(v) : "-");
    }
    log.push_back(s);
  }
  int Get(const std::string& n)
  {
    AnyValue v;
    MC_CHECK(proc->GetVariableValue(n, v), n);
    return v.As<int>();
  }
  void Do(char op)
  {
    auto& ws = proc->GetWorkspace();
    switch (op)
    {
    case 't':
      proc->ExecuteSingle(ui);
      break;
    case 'x':
    case 'y':
      ws.SetValue(std::string(1, op), AnyValue{sup::dto::int32(1 - Get(std::string(1, op)))});
      break;
    case 'l':
    {
      AnyValue v;
      MC_CHECK(ws.GetValue("list", v), "list");
      auto n = sup::dto::ArrayValue({I(1), I(0), I(1)});
      if (v.NumberOfElements() != 2)
        n = sup::dto::ArrayValue({I(1), I(0)});
      ws.SetValue("list", n);
      break;
    }
    case 'z':
    {
      AnyValue v;
      MC_CHECK(ws.GetValue("bad", v), "bad");
      ws.SetValue("bad", sup::dto::IsArrayValue(v) ? I(1) : sup::dto::IsScalarValue(v) && v.GetType() == sup::dto::StringType ? sup::dto::ArrayValue({I(1), I(0)}) : AnyValue{sup::dto::StringType, std::string{"text"}});
      break;
    }
    case 'p':
      std::this_thread::sleep_for(std::chrono::nanoseconds(60 * ms));
      break;
    case 'h':
      proc->Halt();
      break;
    case 'a':
      Answer((answer + 1) % 3);
      break;
    }
    log.push_back(std::string(1, op));
    for (auto& s : ui.said)
      log.push_back(s);
    ui.said.clear();
    for (auto& v : ui.put)
      log.push_back(sup::dto::ValuesToJSONString(v));
    ui.put.clear();
    for (auto& r : ui.s.requests)
      log.push_back("request " + std::to_string(int(r.m_request_type)) + " " + sup::dto::ValuesToJSONString(r.m_meta_data));
    ui.s.requests.clear();
    State();
  }
  void Answer(int a)
  {
    answer = a;
    if (a == 0)
      ui.Silent();
    else if (nodes[0]->GetType() == "Input")
      ui.Answer(CreateUserValueReply(a == 1, AnyValue{sup::dto::int32(7)}));
    else
      ui.Answer(CreateUserChoiceReply(true, a - 1));
  }
};
}  // namespace

SCENARIO(fresh, s.quick = 5, s.thorough = 7)
{
  auto& c = Configs()[mc::Choose(static_cast<int>(Configs().size()))];
  int nops = static_cast<int>(std::string(c.ops).size());
  bool whole = mc::Choose(2) == 0;  // reset of the procedure, or only of its instructions
  World used{c};
  std::string what = c.name + std::string(whole ? " procedure " : " instruction ");
  int before = (mc::Depth() + 1) / 2, after = mc::Depth() - before + 1;
  for (int i = 0; i < before; ++i)
  {
    char op = c.ops[mc::Choose(nops)];
    what += op;
    used.Do(op);
  }
  World fresh{c};
  if (whole)
    used.proc->Reset(used.ui);
  else
  {
    used.proc->RootInstruction()->Reset(used.ui);
    auto& from = used.proc->GetWorkspace();
    auto& to = fresh.proc->GetWorkspace();
    for (auto& n : from.VariableNames())
    {
      AnyValue v;
      if (from.GetValue(n, v) && !sup::dto::IsEmptyValue(v))
        MC_CHECK(to.SetValue(n, v), n);
    }
  }
  what += " reset ";
  fresh.Answer(used.answer);
  MC_CHECK(used.ui.Pending() == 0, what + ": a request survives the reset");
  used.log.clear();
  fresh.log.clear();
  used.State();
  fresh.State();
  std::string ops;
  for (int i = 0; i < after; ++i)
    ops += i == 0 ? 't' : c.ops[mc::Choose(nops)];
  for (auto w : {&used, &fresh})
    for (char op : ops)
      w->Do(op);
  what += ops;
  for (size_t i = 0; i < std::max(used.log.size(), fresh.log.size()); ++i)
  {
    std::string u = i < used.log.size() ? used.log[i] : "nothing", f = i < fresh.log.size() ? fresh.log[i] : "nothing";
    MC_CHECK(u == f, what + ": the procedure that was reset does [" + u + "], a new one [" + f + "]");
  }
  mc::Outcome(std::to_string(used.log.size()));
}
