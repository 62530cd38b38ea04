// Waiting instructions: every history of ticks, passing time, variable updates, halts and resets under a virtual clock.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/instruction_utils.h>
#include <chrono>
#include <iomanip>
#include <limits>
#include <sstream>
#include <thread>
using namespace uu;
using wsm::Build;
using wsm::N;
namespace
{
const int64_t ms = 1000000;
void Pass(int64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
// Time is in nanoseconds; -1: no valid timeout.
struct Timeout
{
  const char* text;
  int64_t ns;
};
const Timeout kTimeouts[] = {{"0.05", 50 * ms}, {"0", 0}, {"-", 0}, {"1e-3", ms}, {"0.00025", ms / 4}, {"30", 30000 * ms}, {"0.1", 100 * ms}, {"-1", -1}, {"1e30", -1}, {"9.1e9", 9100000000000000000ll}, {"9.3e9", -1}, {"@nan", -1}, {"@f", 30 * ms}, {"@i", 1000 * ms}, {"@neg", -1}, {"@s", -1}, {"@missing", -1}, {"@big", 8000000000000000000ll}};
class Switch : public Variable
{
public:
  explicit Switch(bool on, const std::string& type = "Switch") : Variable(type), m_on{on} {}

private:
  bool GetValueImpl(AnyValue& v) const override { v = AnyValue{m_on}; return true; }
  bool SetValueImpl(const AnyValue& v) override
  {
    m_on = v.As<bool>();
    Notify(v, m_on);
    return true;
  }
  bool IsAvailableImpl() const override { return m_on; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
  void TeardownImpl() override {}
  bool m_on;
};
struct World
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  std::unique_ptr<Instruction> instr;
  std::string w;
  World()
  {
    ws.AddVariable("f", wsm::Local(R"({"type":"float64"})", "0.03"));
    ws.AddVariable("i", wsm::Local(R"({"type":"uint8"})", "1"));
    ws.AddVariable("neg", wsm::Local(R"({"type":"int8"})", "-1"));
    ws.AddVariable("s", wsm::Local(R"({"type":"string"})", "\"1\""));
    ws.AddVariable("big", wsm::Local(R"({"type":"float64"})", "8e9"));
    ws.AddVariable("nan", wsm::Local(R"({"type":"float64"})", "0"));
    ws.AddVariable("yes", wsm::Local(R"({"type":"bool"})", "true"));
    ws.AddVariable("no", wsm::Local(R"({"type":"bool"})", "false"));
  }
  void Use(std::unique_ptr<Instruction> i)
  {
    ws.Setup();
    ws.SetValue("nan", AnyValue{sup::dto::float64(std::numeric_limits<double>::quiet_NaN())});
    instr = std::move(i);
    instr->Setup(proc);
  }
  ES Tick()
  {
    instr->ExecuteSingle(ui, ws);
    return instr->GetStatus();
  }
};
void Set(std::unique_ptr<Instruction>& i, const std::string& n, const std::string& v)
{
  if (v != "-")
    i->AddAttribute(n, v);
}
}  // namespace

SCENARIO(wait, s.quick = 5, s.thorough = 6)
{
  World p;
  int tk = mc::Choose(18);
  auto& to = kTimeouts[tk];
  // the full depth with one of them
  int depth = tk == 0 ? mc::Depth() : mc::Depth() - 1;
  const char* bls[] = {"-", "true", "false", "@yes", "@no", "@s", "@missing"};
  int b = mc::Choose(7);
  bool blocking = b == 1 || b == 3, bad = to.ns < 0 || b >= 5;
  int64_t accuracy = 50 * ms;
  int acc = mc::Choose(2);
  if (acc)
  {
    p.proc.AddAttribute("timingAccuracy", "0.02");
    accuracy = 20 * ms;
  }
  if (blocking && to.ns > 1000000 * ms)
    return;
  auto i = Node("Wait");
  Set(i, "timeout", to.text);
  Set(i, "blocking", bls[b]);
  p.Use(std::move(i));
  p.w = std::string("Wait ") + to.text + " " + bls[b] + (acc ? " 20ms: " : ": ");
  ES model = ES::NOT_STARTED;
  bool halted = false;
  int64_t finish = 0, timeout = to.ns;
  for (int d = 0; d < depth; ++d)
  {
    switch (mc::Choose(d == 0 ? 2 : 6))
    {
    case 0:
    {
      p.w += "tick ";
      int64_t t0 = mc::Now();
      bool first = model == ES::NOT_STARTED;
      if (first)
      {
        finish = t0 + timeout;
        model = bad ? ES::FAILURE : ES::NOT_FINISHED;
      }
      ES st = p.Tick();
      int64_t t1 = mc::Now();
      if (NeedsExecute(model) && !halted)
      {
        if (blocking)
        {
          MC_CHECK(t1 >= finish, p.w + ": ends too early");
          MC_CHECK(t1 <= std::max(t0, finish + accuracy - 1), p.w + ": ends too late");
          model = ES::SUCCESS;
        }
        else
          model = t0 >= finish ? ES::SUCCESS : ES::RUNNING;
      }
      else
        MC_CHECK(t0 == t1, p.w + ": waits although finished or halted");
      if (!blocking)
        MC_CHECK(t0 == t1, p.w + ": blocks");
      MC_CHECK(st == model || (halted && st == ES::FAILURE), p.w + ": status is " + C(st) + " instead of " + C(model));
      model = st;
      break;
    }
    case 1:
      p.w += "+2% ";
      Pass(to.ns > 0 && to.ns < 1000000 * ms ? to.ns / 50 : ms);
      break;
    case 2:
      p.w += "+98% ";
      Pass(to.ns > 0 && to.ns < 1000000 * ms ? to.ns / 50 * 49 : 49 * ms);
      break;
    case 3:
      p.w += "halt ";
      p.instr->Halt();
      halted = true;
      break;
    case 4:
      p.w += "reset ";
      p.instr->Reset(p.ui);
      model = ES::NOT_STARTED;
      halted = false;
      break;
    default:
      p.w += "f:=0.002 ";
      p.ws.SetValue("f", AnyValue{sup::dto::float64(0.002)});
      if (std::string(to.text) == "@f")
        timeout = 2 * ms;
    }
    MC_CHECK(p.instr->GetStatus() == model, p.w + ": status");
  }
}

SCENARIO(variable, s.quick = 4, s.thorough = 5)
{
  World p;
  int tk = mc::Choose(18);
  auto& to = kTimeouts[tk];
  // the full depth with one of them
  int depth = tk == 0 ? mc::Depth() : mc::Depth() - 2;
  if (std::string(to.text) == "-")
    return;
  const char* names[] = {"v", "m.a", "missing", "m.zz"};
  const char* others[] = {"-", "o", "missing", "e"};
  int n = mc::Choose(4), o = mc::Choose(n >= 2 ? 2 : 4);
  auto i = Node("WaitForVariable");
  Set(i, "varName", names[n]);
  Set(i, "timeout", to.text);
  Set(i, "equalsVar", others[o]);
  p.ws.AddVariable("v", wsm::Local("", "", true));
  p.ws.AddVariable("e", wsm::Local("", ""));
  p.ws.AddVariable("o", wsm::Local(R"({"type":"int32"})", "1"));
  p.ws.AddVariable("m", wsm::Local(R"({"type":"","attributes":[{"a":{"type":"int32"}}]})", ""));
  p.Use(std::move(i));
  p.w = std::string("WaitForVariable ") + names[n] + " " + to.text + " " + others[o] + ": ";
  // values; -1: empty
  int v = n == 0 ? -1 : n == 1 ? 0 : -1, ov = 1;
  ES model = ES::NOT_STARTED;
  bool halted = false;
  int64_t finish = 0, timeout = to.ns;
  for (int d = 0; d < depth; ++d)
  {
    switch (mc::Choose(8))
    {
    case 0:
    {
      p.w += "tick ";
      int64_t t0 = mc::Now();
      if (model == ES::NOT_STARTED)
      {
        finish = t0 + timeout;
        model = to.ns < 0 ? ES::FAILURE : ES::NOT_FINISHED;
      }
      ES st = p.Tick();
      if (NeedsExecute(model) && !halted)
      {
        bool cond = v >= 0 && (o == 0 || (o == 1 && ov == v));
        model = cond ? ES::SUCCESS : t0 >= finish ? ES::FAILURE : ES::RUNNING;
      }
      MC_CHECK(mc::Now() == t0, p.w + ": blocks");
      MC_CHECK(st == model || (halted && st == ES::FAILURE), p.w + ": status is " + C(st) + " instead of " + C(model));
      model = st;
      break;
    }
    case 1:
      p.w += "+60% ";
      Pass(to.ns > 0 && to.ns < 1000000 * ms ? to.ns / 5 * 3 : 30 * ms);
      break;
    case 2:
    case 3:
    {
      int k = mc::Choose(2) + 1;
      bool other = mc::Choose(2);
      p.w += std::string(other ? "o" : names[n]) + ":=" + std::to_string(k) + " ";
      p.ws.SetValue(other ? "o" : names[n], AnyValue{sup::dto::int32(k)});
      if (other)
        ov = k;
      else if (n < 2)
        v = k;
      break;
    }
    case 4:
      p.w += "clear ";
      if (n == 0)
      {
        p.ws.ResetVariable("v");
        v = -1;
      }
      else if (n == 1)
      {
        p.ws.ResetVariable("m");
        v = 0;
      }
      break;
    case 5:
      p.w += "halt ";
      p.instr->Halt();
      halted = true;
      break;
    case 6:
      p.w += "reset ";
      p.instr->Reset(p.ui);
      model = ES::NOT_STARTED;
      halted = false;
      break;
    default:
      p.w += "+1 ";
      Pass(ms);
    }
    MC_CHECK(p.instr->GetStatus() == model, p.w + ": status");
  }
}

// Every pair of values, with and without time to wait.
SCENARIO(values, s.quick = 1, s.thorough = 1)
{
  // gives an empty value
  struct Blank : Variable
  {
    Blank() : Variable("Blank") {}
    bool GetValueImpl(AnyValue& v) const override { v = AnyValue{}; return true; }
    bool SetValueImpl(const AnyValue&) override { return false; }
  };
  struct Case
  {
    const char* name;
    int value;  // equal numbers: equal values; -1: none
  };
  static const Case kCases[] = {{"n", 1}, {"n2", 1}, {"m", 2}, {"txt", 3}, {"txt2", 3}, {"txt1", 4}, {"st", 5}, {"st2", 5}, {"st.a", 1}, {"st3", 6}, {"arr", 7}, {"arr2", 7}, {"arr[0]", 1}, {"arr3", 8}, {"none", -1}, {"b1", -1}, {"b2", -1}, {"nope", -1}, {"st.zz", -1}, {"-", -1}};
  const int n = sizeof kCases / sizeof *kCases;
  World p;
  const char* kSt = R"({"type":"","attributes":[{"a":{"type":"int32"}}]})";
  const char* kArr = R"({"type":"","multiplicity":2,"element":{"type":"uint8"}})";
  p.ws.AddVariable("n", wsm::Local(R"({"type":"int32"})", "1"));
  p.ws.AddVariable("n2", wsm::Local(R"({"type":"uint64"})", "1"));
  p.ws.AddVariable("m", wsm::Local(R"({"type":"int32"})", "2"));
  p.ws.AddVariable("txt", wsm::Local(R"({"type":"string"})", "\"x\""));
  p.ws.AddVariable("txt2", wsm::Local(R"({"type":"string"})", "\"x\"", true));
  p.ws.AddVariable("txt1", wsm::Local(R"({"type":"string"})", "\"1\""));
  p.ws.AddVariable("st", wsm::Local(kSt, R"({"a":1})"));
  p.ws.AddVariable("st2", wsm::Local(kSt, R"({"a":1})", true));
  p.ws.AddVariable("st3", wsm::Local(kSt, R"({"a":2})"));
  p.ws.AddVariable("arr", wsm::Local(kArr, "[1,2]"));
  p.ws.AddVariable("arr2", wsm::Local(kArr, "[1,2]"));
  p.ws.AddVariable("arr3", wsm::Local(kArr, "[1,3]"));
  p.ws.AddVariable("none", wsm::Local("", "", true));
  p.ws.AddVariable("b1", std::unique_ptr<Variable>(new Blank));
  p.ws.AddVariable("b2", std::unique_ptr<Variable>(new Blank));
  auto& a = kCases[mc::Choose(n - 1)];
  auto& b = kCases[mc::Choose(n)];
  bool any = std::string(b.name) == "-";
  bool time = mc::Choose(2);
  auto i = Node("WaitForVariable");
  Set(i, "varName", a.name);
  Set(i, "timeout", time ? "1" : "0");
  Set(i, "equalsVar", b.name);
  p.Use(std::move(i));
  p.w = std::string("WaitForVariable ") + a.name + " equal to " + b.name + (time ? " 1s: " : " 0s: ");
  bool cond = a.value >= 0 && (any || a.value == b.value);
  ES st = p.Tick();
  MC_CHECK(st == (cond ? ES::SUCCESS : time ? ES::RUNNING : ES::FAILURE), p.w + C(st));
  if (st == ES::RUNNING)
  {
    Pass(1000 * ms);
    st = p.Tick();
    MC_CHECK(st == ES::FAILURE, p.w + "after the timeout " + C(st));
  }
}

SCENARIO(variables, s.quick = 5, s.thorough = 6)
{
  World p;
  int tk = mc::Choose(18);
  auto& to = kTimeouts[tk];
  // the full depth with one of them
  int depth = tk == 0 ? mc::Depth() : mc::Depth() - 2;
  if (std::string(to.text) == "-")
    return;
  const char* types[] = {"Switch", "Local", "None", "@tn", "@i"};
  int ty = mc::Choose(5);
  auto i = Node("WaitForVariables");
  Set(i, "varType", types[ty]);
  Set(i, "timeout", to.text);
  // local variables are available with any value
  bool a = false, b = mc::Choose(2);
  p.ws.AddVariable("a", std::unique_ptr<Variable>(new Switch(a)));
  p.ws.AddVariable("b", std::unique_ptr<Variable>(new Switch(b)));
  // other types, never available
  for (auto& other : {"Switchboard", "switch", "Swit", "LocalSwitch", "NoneSwitch"})
    p.ws.AddVariable(other, std::unique_ptr<Variable>(new Switch(false, other)));
  p.ws.AddVariable("e", wsm::Local("", ""));
  p.ws.AddVariable("tn", wsm::Local(R"({"type":"string"})", "\"Switch\""));
  p.Use(std::move(i));
  p.w = std::string("WaitForVariables ") + types[ty] + " " + to.text + ": ";
  ES model = ES::NOT_STARTED;
  int64_t finish = 0;
  bool bad = to.ns < 0 || ty == 4;
  for (int d = 0; d < depth; ++d)
  {
    switch (mc::Choose(7))
    {
    case 0:
    {
      p.w += "tick ";
      int64_t t0 = mc::Now();
      if (model == ES::NOT_STARTED)
      {
        finish = t0 + to.ns;
        model = bad ? ES::FAILURE : ES::NOT_FINISHED;
      }
      ES st = p.Tick();
      if (NeedsExecute(model))
      {
        bool cond = ty == 2 || ty == 1 || (a && b);
        model = cond ? ES::SUCCESS : t0 >= finish ? ES::FAILURE : ES::RUNNING;
      }
      MC_CHECK(mc::Now() == t0, p.w + ": blocks");
      MC_CHECK(st == model, p.w + ": status is " + C(st) + " instead of " + C(model));
      break;
    }
    case 1:
      p.w += "+60% ";
      Pass(to.ns > 0 && to.ns < 1000000 * ms ? to.ns / 5 * 3 : 30 * ms);
      break;
    case 2:
      a = !a;
      p.w += a ? "a on " : "a off ";
      p.ws.SetValue("a", AnyValue{a});
      break;
    case 3:
      b = !b;
      p.w += b ? "b on " : "b off ";
      p.ws.SetValue("b", AnyValue{b});
      break;
    case 4:
      p.w += "e on ";
      p.ws.SetValue("e", AnyValue{1});
      break;
    case 5:
      p.w += "reset ";
      p.instr->Reset(p.ui);
      model = ES::NOT_STARTED;
      break;
    default:
      p.w += "e off ";
      p.ws.ResetVariable("e");
    }
    MC_CHECK(p.instr->GetStatus() == model, p.w + ": status");
  }
}

// Deeper histories of the same wait over and over, with fewer operations.
SCENARIO(again, s.quick = 7, s.thorough = 9)
{
  World p;
  int kind = mc::Choose(3);
  static const char* const types[] = {"Wait", "WaitForVariable", "WaitForVariables"};
  auto i = Node(types[kind]);
  Set(i, "timeout", "0.05");
  if (kind == 1)
    Set(i, "varName", "v");
  if (kind == 2)
    Set(i, "varType", "Switch");
  if (kind == 2)
    p.ws.AddVariable("w", std::unique_ptr<Variable>(new Switch(false)));
  p.ws.AddVariable("v", wsm::Local("", "", true));
  p.Use(std::move(i));
  p.w = std::string(types[kind]) + ": ";
  ES model = ES::NOT_STARTED;
  int64_t finish = 0;
  bool halted = false, there = false;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int op = mc::Choose(kind ? 5 : 4);
    if (op == 0)
    {
      p.w += "tick ";
      int64_t t0 = mc::Now();
      if (model == ES::NOT_STARTED)
      {
        finish = t0 + 50 * ms;
        model = ES::NOT_FINISHED;
      }
      ES st = p.Tick();
      if (NeedsExecute(model) && !halted)
        model = there ? ES::SUCCESS : t0 < finish ? ES::RUNNING : kind ? ES::FAILURE : ES::SUCCESS;
      MC_CHECK(st == model || (halted && st == ES::FAILURE), p.w + ": status is " + C(st) + " instead of " + C(model));
      model = st;
    }
    else if (op == 1)
    {
      p.w += "+60% ";
      Pass(30 * ms);
    }
    else if (op == 2)
    {
      p.w += "reset ";
      p.instr->Reset(p.ui);
      model = ES::NOT_STARTED;
      halted = false;
    }
    else if (op == 3)
    {
      p.w += "halt ";
      p.instr->Halt();
      halted = true;
    }
    else
    {
      p.w += there ? "off " : "on ";
      there = !there;
      if (kind == 2)
        p.ws.SetValue("w", AnyValue{there});
      else if (there)
        p.ws.SetValue("v", AnyValue{sup::dto::int32(1)});
      else
        p.ws.ResetVariable("v");
    }
    MC_CHECK(p.instr->GetStatus() == model, p.w + ": status");
  }
}

// Timeouts are converted to the nearest nanosecond; what is negative, too large or no number is refused.
SCENARIO(conversion, s.quick = 1, s.thorough = 1)
{
  using sup::oac_tree::instruction_utils::ConvertToTimeoutNanoseconds;
  static const int64_t units[] = {1, 10, 1000, ms / 10, ms, 10 * ms, 1000 * ms};
  int64_t unit = units[mc::Choose(7)], block = mc::Choose(20) * 500;
  for (int64_t k = block; k < block + 500; ++k)
  {
    int64_t ns = k * unit, got = -7;
    double sec = double(ns) / 1e9;
    MC_CHECK(ConvertToTimeoutNanoseconds(sec, got) && got == ns, std::to_string(ns) + " ns: converted to " + std::to_string(got));
    got = -7;
    if (ns > 0)
      MC_CHECK(!ConvertToTimeoutNanoseconds(-sec, got), "-" + std::to_string(ns) + " ns: converted to " + std::to_string(got));
  }
  for (double bad : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 9.3e9, 1e300, -1e-300, -1e-12})
  {
    int64_t got = -7;
    MC_CHECK(!ConvertToTimeoutNanoseconds(bad, got), std::to_string(bad) + ": accepted");
  }
}
// Long timeouts: nothing happens until a nanosecond before they expire.
SCENARIO(long_waits, s.quick = 1, s.thorough = 1)
{
  const double secs[] = {1, 2.5, 60, 2147, 2148, 4294, 4295, 9000, 86400, 2147484, 4e6, 4294968, 31536000, 2147483648.0, 4294967296.0, 9e9};
  double sec = secs[mc::Choose(16)];
  int kind = mc::Choose(3);
  std::ostringstream text;
  text << std::setprecision(17) << sec;
  int64_t ns = static_cast<int64_t>(sec * 1e9);
  if (kind == 1 && sec > 5000)
    return;
  World p;
  p.ws.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  p.ws.AddVariable("one", wsm::Local(R"({"type":"int32"})", "1"));
  auto i = Node(kind == 2 ? "WaitForVariable" : "Wait");
  Set(i, "timeout", text.str());
  if (kind == 1)
    Set(i, "blocking", "true");
  if (kind == 2)
  {
    Set(i, "varName", "v");
    Set(i, "equalsVar", "one");
  }
  p.Use(std::move(i));
  p.w = (kind == 2 ? "WaitForVariable " : "Wait ") + text.str() + ": ";
  int64_t t0 = mc::Now();
  if (kind == 1)
  {
    MC_CHECK(p.Tick() == ES::SUCCESS, p.w + "ends " + C(p.instr->GetStatus()));
    MC_CHECK(mc::Now() >= t0 + ns && mc::Now() < t0 + ns + 50 * ms, p.w + "takes " + std::to_string(mc::Now() - t0) + " ns");
    return;
  }
  int64_t at[] = {0, ns / 1000, ns / 2, ns - ms, ns - 1};
  for (auto t : at)
  {
    Pass(t0 + t - mc::Now());
    MC_CHECK(p.Tick() == ES::RUNNING, p.w + "ends " + C(p.instr->GetStatus()) + " after " + std::to_string(t) + " ns");
  }
  bool met = kind == 2 && mc::Choose(2);
  if (met)
    p.ws.SetValue("v", AnyValue{sup::dto::int32(1)});
  else
    Pass(1);
  MC_CHECK(p.Tick() == (met || kind == 0 ? ES::SUCCESS : ES::FAILURE), p.w + "ends " + C(p.instr->GetStatus()));
}
