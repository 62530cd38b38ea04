// Concurrent access to workspace variables and waiting for their availability.
// LIB: full
#include "lin.h"
#include "mc.h"
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
using namespace sup::oac_tree;
using sup::dto::AnyValue;
namespace
{
std::unique_ptr<Variable> Local(const std::string& type, const std::string& value)
{
  auto v = GlobalVariableRegistry().Create("Local");
  v->AddAttribute("type", type);
  if (!value.empty())
    v->AddAttribute("value", value);
  return v;
}
const char* const kType = R"({"type":"","attributes":[{"a":{"type":"int32"}},{"b":{"type":"int32"}}]})";
AnyValue AB(int a, int b) { return AnyValue{{{"a", AnyValue{sup::dto::int32(a)}}, {"b", AnyValue{sup::dto::int32(b)}}}}; }
struct State
{
  int a = 0, b = 0;
};
using Op = lin::Op<State>;
struct History
{
  std::mutex mtx;
  std::vector<Op> ops;
  void Add(int64_t call, int64_t ret, const std::string& text, std::function<bool(State&)> f)
  {
    std::lock_guard<std::mutex> lk{mtx};
    ops.push_back({call, ret, text, std::move(f)});
  }
};
// One operation of a kind on variable v.
void Do(Workspace& ws, History& h, int kind, int k)
{
  int64_t c = mc::Stamp();
  if (kind == 0)
  {
    bool ok = ws.SetValue("v", AB(k, k));
    h.Add(c, mc::Stamp(), "v:=" + std::to_string(k), [=](State& s) { s.a = s.b = k; return ok; });
  }
  else if (kind == 1)
  {
    bool ok = ws.SetValue("v.a", AnyValue{sup::dto::int32(k)});
    h.Add(c, mc::Stamp(), "v.a:=" + std::to_string(k), [=](State& s) { s.a = k; return ok; });
  }
  else if (kind == 2)
  {
    bool ok = ws.SetValue("v.b", AnyValue{sup::dto::int32(k)});
    h.Add(c, mc::Stamp(), "v.b:=" + std::to_string(k), [=](State& s) { s.b = k; return ok; });
  }
  else if (kind == 3)
  {
    AnyValue v;
    bool ok = ws.GetValue("v", v);
    int a = ok ? v["a"].As<int>() : -1, b = ok ? v["b"].As<int>() : -1;
    h.Add(c, mc::Stamp(), "v=" + std::to_string(a) + "," + std::to_string(b), [=](State& s) { return ok && s.a == a && s.b == b; });
  }
  else if (kind == 4)
  {
    bool ok = ws.ResetVariable("v");
    h.Add(c, mc::Stamp(), "reset", [=](State& s) { s.a = s.b = 0; return ok; });
  }
  else if (kind == 5)
  {
    bool ok = ws.GetVariable("v")->IsAvailable();
    h.Add(c, mc::Stamp(), ok ? "available" : "unavailable", [=](State&) { return ok; });
  }
  else
  {
    bool ok = ws.SetValue("v", AnyValue{"no"});
    h.Add(c, mc::Stamp(), "bad write", [=](State&) { return !ok; });
  }
}
void CheckHistory(Workspace& ws, History& h, const std::string& w)
{
  int64_t c = mc::Stamp();
  AnyValue v;
  MC_CHECK(ws.GetValue("v", v), w);
  int a = v["a"].As<int>(), b = v["b"].As<int>();
  h.Add(c, mc::Stamp(), "final v=" + std::to_string(a) + "," + std::to_string(b), [=](State& s) { return s.a == a && s.b == b; });
  lin::Check<State>(h.ops, State{}, w);
  mc::Outcome(w + std::to_string(a) + std::to_string(b));
}
// A variable whose availability is switched by writing booleans.
class Switch : public Variable
{
public:
  explicit Switch(bool on) : Variable("Switch"), m_on{on}, m_init{on} {}

private:
  bool GetValueImpl(AnyValue& v) const override { v = AnyValue{m_on}; return true; }
  bool SetValueImpl(const AnyValue& v) override
  {
    m_on = v.As<bool>();
    Notify(v, m_on);
    return true;
  }
  bool IsAvailableImpl() const override { return m_on; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    m_on = m_init;
    Notify(AnyValue{m_on}, m_on);
    return {};
  }
  void ResetImpl(const Workspace&) override {}
  void TeardownImpl() override {}
  bool m_on;
  bool m_init;
};
}  // namespace

// Two threads, up to two operations each.
SCENARIO(two_threads, s.quick = 3, s.thorough = -1)
{
  Workspace ws;
  ws.AddVariable("v", Local(kType, ""));
  ws.Setup();
  History h;
  int k1 = mc::Choose(7), k2 = mc::Choose(7), k3 = mc::Choose(5);
  std::string w = std::to_string(k1) + std::to_string(k3) + "|" + std::to_string(k2) + " ";
  std::thread t([&] { Do(ws, h, k2, 2); });
  Do(ws, h, k1, 1);
  Do(ws, h, k3, 3);
  t.join();
  CheckHistory(ws, h, w);
}
SCENARIO(two_by_two, s.quick = -1, s.thorough = 5)
{
  Workspace ws;
  ws.AddVariable("v", Local(kType, ""));
  ws.Setup();
  History h;
  int k1 = mc::Choose(7), k2 = mc::Choose(7), k3 = mc::Choose(5), k4 = mc::Choose(5);
  std::string w = std::to_string(k1) + std::to_string(k3) + "|" + std::to_string(k2) + std::to_string(k4) + " ";
  std::thread t([&] {
    Do(ws, h, k2, 2);
    Do(ws, h, k4, 4);
  });
  Do(ws, h, k1, 1);
  Do(ws, h, k3, 3);
  t.join();
  CheckHistory(ws, h, w);
}
SCENARIO(three_threads, s.quick = 2, s.thorough = 4)
{
  Workspace ws;
  ws.AddVariable("v", Local(kType, ""));
  ws.Setup();
  History h;
  int k1 = mc::Choose(5), k2 = mc::Choose(5), k3 = mc::Choose(5);
  if (k1 > k2 || k2 > k3)
    return;
  std::string w = std::to_string(k1) + "|" + std::to_string(k2) + "|" + std::to_string(k3) + " ";
  std::thread t([&] { Do(ws, h, k2, 2); });
  std::thread u([&] { Do(ws, h, k3, 3); });
  Do(ws, h, k1, 1);
  t.join();
  u.join();
  CheckHistory(ws, h, w);
}
// What listeners are told last is the final value, in the order of the changes.
SCENARIO(last_notification, s.quick = 3, s.thorough = 5)
{
  Workspace ws;
  ws.AddVariable("v", Local(kType, ""));
  ws.Setup();
  std::mutex mtx;
  std::vector<int> seen;
  int listener;
  auto guard = ws.GetCallbackGuard(&listener);
  ws.RegisterCallback("v", [&](const AnyValue& v, bool) {
    std::lock_guard<std::mutex> lk{mtx};
    seen.push_back(v["a"].As<int>());
  }, &listener);
  History h;
  int k1 = mc::Choose(2), k2 = mc::Choose(2);
  std::thread t([&] { Do(ws, h, k2, 2); });
  Do(ws, h, k1, 1);
  t.join();
  AnyValue v;
  ws.GetValue("v.a", v);
  MC_CHECK(seen.size() == 2, "number of notifications");
  MC_CHECK(seen[1] == v.As<int>(), "last notified " + std::to_string(seen[1]) + ", value " + std::to_string(v.As<int>()));
}
// Listeners come and go while values change.
SCENARIO(registration, s.quick = 3, s.thorough = 5)
{
  Workspace ws;
  ws.AddVariable("v", Local(kType, ""));
  ws.Setup();
  std::atomic<bool> gone{false};
  int n = 0;
  bool generic = mc::Choose(2);
  std::thread t([&] {
    ws.SetValue("v.a", AnyValue{sup::dto::int32(1)});
    ws.SetValue("v.a", AnyValue{sup::dto::int32(2)});
  });
  {
    int listener;
    auto guard = ws.GetCallbackGuard(&listener);
    if (generic)
      ws.RegisterGenericCallback([&](const std::string&, const AnyValue&, bool) {
        MC_CHECK(!gone, "called after it unregistered");
        ++n;
      }, &listener);
    else
      ws.RegisterCallback("v", [&](const AnyValue&, bool) {
        MC_CHECK(!gone, "called after it unregistered");
        ++n;
      }, &listener);
    guard = ScopeGuard{};
    gone = true;
  }
  t.join();
  MC_CHECK(n <= 2, "calls");
  mc::Outcome(std::to_string(n));
}
// Waiting for (un)availability: a waiter returns when it happens, with the right answer.
SCENARIO(wait_available, s.quick = 3, s.thorough = 5)
{
  bool target = mc::Choose(2) == 0;
  int changes = 1 + mc::Choose(2);  // the second change undoes the first one
  bool late = mc::Choose(2);        // change long after the start of the wait
  Workspace ws;
  ws.AddVariable("v", std::unique_ptr<Variable>(new Switch(!target)));
  ws.AddVariable("w", Local(kType, ""));
  ws.Setup();
  std::atomic<int64_t> when{-1};
  std::thread t([&] {
    if (late)
      std::this_thread::sleep_for(std::chrono::seconds(2));
    when = mc::Now();
    ws.SetValue("v", AnyValue{target});
    if (changes == 2)
      ws.SetValue("v", AnyValue{!target});
    ws.SetValue("w.a", AnyValue{sup::dto::int32(1)});
  });
  int64_t start = mc::Now();
  bool ok = ws.WaitForVariable("v", 5.0, target);
  int64_t end = mc::Now();
  t.join();
  std::string w = std::to_string(changes) + (late ? " late " : " ") + "returned " + std::to_string(ok) + " after " + std::to_string((end - start) / 1000000) + " ms";
  if (changes == 1)
  {
    MC_CHECK(ok, w);
    MC_CHECK(end - when < 100000000, w + ": waited on after the change");
  }
  MC_CHECK(end - start <= 5100000000LL, w);
  mc::Outcome(w);
}
// Nothing happens: false after the limit; already true: immediately; unknown: immediately.
SCENARIO(wait_limits, s.quick = 3, s.thorough = 5)
{
  bool target = mc::Choose(2) == 0;
  int kind = mc::Choose(4);
  Workspace ws;
  ws.AddVariable("v", std::unique_ptr<Variable>(new Switch(!target)));
  ws.AddVariable("w", Local(kType, ""));
  if (kind != 3)
    ws.Setup();
  std::thread t([&] {
    ws.SetValue("w.a", AnyValue{sup::dto::int32(1)});
    if (kind == 1)
      ws.SetValue("v", AnyValue{!target});
  });
  int64_t start = mc::Now();
  bool unavailable = kind == 3;
  bool ok = ws.WaitForVariable(kind == 2 ? "zz" : "v", 3.0, kind == 0 ? !target : target);
  int64_t el = mc::Now() - start;
  t.join();
  std::string w = std::to_string(kind) + " returned " + std::to_string(ok) + " after " + std::to_string(el / 1000000) + " ms";
  if (kind == 0)
    MC_CHECK(ok && el < 100000000, w);
  else if (kind == 1)
    MC_CHECK(!ok && el >= 3000000000LL && el < 3100000000LL, w);
  else if (kind == 2)
    MC_CHECK(!ok && el < 100000000, w);
  else if (unavailable)
  {
    // a variable that is not set up is not available
    MC_CHECK(ok == !target, w);
    MC_CHECK(ok ? el < 100000000 : el >= 3000000000LL, w);
  }
}
// Two waiters for the same variable.
SCENARIO(two_waiters, s.quick = 2, s.thorough = 3)
{
  Workspace ws;
  ws.AddVariable("v", std::unique_ptr<Variable>(new Switch(false)));
  ws.Setup();
  int64_t el[2];
  bool ok[2];
  auto wait = [&](int i) {
    int64_t s = mc::Now();
    ok[i] = ws.WaitForVariable("v", 5.0, true);
    el[i] = mc::Now() - s;
  };
  std::thread t([&] { wait(0); });
  std::thread u([&] { wait(1); });
  ws.SetValue("v", AnyValue{true});
  t.join();
  u.join();
  for (int i = 0; i < 2; ++i)
    MC_CHECK(ok[i] && el[i] < 100000000, "waiter " + std::to_string(i) + " returned " + std::to_string(ok[i]) + " after " + std::to_string(el[i] / 1000000) + " ms");
}
