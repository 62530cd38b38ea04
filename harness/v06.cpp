// Callback manager under concurrency.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/named_callback_manager.h>
#include <memory>
#include <thread>
using namespace sup::oac_tree;
namespace
{
int gL[3];
// A listener whose object dies right after it unregistered: a late call would touch freed memory.
struct Listener
{
  int calls = 0;
  int last = -1;
};
}  // namespace

SCENARIO(unregister_vs_execute, s.quick = 4, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  int how = mc::Choose(3);
  int kind = mc::Choose(3);
  auto other = std::make_unique<Listener>();
  mgr.RegisterGenericCallback([p = other.get()](const std::string&, int) { ++p->calls; }, &gL[1]);
  std::thread exec([&] {
    mgr.ExecuteCallbacks("x", 1);
    mgr.ExecuteCallbacks("x", 2);
  });
  int seen = 0;
  {
    auto l = std::make_unique<Listener>();
    ScopeGuard guard;
    if (how == 2)
      guard = mgr.GetCallbackGuard(&gL[0]);
    if (kind != 1)
      mgr.RegisterCallback("x", [p = l.get()](int v) { ++p->calls; p->last = v; }, &gL[0]);
    if (kind != 0)
      mgr.RegisterGenericCallback([p = l.get()](const std::string&, int v) { ++p->calls; p->last = v; }, &gL[0]);
    if (how == 1)
      mgr.RegisterCallback("y", [](int) {}, &gL[0]);
    if (how != 2)
      MC_CHECK(mgr.UnregisterListener(&gL[0]), "had callbacks");
    else
      guard = ScopeGuard{};
    seen = l->calls;
  }
  exec.join();
  MC_CHECK(other->calls == 2, "other listener is called for every execution");
  mc::Outcome(std::to_string(how) + std::to_string(kind) + " calls " + std::to_string(seen));
}

SCENARIO(concurrent_registration, s.quick = 4, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  int k = mc::Choose(3);
  int a = 0, b = 0, g = 0;
  std::thread t([&] {
    mgr.RegisterCallback("x", [&a](int v) { a += v; }, &gL[0]);
    if (k == 1)
      mgr.UnregisterListener(&gL[0]);
    if (k == 2)
      mgr.ExecuteCallbacks("x", 10);
  });
  mgr.RegisterCallback("x", [&b](int v) { b += v; }, &gL[1]);
  mgr.RegisterGenericCallback([&g](const std::string&, int v) { g += v; }, &gL[2]);
  mgr.ExecuteCallbacks("x", 100);
  t.join();
  int a0 = a, b0 = b, g0 = g;
  mgr.ExecuteCallbacks("x", 1000);
  MC_CHECK(a - a0 == (k == 1 ? 0 : 1000), "registration of one thread is kept");
  MC_CHECK(b - b0 == 1000, "registration of the other thread is kept");
  MC_CHECK(g - g0 == 1000, "generic registration is kept");
  MC_CHECK(b0 == 100 || b0 == 110, "each execution calls the callback once");
  mc::Outcome(std::to_string(k) + ":" + std::to_string(a0) + "," + std::to_string(b0) + "," + std::to_string(g0));
}

// Executions are mutually exclusive: callbacks need no locking of their own.
SCENARIO(concurrent_execution, s.quick = 4, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  std::vector<int> order;
  mgr.RegisterCallback("x", [&order](int v) { order.push_back(v); }, &gL[0]);
  mgr.RegisterCallback("x", [&order](int v) { order.push_back(v); }, &gL[1]);
  std::thread t([&] { mgr.ExecuteCallbacks("x", 1); });
  mgr.ExecuteCallbacks("x", 2);
  t.join();
  MC_CHECK(order.size() == 4, "all calls are made");
  MC_CHECK(order[0] == order[1] && order[2] == order[3], "executions do not overlap");
  mc::Outcome(std::to_string(order[0]));
}
SCENARIO(two_unregister, s.quick = 4, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  int calls = 0;
  mgr.RegisterCallback("x", [&calls](int) { ++calls; }, &gL[0]);
  if (mc::Choose(2))
    mgr.RegisterGenericCallback([&calls](const std::string&, int) { ++calls; }, &gL[0]);
  bool r1 = false, r2 = false;
  std::thread t([&] { r1 = mgr.UnregisterListener(&gL[0]); });
  r2 = mgr.UnregisterListener(&gL[0]);
  t.join();
  MC_CHECK(r1 != r2, "exactly one unregistration finds the callbacks");
  mgr.ExecuteCallbacks("x", 1);
  MC_CHECK(calls == 0, "none left");
  mc::Outcome(std::to_string(r1));
}

// Several threads executing, registering and unregistering: each execution sees a set of callbacks that was
// registered at one moment, complete and in order.
SCENARIO(atomic_execution, s.quick = 3, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  std::string seen[3];
  auto add = [&](int id) {
    return [&seen, id](int who) { seen[who] += std::to_string(id); };
  };
  int k = mc::Choose(4);
  mgr.RegisterCallback("x", add(1), &gL[0]);
  mgr.RegisterCallback("x", add(2), &gL[1]);
  mgr.RegisterCallback("x", add(3), &gL[0]);
  std::thread t([&] {
    if (k == 0)
      MC_CHECK(mgr.UnregisterListener(&gL[0]), "had callbacks");
    if (k == 1)
      mgr.RegisterCallback("x", add(4), &gL[2]);
    if (k == 2)
      MC_CHECK(mgr.UnregisterListener(&gL[1]), "had callbacks");
    if (k == 3)
      mgr.RegisterGenericCallback([f = add(5)](const std::string&, int who) { f(who); }, &gL[2]);
    mgr.ExecuteCallbacks("x", 1);
  });
  mgr.ExecuteCallbacks("x", 0);
  t.join();
  mgr.ExecuteCallbacks("x", 2);
  const char* after[] = {"2", "1234", "13", "5123"};
  MC_CHECK(seen[1] == after[k] && seen[2] == after[k], "after the change: " + seen[1] + " and " + seen[2]);
  MC_CHECK(seen[0] == "123" || seen[0] == after[k], "during the change: " + seen[0]);
  mc::Outcome(std::to_string(k) + ":" + seen[0]);
}
// Guards released by two threads, others registering: all and only the guarded listeners are gone.
SCENARIO(guards_released, s.quick = 3, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  int calls[3] = {0, 0, 0};
  for (int i = 0; i < 2; ++i)
  {
    mgr.RegisterCallback("x", [&calls, i](int) { ++calls[i]; }, &gL[i]);
    mgr.RegisterGenericCallback([&calls, i](const std::string&, int) { ++calls[i]; }, &gL[i]);
  }
  int k = mc::Choose(3);
  auto g0 = std::make_unique<ScopeGuard>(mgr.GetCallbackGuard(&gL[0]));
  auto g1 = std::make_unique<ScopeGuard>(mgr.GetCallbackGuard(k == 2 ? &gL[0] : &gL[1]));
  std::thread a([&] {
    g0.reset();
    if (k == 1)
      mgr.ExecuteCallbacks("x", 1);
  });
  std::thread b([&] { g1.reset(); });
  mgr.RegisterCallback("x", [&calls](int) { ++calls[2]; }, &gL[2]);
  if (k == 0)
    mgr.ExecuteCallbacks("x", 1);
  a.join();
  b.join();
  calls[0] = calls[1] = calls[2] = 0;
  mgr.ExecuteCallbacks("x", 1);
  MC_CHECK(calls[0] == 0, "first listener is gone");
  MC_CHECK(calls[1] == (k == 2 ? 2 : 0), "second listener");
  MC_CHECK(calls[2] == 1, "new listener is kept");
  mc::Outcome(std::to_string(k));
}
// Callbacks called from several threads use state of their own without locking, also across names.
SCENARIO(names_exclude_each_other, s.quick = 3, s.thorough = 50)
{
  NamedCallbackManager<> mgr;
  int inside = 0, total = 0;
  auto cb = [&] {
    MC_CHECK(inside == 0, "two callbacks run at the same time");
    ++inside;
    mc::Point();
    --inside;
    ++total;
  };
  mgr.RegisterCallback("x", cb, &gL[0]);
  mgr.RegisterCallback("y", cb, &gL[0]);
  mgr.RegisterGenericCallback([&cb](const std::string&) { cb(); }, &gL[0]);
  std::thread t([&] { mgr.ExecuteCallbacks("y"); });
  mgr.ExecuteCallbacks("x");
  t.join();
  MC_CHECK(total == 4, "all were called");
  mc::Outcome("ok");
}
// A listener's generic and specific callbacks belong to one execution: nothing comes in between, all see one order.
SCENARIO(mixed_execution, s.quick = 3, s.thorough = 50)
{
  NamedCallbackManager<int> mgr;
  std::string seen;
  int k = mc::Choose(3), first = mc::Choose(2);
  auto specific = [&] { mgr.RegisterCallback("x", [&seen](int who) { seen += "s" + std::to_string(who); }, &gL[0]); };
  auto generic = [&] { mgr.RegisterGenericCallback([&seen](const std::string&, int who) { seen += "g" + std::to_string(who); }, &gL[0]); };
  if (first)
    specific();
  generic();
  if (!first)
    specific();
  std::thread t([&] {
    if (k == 0)
      mgr.ExecuteCallbacks("x", 1);
    if (k == 1)
      MC_CHECK(mgr.UnregisterListener(&gL[0]), "had callbacks");
    if (k == 2)
      mgr.GetCallbackGuard(&gL[0]);
  });
  mgr.ExecuteCallbacks("x", 0);
  t.join();
  if (k == 0)
    MC_CHECK(seen == "g0s0g1s1" || seen == "g1s1g0s0", "executions overlap: " + seen);
  else
    MC_CHECK(seen == "g0s0" || seen == "", "half an execution: " + seen);
  mc::Outcome(seen);
}
