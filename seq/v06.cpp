// Callback manager: every history of registrations, guards, unregistrations and executions.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/named_callback_manager.h>
#include <memory>
using namespace sup::oac_tree;
namespace
{
struct Entry
{
  int id;
  int listener;  // -1: null
  int name;      // -1: generic
};
std::string gLog;
int gListeners[3];
void* L(int i) { return i < 0 ? nullptr : &gListeners[i]; }
const char* const kNames[] = {"a", "ab", ""};

void Run(int names, int listeners, bool guards)
{
  gLog.clear();
  NamedCallbackManager<int, const std::string&> mgr;
  std::vector<Entry> model;
  std::unique_ptr<ScopeGuard> guard[2];
  int guarded[2] = {-2, -2};
  int next = 0;
  std::string trace;
  auto remove = [&](int l) {
    bool any = false;
    for (size_t i = 0; i < model.size();)
      if (model[i].listener == l)
      {
        model.erase(model.begin() + i);
        any = true;
      }
      else
        ++i;
    return any;
  };
  auto execute = [&](int n) {
    std::string expect;
    for (auto& e : model)
      if (e.name == -1)
        expect += "g" + std::to_string(e.id) + ":" + kNames[n] + ":7:x ";
    for (auto& e : model)
      if (e.name == n)
        expect += "s" + std::to_string(e.id) + ":7:x ";
    gLog.clear();
    mgr.ExecuteCallbacks(kNames[n], 7, "x");
    MC_CHECK(gLog == expect, trace + ": got " + gLog + " expected " + expect);
  };
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int op = mc::Choose(guards ? 6 : 4);
    if (op == 0)
    {
      int l = mc::Choose(listeners + 1) - 1;
      int id = next++;
      trace += "generic" + std::to_string(l) + " ";
      bool ok = mgr.RegisterGenericCallback(
          [id](const std::string& n, int v, const std::string& s) {
            gLog += "g" + std::to_string(id) + ":" + n + ":" + std::to_string(v) + ":" + s + " ";
          },
          L(l));
      MC_CHECK(ok, trace);
      model.push_back({id, l, -1});
    }
    else if (op == 1)
    {
      int l = mc::Choose(listeners + 1) - 1, n = mc::Choose(names);
      int id = next++;
      trace += "specific" + std::to_string(l) + kNames[n] + " ";
      bool ok = mgr.RegisterCallback(
          kNames[n],
          [id](int v, const std::string& s) { gLog += "s" + std::to_string(id) + ":" + std::to_string(v) + ":" + s + " "; },
          L(l));
      MC_CHECK(ok, trace);
      model.push_back({id, l, n});
    }
    else if (op == 2)
    {
      int l = mc::Choose(listeners + 1) - 1;
      trace += "unregister" + std::to_string(l) + " ";
      bool ok = mgr.UnregisterListener(L(l));
      bool expect = remove(l);
      MC_CHECK(ok == expect, trace + ": result " + std::to_string(ok));
    }
    else if (op == 3)
    {
      // refused registrations leave everything as it was
      trace += "empty ";
      MC_CHECK(!mgr.RegisterGenericCallback({}, L(0)), trace);
      MC_CHECK(!mgr.RegisterCallback(kNames[0], {}, L(0)), trace);
      MC_CHECK(!mgr.RegisterGenericCallback({}, nullptr), trace);
    }
    else if (op == 4)
    {
      int g = mc::Choose(2), l = mc::Choose(listeners + 1) - 1;
      trace += "guard" + std::to_string(g) + ":" + std::to_string(l) + " ";
      auto fresh = mgr.GetCallbackGuard(L(l));
      MC_CHECK(fresh.IsValid() || l < 0, trace);
      if (!guard[g])
        guard[g].reset(new ScopeGuard(std::move(fresh)));
      else
      {
        *guard[g] = std::move(fresh);
        if (guarded[g] >= 0)
          remove(guarded[g]);
      }
      guarded[g] = l;
    }
    else
    {
      int g = mc::Choose(2);
      if (!guard[g])
        continue;
      trace += "release" + std::to_string(g) + " ";
      guard[g].reset();
      if (guarded[g] >= 0)
        remove(guarded[g]);
      guarded[g] = -2;
    }
    for (int n = 0; n < 3; ++n)
      execute(n);
  }
  std::string state;
  for (auto& e : model)
    state += std::to_string(e.listener) + "/" + std::to_string(e.name) + " ";
  mc::Outcome(state);
}
}  // namespace
SCENARIO(registrations, s.quick = 5, s.thorough = 6) { Run(2, 2, false); }
SCENARIO(with_guards, s.quick = 4, s.thorough = 5) { Run(1, 1, true); }
SCENARIO(more_names, s.quick = 4, s.thorough = 5) { Run(3, 3, false); }
// Many entries of mixed listeners: removal keeps the order of the others.
SCENARIO(bulk, s.quick = 7, s.thorough = 9)
{
  NamedCallbackManager<> mgr;
  std::string log;
  std::vector<Entry> model;
  int n = mc::Depth();
  for (int i = 0; i < n; ++i)
  {
    int l = mc::Choose(3) - 1;
    bool generic = i % 2;
    if (generic)
      mgr.RegisterGenericCallback([&log, i](const std::string&) { log += std::to_string(i) + " "; }, L(l));
    else
      mgr.RegisterCallback("x", [&log, i] { log += std::to_string(i) + " "; }, L(l));
    model.push_back({i, l, generic ? -1 : 0});
  }
  int gone = mc::Choose(3) - 1;
  bool ok = mgr.UnregisterListener(L(gone));
  std::string expect;
  bool any = false;
  for (int pass = 0; pass < 2; ++pass)
    for (auto& e : model)
      if ((e.name == -1) == (pass == 0))
      {
        if (e.listener == gone)
          any = true;
        else
          expect += std::to_string(e.id) + " ";
      }
  mgr.ExecuteCallbacks("x");
  MC_CHECK(log == expect, "got " + log + " expected " + expect);
  MC_CHECK(ok == any, "result of unregistering");
  MC_CHECK(!mgr.UnregisterListener(L(gone)), "second unregistering finds nothing");
  mc::Outcome(expect);
}
