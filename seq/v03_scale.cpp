// Many listeners and many variables.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
SCENARIO(many_listeners, s.quick = 1, s.thorough = 1)
{
  const int sizes[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
  int n = sizes[mc::Choose(19)], kind = mc::Choose(3), which = mc::Choose(3);
  int at = which == 0 ? 0 : which == 1 ? n / 2 : n - 1;
  std::string w = std::to_string(n) + " listeners, kind " + std::to_string(kind) + ": ";
  Workspace ws;
  auto name = [kind](int i) { return kind == 0 ? "v" + std::to_string(i) : std::string("v0"); };
  for (int i = 0; i < (kind == 0 ? n : 1); ++i)
    ws.AddVariable(name(i), wsm::Local(R"({"type":"int32"})", "0"));
  ws.Setup();
  std::vector<int> calls(n, 0), owner(n, 0);
  {
    std::vector<ScopeGuard> guards;
    for (int i = 0; i < n; ++i)
    {
      guards.push_back(ws.GetCallbackGuard(&owner[i]));
      if (kind < 2)
        ws.RegisterCallback(name(i), [&calls, i](const AnyValue&, bool) { ++calls[i]; }, &owner[i]);
      else
        ws.RegisterGenericCallback([&calls, i](const std::string&, const AnyValue&, bool) { ++calls[i]; }, &owner[i]);
    }
    MC_CHECK(ws.SetValue(name(at), AnyValue{sup::dto::int32(1)}), w + "write");
    for (int i = 0; i < n; ++i)
      MC_CHECK(calls[i] == (kind > 0 || i == at), w + "listener " + std::to_string(i) + " of a change of " + name(at) + " is called " + std::to_string(calls[i]) + " times");
    guards.erase(guards.begin() + at);
    MC_CHECK(ws.SetValue(name(at), AnyValue{sup::dto::int32(2)}), w + "write");
    for (int i = 0; i < n; ++i)
      MC_CHECK(calls[i] == (i == at ? 1 : kind > 0 ? 2 : 0), w + "listener " + std::to_string(i) + " after another one left");
  }
  auto seen = calls;
  MC_CHECK(ws.SetValue(name(0), AnyValue{sup::dto::int32(3)}) && calls == seen, w + "a listener whose guard is gone is called");
}
