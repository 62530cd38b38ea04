// Callback manager: arguments, functors with state, failing callbacks, many entries, guards that travel.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/named_callback_manager.h>
#include <map>
#include <memory>
#include <stdexcept>
using namespace sup::oac_tree;
namespace
{
int gL[200];
std::string N(long n) { return std::to_string(n); }
}  // namespace

// Arguments given by value, reference and pointer reach every callback intact, whatever an earlier callback does.
SCENARIO(arguments, s.quick = 5, s.thorough = 7)
{
  NamedCallbackManager<std::string, std::vector<int>, const std::string&, std::shared_ptr<int>> mgr;
  const std::string text = std::string(40, 't'), ref = "reference";
  const std::vector<int> list{1, 2, 3, 4};
  auto ptr = std::make_shared<int>(5);
  int good = 0, expected_calls = 0;
  auto check = [&](const std::string& s, const std::vector<int>& v, const std::string& r, const std::shared_ptr<int>& p) {
    MC_CHECK(s == text, "text argument is '" + s + "'");
    MC_CHECK(v == list, "list argument has " + N(v.size()) + " elements");
    MC_CHECK(&r == &ref && r == "reference", "reference argument");
    MC_CHECK(p == ptr, "shared argument");
    ++good;
  };
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(5);
    w += N(k);
    if (k == 0)
      mgr.RegisterGenericCallback([&](const std::string& n, std::string s, std::vector<int> v, const std::string& r,
                                      std::shared_ptr<int> p) {
        MC_CHECK(n == "x", "name argument");
        check(s, v, r, p);
        s.clear();
        v.clear();
        p.reset();
      }, &gL[d]);
    if (k == 1)
      mgr.RegisterCallback("x", [&](std::string s, std::vector<int> v, const std::string& r, std::shared_ptr<int> p) {
        check(s, v, r, p);
        std::string gone = std::move(s);
        std::vector<int> gone2 = std::move(v);
        p.reset();
      }, &gL[d]);
    if (k == 2)
      mgr.RegisterCallback("x", [&](const std::string& s, const std::vector<int>& v, const std::string& r,
                                    const std::shared_ptr<int>& p) { check(s, v, r, p); }, nullptr);
    if (k == 3)
      mgr.RegisterGenericCallback([&](const std::string& n, const std::string& s, const std::vector<int>& v,
                                      const std::string& r, const std::shared_ptr<int>& p) {
        MC_CHECK(n == "x", "name argument");
        check(s, v, r, p);
      }, nullptr);
    if (k == 4)
      mgr.RegisterCallback("y", [&](std::string, std::vector<int>, const std::string&, std::shared_ptr<int>) {
        mc::Fail("callback of another name: " + w);
      }, nullptr);
    expected_calls += k != 4;
  }
  for (int round = 1; round <= 2; ++round)
  {
    mgr.ExecuteCallbacks("x", text, list, ref, ptr);
    MC_CHECK(good == round * expected_calls, w + ": " + N(good) + " calls");
  }
  MC_CHECK(ptr.use_count() == 1, "no argument is kept");
  mc::Outcome(w);
}
// Function objects keep their own state from one execution to the next, and are released when unregistered.
SCENARIO(functor_state, s.quick = 5, s.thorough = 7)
{
  std::string log, expect;
  auto token = std::make_shared<int>(0);
  {
    NamedCallbackManager<int> mgr;
    int spec = 0, gen = 0, count[2] = {0, 0};
    bool registered[2] = {false, false};
    for (int d = 0; d < mc::Depth(); ++d)
    {
      int op = mc::Choose(5);
      if (op < 2 && !registered[op])
      {
        registered[op] = true;
        count[op] = 0;
        if (op == 0)
          mgr.RegisterGenericCallback([&log, n = 0, token](const std::string&, int) mutable { log += "g" + N(++n) + " "; },
                                      &gL[0]);
        else
          mgr.RegisterCallback("x", [&log, n = 0, token](int) mutable { log += "s" + N(++n) + " "; }, &gL[1]);
      }
      else if (op == 2)
      {
        mgr.ExecuteCallbacks("x", 1);
        if (registered[0])
          expect += "g" + N(++count[0]) + " ";
        if (registered[1])
          expect += "s" + N(++count[1]) + " ";
      }
      else if (op > 2)
      {
        bool had = mgr.UnregisterListener(&gL[op - 3]);
        MC_CHECK(had == registered[op - 3], "result of unregistering");
        registered[op - 3] = false;
      }
      MC_CHECK(log == expect, "got " + log + " expected " + expect);
      MC_CHECK(token.use_count() == 1 + registered[0] + registered[1], "callbacks are released when they are removed");
    }
    (void)spec;
    (void)gen;
  }
  MC_CHECK(token.use_count() == 1, "callbacks are released with their manager");
  mc::Outcome(expect);
}
// A callback that throws: the exception reaches the caller, registrations stay, the manager stays usable.
SCENARIO(failing_callback, s.quick = 0, s.thorough = 0)
{
  NamedCallbackManager<int> mgr;
  std::string log;
  int n = 1 + mc::Choose(4), bad = mc::Choose(n);
  bool enabled = true;
  unsigned generic = static_cast<unsigned>(mc::Choose(1 << n));
  for (int i = 0; i < n; ++i)
  {
    auto f = [&, i](int) {
      log += N(i);
      if (i == bad && enabled)
        throw std::runtime_error("callback");
    };
    if (generic >> i & 1)
      mgr.RegisterGenericCallback([f](const std::string&, int v) { f(v); }, &gL[i]);
    else
      mgr.RegisterCallback("x", f, &gL[i]);
  }
  std::string order;
  for (int pass = 1; pass >= 0; --pass)
    for (int i = 0; i < n; ++i)
      if (static_cast<int>(generic >> i & 1) == pass)
        order += N(i);
  for (int round = 0; round < 2; ++round)
  {
    log.clear();
    bool thrown = false;
    try
    {
      mgr.ExecuteCallbacks("x", 1);
    }
    catch (const std::runtime_error&)
    {
      thrown = true;
    }
    MC_CHECK(thrown, "the exception is passed on");
    MC_CHECK(log == order.substr(0, log.size()) && log.find(N(bad)) != std::string::npos, "order: " + log);
  }
  enabled = false;
  log.clear();
  mgr.ExecuteCallbacks("x", 1);
  MC_CHECK(log == order, "afterwards got " + log + " expected " + order);
  MC_CHECK(mgr.UnregisterListener(&gL[bad]) && !mgr.UnregisterListener(&gL[bad]), "unregistering");
  order.erase(order.find(N(bad)), 1);
  log.clear();
  mgr.ExecuteCallbacks("x", 1);
  MC_CHECK(log == order, "after removal got " + log + " expected " + order);
  mc::Outcome(order);
}
// Names are compared completely and exactly.
SCENARIO(name_matching, s.quick = 0, s.thorough = 0)
{
  using namespace std::string_literals;
  const std::string names[] = {"a", "A", "b", "", " ", "a ", " a", "ab", "a.b", "a.", ".a", "a*", "*", "a\0"s, "a\0b"s, "\0"s,
                               std::string(15, 'l'), std::string(16, 'l'), std::string(300, 'l'), std::string(301, 'l'),
                               "\xc3\xa4", "1", "01"};
  const int n = sizeof names / sizeof *names;
  int i = mc::Choose(n), j = mc::Choose(n), k = mc::Choose(n);
  NamedCallbackManager<> mgr;
  int calls = 0, calls2 = 0;
  std::string got;
  mgr.RegisterCallback(names[i], [&] { ++calls; }, &gL[0]);
  mgr.RegisterCallback(names[k], [&] { ++calls2; }, &gL[1]);
  mgr.RegisterGenericCallback([&](const std::string& s) { got += "<" + s + ">"; }, &gL[2]);
  mgr.ExecuteCallbacks(names[j]);
  MC_CHECK(calls == (i == j) && calls2 == (k == j), "callback for '" + names[i] + "' on '" + names[j] + "'");
  MC_CHECK(got == "<" + names[j] + ">", "generic callback gets the name");
  mc::Outcome(N(i) + "," + N(j));
}
// Many listeners, many callbacks each: removing any of them keeps all others, in order.
SCENARIO(many, s.quick = 0, s.thorough = 0)
{
  const int listeners[] = {1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 100, 150};
  int n = listeners[mc::Choose(13)], per = 1 + mc::Choose(3), kind = mc::Choose(3), gone_count = mc::Choose(4);
  NamedCallbackManager<int> mgr;
  std::vector<int> order, seen;
  std::vector<char> removed(n, 0);
  auto build = [&] {
    std::vector<int> e;
    for (int pass = 0; pass < 2; ++pass)
      for (int p = 0; p < per; ++p)
        for (int l = 0; l < n; ++l)
          if (!removed[l] && (kind == 2 ? (l + p) % 2 == pass : pass == kind))
            e.push_back(p * 1000 + l);
    return e;
  };
  for (int p = 0; p < per; ++p)
    for (int l = 0; l < n; ++l)
    {
      int id = p * 1000 + l;
      bool generic = kind == 2 ? (l + p) % 2 == 0 : kind == 0;
      if (generic)
        mgr.RegisterGenericCallback([&seen, id](const std::string&, int) { seen.push_back(id); }, &gL[l]);
      else
        mgr.RegisterCallback("x", [&seen, id](int) { seen.push_back(id); }, &gL[l]);
    }
  for (int g = 0; g <= gone_count; ++g)
  {
    seen.clear();
    mgr.ExecuteCallbacks("x", 1);
    MC_CHECK(seen == build(), N(n) + " listeners, " + N(per) + " each, " + N(g) + " removed: " + N(seen.size()) + " calls");
    int l = (g * 37 + n / 2) % n;
    bool expect = !removed[l];
    MC_CHECK(mgr.UnregisterListener(&gL[l]) == expect, "result of unregistering");
    removed[l] = 1;
  }
  seen.clear();
  mgr.ExecuteCallbacks("x", 1);
  MC_CHECK(seen == build(), "after the last removal");
  mc::Outcome(N(n) + "/" + N(per));
}
// Guards act for their listener when they end, wherever they were moved to and whatever was registered since.
SCENARIO(guard_travel, s.quick = 0, s.thorough = 0)
{
  int how = mc::Choose(7), late = mc::Choose(2), twice = mc::Choose(2);
  NamedCallbackManager<> mgr;
  int calls = 0, other = 0;
  auto add = [&](int l, int& c) {
    mgr.RegisterCallback("x", [&c] { ++c; }, &gL[l]);
    mgr.RegisterGenericCallback([&c](const std::string&) { ++c; }, &gL[l]);
  };
  add(1, other);
  if (!late)
    add(0, calls);
  auto before = [&] {
    if (late)
      add(0, calls);
    late = 0;
    calls = other = 0;
    mgr.ExecuteCallbacks("x");
    MC_CHECK(calls == 2 && other == 2, "callbacks stay while the guard lives: " + N(how));
  };
  switch (how)
  {
  case 0: {
    auto g = mgr.GetCallbackGuard(&gL[0]);
    before();
    break;
  }
  case 1: {
    auto g = mgr.GetCallbackGuard(&gL[0]);
    auto h = std::move(g);
    before();
    break;
  }
  case 2: {
    ScopeGuard outer;
    {
      auto g = mgr.GetCallbackGuard(&gL[0]);
      outer = std::move(g);
    }
    before();
    break;
  }
  case 3: {
    auto outer = mgr.GetCallbackGuard(nullptr);
    {
      auto g = mgr.GetCallbackGuard(&gL[0]);
      outer.Swap(g);
    }
    before();
    break;
  }
  case 4: {
    std::vector<ScopeGuard> v;
    for (int i = 0; i < 5; ++i)
      v.push_back(i == 2 ? mgr.GetCallbackGuard(&gL[0]) : mgr.GetCallbackGuard(&gL[50 + i]));
    before();
    break;
  }
  case 5: {
    auto a = mgr.GetCallbackGuard(&gL[0]);
    auto b = mgr.GetCallbackGuard(&gL[0]);
    before();
    a = ScopeGuard{};
    if (twice)
    {
      calls = 0;
      add(0, calls);  // the second guard removes what was registered after the first acted
    }
    break;
  }
  default: {
    std::map<int, ScopeGuard> m;
    m.emplace(1, mgr.GetCallbackGuard(&gL[0]));
    m.emplace(0, mgr.GetCallbackGuard(nullptr));
    before();
    break;
  }
  }
  calls = other = 0;
  mgr.ExecuteCallbacks("x");
  MC_CHECK(calls == 0, "callbacks are gone with the guard: " + N(how));
  MC_CHECK(other == 2, "others stay: " + N(how));
  if (twice)
  {
    add(0, calls);
    auto g = mgr.GetCallbackGuard(&gL[0]);
    calls = 0;
    mgr.ExecuteCallbacks("x");
    MC_CHECK(calls == 2, "a listener can register again: " + N(how));
  }
  mc::Outcome(N(how));
}
