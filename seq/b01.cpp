// Scope guards: every history over three guard slots agrees with an ownership model.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/scope_guard.h>
#include <memory>
#include <utility>

using sup::oac_tree::ScopeGuard;
namespace
{
// Model: slot -> action id, 0 empty guard, -1 no object.
struct World
{
  std::unique_ptr<ScopeGuard> g[3];
  int m[3] = {-1, -1, -1};
  std::vector<int> fired;     // real
  std::vector<int> expected;  // model
  int next = 1;
  std::string trace;
  void Drop(int i)
  {
    if (m[i] > 0)
      expected.push_back(m[i]);
    m[i] = 0;
  }
  void Verify()
  {
    std::string a, b;
    for (int f : fired)
      a += std::to_string(f) + " ";
    for (int f : expected)
      b += std::to_string(f) + " ";
    MC_CHECK(a == b, trace + ": actions run: " + a + ", expected: " + b);
    for (int i = 0; i < 3; ++i)
    {
      MC_CHECK((m[i] >= 0) == static_cast<bool>(g[i]), "harness");
      if (g[i])
        MC_CHECK(g[i]->IsValid() == (m[i] > 0), trace + ": validity of guard " + std::to_string(i));
    }
  }
};
void Run(bool throwing_copies)
{
  World w;
  (void)throwing_copies;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int op = mc::Choose(8);
    int i = 0, j = 0;
    // symmetry: the first slot used is slot 0
    i = d == 0 ? 0 : mc::Choose(3);
    if (op >= 2 && op <= 4)
      j = mc::Choose(3);
    if (op == 0)
    {
      w.trace += "new" + std::to_string(i) + " ";
      int id = w.next++;
      auto* fired = &w.fired;
      if (w.m[i] < 0)
        w.g[i].reset(new ScopeGuard([fired, id] { fired->push_back(id); }));
      else
      {
        *w.g[i] = ScopeGuard([fired, id] { fired->push_back(id); });
        w.Drop(i);
      }
      w.m[i] = id;
    }
    else if (op == 1)
    {
      w.trace += "empty" + std::to_string(i) + " ";
      if (w.m[i] < 0)
        w.g[i].reset(new ScopeGuard{});
      else
      {
        *w.g[i] = ScopeGuard{};
        w.Drop(i);
      }
      w.m[i] = 0;
    }
    else if (op == 2)  // move construct i from j
    {
      if (w.m[j] < 0 || i == j)
        continue;
      w.trace += "movector" + std::to_string(i) + std::to_string(j) + " ";
      std::unique_ptr<ScopeGuard> fresh{new ScopeGuard(std::move(*w.g[j]))};
      int id = w.m[j];
      w.m[j] = 0;
      w.Verify();
      w.g[i] = std::move(fresh);  // destroys the old object in slot i
      if (w.m[i] > 0)
        w.expected.push_back(w.m[i]);
      w.m[i] = id;
    }
    else if (op == 3)  // move assign
    {
      if (w.m[i] < 0 || w.m[j] < 0)
        continue;
      w.trace += "moveassign" + std::to_string(i) + std::to_string(j) + " ";
      auto& ret = (*w.g[i] = std::move(*w.g[j]));
      MC_CHECK(&ret == w.g[i].get(), w.trace + "assignment returns its target");
      if (i != j)
      {
        w.Drop(i);
        w.m[i] = w.m[j];
        w.m[j] = 0;
      }
    }
    else if (op == 4)
    {
      if (w.m[i] < 0 || w.m[j] < 0)
        continue;
      w.trace += "swap" + std::to_string(i) + std::to_string(j) + " ";
      w.g[i]->Swap(*w.g[j]);
      std::swap(w.m[i], w.m[j]);
    }
    else if (op == 5)
    {
      if (w.m[i] < 0)
        continue;
      w.trace += "destroy" + std::to_string(i) + " ";
      w.g[i].reset();
      w.Drop(i);
      w.m[i] = -1;
    }
    else if (op == 6)  // guard around an empty function
    {
      w.trace += "null" + std::to_string(i) + " ";
      if (w.m[i] >= 0)
        continue;
      w.g[i].reset(new ScopeGuard{std::function<void()>{}});
      w.m[i] = 0;
    }
    else  // std::swap through moves
    {
      j = (i + 1) % 3;
      if (w.m[i] < 0 || w.m[j] < 0)
        continue;
      w.trace += "stdswap" + std::to_string(i) + std::to_string(j) + " ";
      std::swap(*w.g[i], *w.g[j]);
      std::swap(w.m[i], w.m[j]);
    }
    w.Verify();
  }
  std::string state;
  for (int i = 0; i < 3; ++i)
    state += std::to_string(w.m[i]) + ",";
  for (int i = 0; i < 3; ++i)
  {
    w.trace += "end" + std::to_string(i) + " ";
    w.g[i].reset();
    w.Drop(i);
    w.m[i] = -1;
    w.Verify();
  }
  MC_CHECK(static_cast<int>(w.fired.size()) == w.next - 1, w.trace + ": every action runs exactly once");
  for (int f : w.fired)
    state += " " + std::to_string(f);
  mc::Outcome(state);
}
}  // namespace
SCENARIO(histories, s.quick = 4, s.thorough = 5) { Run(false); }

// Scope exit by exception also runs the action; the action sees the guard's enclosing state.
SCENARIO(unwinding, s.quick = 0, s.thorough = 0)
{
  int n = mc::Choose(4), at = mc::Choose(4);
  int fired = 0;
  try
  {
    std::vector<ScopeGuard> v;
    for (int i = 0; i < n; ++i)
    {
      if (i == at)
        throw 1;
      v.emplace_back([&fired] { ++fired; });
      MC_CHECK(fired == 0, "no action runs while guards are relocated");
    }
    MC_CHECK(static_cast<int>(v.size()) == n, "size");
  }
  catch (int)
  {
  }
  MC_CHECK(fired == (at < n ? at : n), "actions run on unwinding");
  mc::Outcome(std::to_string(fired));
}
// Guards sharing one callable object: the shared state is released with the last guard, after the action.
SCENARIO(captures, s.quick = 0, s.thorough = 0)
{
  int how = mc::Choose(4);
  auto token = std::make_shared<int>(7);
  std::weak_ptr<int> watch{token};
  int seen = 0;
  {
    ScopeGuard outer;
    {
      ScopeGuard inner([token, &seen] { seen += *token; });
      token.reset();
      if (how == 1)
        outer = std::move(inner);
      if (how == 2)
        outer.Swap(inner);
      if (how == 3)
      {
        ScopeGuard third{std::move(inner)};
        outer = std::move(third);
      }
      MC_CHECK(seen == 0, "not yet");
      MC_CHECK(!watch.expired(), "captured state must stay alive until the action ran");
    }
    MC_CHECK(seen == (how == 0 ? 7 : 0), "moment of the action");
  }
  MC_CHECK(seen == 7, "ran once");
  MC_CHECK(watch.expired(), "captured state is released with its guard");
  mc::Outcome(std::to_string(how));
}
