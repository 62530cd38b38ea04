// Scope guards in containers, long chains of moves, large actions, nested guards.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/scope_guard.h>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <utility>
#include <vector>

using sup::oac_tree::ScopeGuard;
namespace
{
std::string N(long n) { return std::to_string(n); }
std::string Join(const std::vector<int>& v)
{
  std::string s;
  for (int i : v)
    s += N(i) + " ";
  return s;
}
// Actions of different sizes, all recording their number when they run.
std::function<void()> Action(int kind, int id, std::vector<int>* fired)
{
  if (kind == 0)
    return [fired, id] { fired->push_back(id); };
  if (kind == 1)
  {
    std::array<long, 32> big{};
    big.fill(id);
    return [fired, big] { fired->push_back(static_cast<int>(big[31])); };
  }
  auto p = std::make_shared<std::string>(N(id));
  return [fired, p] { fired->push_back(std::stoi(*p)); };
}
}  // namespace

// A vector of guards under insertions, erasures, swaps, rotations: each action stays with its element.
SCENARIO(vector_histories, s.quick = 5, s.thorough = 6)
{
  std::vector<int> fired, model, done;
  std::string w;
  int next = 1;
  {
    std::vector<ScopeGuard> v;
    int kind = mc::Choose(3);
    for (int d = 0; d < mc::Depth(); ++d)
    {
      int n = static_cast<int>(v.size());
      int op = mc::Choose(7);
      if (op == 0)
      {
        int at = n ? mc::Choose(2) * n : 0;
        w += "insert" + N(at) + " ";
        v.insert(v.begin() + at, ScopeGuard(Action(kind, next, &fired)));
        model.insert(model.begin() + at, next++);
      }
      else if (op == 1)
      {
        w += "append two ";
        v.emplace_back(Action(kind, next, &fired));
        model.push_back(next++);
        v.emplace_back();
        model.push_back(0);
      }
      else if (op == 2 && n)
      {
        int at = mc::Choose(n);
        w += "erase" + N(at) + " ";
        v.erase(v.begin() + at);
        if (model[at])
          done.push_back(model[at]);
        model.erase(model.begin() + at);
      }
      else if (op == 3 && n > 1)
      {
        w += "rotate ";
        std::rotate(v.begin(), v.begin() + 1, v.end());
        std::rotate(model.begin(), model.begin() + 1, model.end());
      }
      else if (op == 4)
      {
        w += "reverse ";
        std::reverse(v.begin(), v.end());
        std::reverse(model.begin(), model.end());
      }
      else if (op == 5 && n > 1)
      {
        w += "swap ";
        v.front().Swap(v.back());
        std::swap(model.front(), model.back());
      }
      else if (op == 6)
      {
        w += "partition ";
        auto by = [](const ScopeGuard& g) { return !g.IsValid(); };
        std::stable_partition(v.begin(), v.end(), by);
        std::stable_partition(model.begin(), model.end(), [](int i) { return i == 0; });
      }
      MC_CHECK(v.size() == model.size(), "harness");
      for (size_t i = 0; i < v.size(); ++i)
        MC_CHECK(v[i].IsValid() == (model[i] != 0), w + ": validity of element " + N(static_cast<long>(i)));
      auto a = fired, b = done;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      MC_CHECK(a == b, w + ": run " + Join(fired) + ", expected " + Join(done));
    }
    auto before = fired.size();
    (void)before;
    // take the guards out one by one: each must hold the action it was given
    for (size_t i = 0; i < v.size(); ++i)
    {
      auto n = fired.size();
      {
        ScopeGuard g{std::move(v[i])};
      }
      if (model[i])
        MC_CHECK(fired.size() == n + 1 && fired.back() == model[i], w + ": element " + N(static_cast<long>(i)) + " ran " +
                                                                       (fired.size() > n ? N(fired.back()) : "nothing"));
      else
        MC_CHECK(fired.size() == n, w + ": an empty guard ran something");
    }
  }
  std::sort(fired.begin(), fired.end());
  std::vector<int> all;
  for (int i = 1; i < next; ++i)
    all.push_back(i);
  MC_CHECK(fired == all, w + ": every action once, got " + Join(fired));
  mc::Outcome(Join(model));
}
namespace
{
ScopeGuard Pass(ScopeGuard g, int depth)
{
  return depth == 0 ? std::move(g) : Pass(std::move(g), depth - 1);
}
}  // namespace
// Chains of moves through functions, containers and pointers, however long.
SCENARIO(move_chains, s.quick = 0, s.thorough = 0)
{
  const int lengths[] = {0, 1, 2, 3, 7, 8, 9, 16, 31, 64, 100, 255, 256, 257, 1000};
  int n = lengths[mc::Choose(15)], how = mc::Choose(6), kind = mc::Choose(3);
  std::vector<int> fired;
  auto w = "chain of " + N(n) + " kind " + N(how);
  {
    ScopeGuard g{Action(kind, 7, &fired)};
    if (how == 0)
      g = Pass(std::move(g), n);
    else if (how == 1)
      for (int i = 0; i < n; ++i)
      {
        ScopeGuard h{std::move(g)};
        MC_CHECK(!g.IsValid() && h.IsValid(), w);
        g = std::move(h);
        MC_CHECK(g.IsValid() && !h.IsValid(), w);
      }
    else if (how == 2)
      for (int i = 0; i < n; ++i)
      {
        ScopeGuard h;
        h.Swap(g);
        g.Swap(h);
      }
    else if (how == 3)
    {
      std::vector<ScopeGuard> v;
      v.push_back(std::move(g));
      for (int i = 0; i < n; ++i)
        v.emplace_back();
      g = std::move(v.front());
    }
    else if (how == 4)
      for (int i = 0; i < n; ++i)
      {
        auto p = std::make_unique<ScopeGuard>(std::move(g));
        g = std::move(*p);
      }
    else
    {
      std::map<int, ScopeGuard> m;
      m.emplace(0, std::move(g));
      for (int i = 0; i < n; ++i)
        m.emplace(i + 1, std::move(m.at(i)));
      g = std::move(m.at(n));
    }
    MC_CHECK(fired.empty(), w + ": ran too early");
    MC_CHECK(g.IsValid(), w + ": valid");
  }
  MC_CHECK(fired == std::vector<int>{7}, w + ": ran " + Join(fired));
  mc::Outcome(w);
}
// Nested scopes: guards run from the inside out, on normal exit, early return and exception.
SCENARIO(nested_scopes, s.quick = 0, s.thorough = 0)
{
  int exit = mc::Choose(3), at = mc::Choose(4);
  std::vector<int> fired;
  auto body = [&](int level, auto& self) -> bool {
    ScopeGuard g([&fired, level] { fired.push_back(level); });
    ScopeGuard empty;
    if (level == at)
    {
      if (exit == 1)
        return true;
      if (exit == 2)
        throw std::runtime_error("x");
    }
    if (level == 3)
      return false;
    bool early = self(level + 1, self);
    MC_CHECK(fired.size() == static_cast<size_t>((exit == 1 ? at : 3) - level), "inner guards ran");
    return early;
  };
  try
  {
    body(0, body);
  }
  catch (const std::runtime_error&)
  {
  }
  std::vector<int> expect;
  for (int i = exit == 0 ? 3 : at; i >= 0; --i)
    expect.push_back(i);
  MC_CHECK(fired == expect, "order " + Join(fired) + " expected " + Join(expect));
  mc::Outcome(N(exit) + N(at));
}
// Actions that use guards themselves.
SCENARIO(actions_with_guards, s.quick = 0, s.thorough = 0)
{
  int how = mc::Choose(4);
  std::vector<int> fired, expect;
  auto inner = std::make_unique<ScopeGuard>([&fired] { fired.push_back(2); });
  ScopeGuard other([&fired] { fired.push_back(3); });
  {
    ScopeGuard g([&] {
      fired.push_back(1);
      if (how == 1)
        inner.reset();
      if (how == 2)
        inner->Swap(other);
      if (how == 3)
      {
        ScopeGuard local([&fired] { fired.push_back(4); });
        other = std::move(local);
      }
    });
    MC_CHECK(fired.empty(), "not yet");
  }
  if (how == 0)
    expect = {1};
  if (how == 1)
    expect = {1, 2};
  if (how == 2)
    expect = {1};
  if (how == 3)
    expect = {1, 3};
  MC_CHECK(fired == expect, "after the scope: " + Join(fired));
  inner.reset();
  if (how != 1)
    expect.push_back(how == 2 ? 3 : 2);
  MC_CHECK(fired == expect, "after the inner one: " + Join(fired));
  other = ScopeGuard{};
  expect.push_back(how == 2 ? 2 : how == 3 ? 4 : 3);
  MC_CHECK(fired == expect, "at the end: " + Join(fired));
  mc::Outcome(Join(fired));
}
// Moving an object that is called by the guard: state of the callable counts once.
SCENARIO(callable_kinds, s.quick = 0, s.thorough = 0)
{
  int kind = mc::Choose(5), moved = mc::Choose(3);
  static int plain;
  plain = 0;
  int calls = 0;
  struct Functor
  {
    int* calls;
    void operator()() { ++*calls; }
  };
  struct Member
  {
    int n = 0;
    void Run() { ++n; }
  } member;
  {
    ScopeGuard g;
    if (kind == 0)
      g = ScopeGuard(+[] { ++plain; });
    if (kind == 1)
      g = ScopeGuard(Functor{&calls});
    if (kind == 2)
      g = ScopeGuard(std::bind(&Member::Run, &member));
    if (kind == 3)
    {
      std::function<void()> f = [&calls] { ++calls; };
      g = ScopeGuard(f);
      f = nullptr;  // the guard has its own copy
    }
    if (kind == 4)
      g = ScopeGuard([&calls, n = 0]() mutable { calls += ++n; });
    MC_CHECK(g.IsValid(), "valid");
    if (moved > 0)
    {
      ScopeGuard h(std::move(g));
      if (moved == 2)
        g = std::move(h);
      MC_CHECK(g.IsValid() == (moved == 2) && h.IsValid() == (moved == 1), "validity follows the action");
    }
    MC_CHECK(plain + calls + member.n == (moved == 1 ? 1 : 0), "moment");
  }
  MC_CHECK(plain + calls + member.n == 1, "ran once");
  mc::Outcome(N(kind) + N(moved));
}
