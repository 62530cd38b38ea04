// Change notifications: every history of writes, resets, setups, teardowns and listener registrations.
// LIB: full
#include "wsmodel.h"
using namespace wsm;
namespace
{
struct Listener
{
  int id;
  int owner;  // -1: none
  std::string var;  // empty: all variables
};
int gOwner[2];
void* Own(int i) { return i < 0 ? nullptr : &gOwner[i]; }
const char* const kNames[] = {"b", "a", "d"};
struct Pair
{
  Workspace ws;
  Model m;
  std::vector<Listener> ls;
  std::unique_ptr<sup::oac_tree::ScopeGuard> guard[2];
  std::vector<std::string> got, want;
  std::string trace;
  int next = 0;
  bool reading = false;  // listeners read the variable they are notified of
  Pair()
  {
    // added in another order than the alphabetical one
    Add("b", Local(R"({"type":"uint8"})", "5"), N("uint8", 5), false);
    Add("d", Local("", "", true), V{}, true);
    Add("a", Local(R"({"type":"st","attributes":[{"x":{"type":"int32"}},{"y":{"type":"string"}}]})", R"({"x":1,"y":"o"})"), T({{"x", N("int32", 1)}, {"y", S("o")}}, "st"), false);
  }
  ~Pair()
  {
    for (auto& g : guard)
      g.reset();
  }
  void Add(const std::string& n, std::unique_ptr<Variable> v, const V& init, bool dyn)
  {
    ws.AddVariable(n, std::move(v));
    m.vars[n].init = init;
    m.vars[n].dynamic = dyn;
  }
  void Register(int owner, const std::string& var)
  {
    int id = next++;
    trace += "listen" + std::to_string(id) + "(" + (var.empty() ? "*" : var) + (owner < 0 ? "" : "/" + std::to_string(owner)) + ") ";
    bool ok;
    if (var.empty())
      ok = ws.RegisterGenericCallback([this, id](const std::string& n, const AnyValue& v, bool c) {
        got.push_back(std::to_string(id) + ":" + n + "=" + Read(v).Str() + (c ? "" : "!"));
        AnyValue now;
        if (reading)
          MC_CHECK(ws.GetValue(n, now) && now == v, trace + ": notified of a value of " + n + " that cannot be read yet");
      }, Own(owner));
    else
      ok = ws.RegisterCallback(var, [this, id](const AnyValue& v, bool c) { got.push_back(std::to_string(id) + ":" + Read(v).Str() + (c ? "" : "!")); }, Own(owner));
    MC_CHECK(ok, trace);
    ls.push_back({id, owner, var});
  }
  void Release(int owner)
  {
    trace += "unlisten" + std::to_string(owner) + " ";
    guard[owner].reset(new sup::oac_tree::ScopeGuard(ws.GetCallbackGuard(Own(owner))));
    guard[owner].reset();
    for (size_t i = 0; i < ls.size();)
      if (ls[i].owner == owner)
        ls.erase(ls.begin() + i);
      else
        ++i;
  }
  // expands the notifications of the model to those of the listeners
  void Compare()
  {
    for (auto& n : m.notes)
    {
      size_t e = n.find('=');
      std::string name = n.substr(0, e), val = n.substr(e + 1);
      for (auto& l : ls)
        if (l.var.empty())
          want.push_back(std::to_string(l.id) + ":" + n);
      for (auto& l : ls)
        if (l.var == name)
          want.push_back(std::to_string(l.id) + ":" + val);
    }
    m.notes.clear();
    std::string g, w;
    for (auto& x : got)
      g += x + " ";
    for (auto& x : want)
      w += x + " ";
    MC_CHECK(g == w, trace + ": notified [" + g + "] instead of [" + w + "]");
    got.clear();
    want.clear();
  }
};
void Histories(bool small)
{
  Pair p;
  const std::vector<std::string> targets = small ? std::vector<std::string>{"b", "a.x", "d"} : std::vector<std::string>{"b", "a", "a.x", "a.y", "a.z", "d", "d.x", "c"};
  const std::vector<V> vals = small ? std::vector<V>{N("int32", 9), N("int64", 300)} : std::vector<V>{N("uint8", 5), N("int32", 9), N("int64", 300), S("w"), T({{"x", N("uint8", 7)}, {"y", S("p")}}), V{}};
  int nt = static_cast<int>(targets.size()), nv = static_cast<int>(vals.size());
  p.Register(-1, "");
  for (int i = 0; i < mc::Depth(); ++i)
  {
    int op = mc::Choose(nt + 6);
    if (op == nt)
    {
      p.trace += "setup ";
      p.ws.Setup();
      p.m.Setup();
    }
    else if (op == nt + 1)
    {
      p.trace += "teardown ";
      p.ws.Teardown();
      p.m.Teardown();
    }
    else if (op == nt + 2)
    {
      const char* names[] = {"b", "a", "c"};
      int k = mc::Choose(small ? 1 : 3);
      p.trace += std::string("reset-") + names[k] + " ";
      MC_CHECK(p.ws.ResetVariable(names[k]) == p.m.Reset(names[k]), p.trace);
    }
    else if (op == nt + 3)
      p.Register(mc::Choose(2), "");
    else if (op == nt + 4)
      p.Register(mc::Choose(small ? 1 : 2), kNames[mc::Choose(small ? 2 : 3)]);
    else if (op == nt + 5)
      p.Release(mc::Choose(2));
    else
    {
      int k = mc::Choose(nv);
      p.trace += targets[op] + ":=" + vals[k].Str() + " ";
      bool ok = p.ws.SetValue(targets[op], Build(vals[k]));
      MC_CHECK(ok == p.m.Set(targets[op], vals[k]), p.trace + ": write returns " + std::to_string(ok));
    }
    p.Compare();
  }
  mc::Outcome(std::to_string(p.ls.size()) + p.m.vars["b"].cur.Str() + p.m.vars["a"].cur.Str());
}
}  // namespace
SCENARIO(histories, s.quick = 3, s.thorough = 4) { Histories(false); }
SCENARIO(longer, s.quick = 5, s.thorough = 6) { Histories(true); }
// After a setup.
SCENARIO(writes, s.quick = 3, s.thorough = 4)
{
  Pair p;
  p.Register(0, "");
  p.Register(1, "a");
  p.Register(0, "b");
  p.Register(1, "b");
  p.ws.Setup();
  p.m.Setup();
  p.Compare();
  p.reading = true;
  const char* t[] = {"b", "a", "a.x", "a.y", "d"};
  const V vals[] = {N("int32", 9), N("int64", 300), S("w"), T({{"x", N("uint8", 7)}, {"y", S("p")}})};
  for (int i = 0; i < mc::Depth(); ++i)
  {
    int op = mc::Choose(6);
    if (op == 5)
      p.Release(mc::Choose(2));
    else
    {
      int k = mc::Choose(4);
      p.trace += std::string(t[op]) + ":=" + vals[k].Str() + " ";
      MC_CHECK(p.ws.SetValue(t[op], Build(vals[k])) == p.m.Set(t[op], vals[k]), p.trace);
    }
    p.Compare();
    // what was notified is what is read
    for (auto n : kNames)
    {
      AnyValue v;
      if (p.ws.GetValue(n, v))
        MC_CHECK(Read(v) == p.m.vars[n].cur, p.trace + n);
    }
  }
}
