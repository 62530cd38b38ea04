// Reading back what was written: every history of writes, resets, setups and teardowns against a value model.
// LIB: full
#include "wsmodel.h"
#include <sup/oac-tree/anyvalue_utils.h>
#include <sup/oac-tree/generic_utils.h>
#include <cstdio>
#include <sys/stat.h>
#include <unistd.h>
using namespace wsm;
namespace
{
const char* const kStructType = R"({"type":"st","attributes":[{"a":{"type":"int32"}},{"b":{"type":"string"}},{"in":{"type":"","attributes":[{"c":{"type":"uint8"}}]}},{"arr":{"type":"","multiplicity":2,"element":{"type":"uint8"}}}]})";
V St(long long a, const std::string& b, long long c, long long x, long long y)
{
  return T({{"a", N("int32", a)}, {"b", S(b)}, {"in", T({{"c", N("uint8", c)}})}, {"arr", A({N("uint8", x), N("uint8", y)})}}, "st");
}
V R(long long a, long long b, long long c, long long d)
{
  return A({T({{"c", N("uint8", a)}, {"k", A({N("int32", b)})}}), T({{"c", N("uint8", c)}, {"k", A({N("int32", d)})}})});
}
struct Pair
{
  Workspace ws;
  Model m;
  std::string trace;
  Pair()
  {
    Add("x", Local(R"({"type":"uint8"})", "5"), N("uint8", 5), false);
    Add("s", Local(kStructType, R"({"a":-3,"b":"q","in":{"c":1},"arr":[7,8]})"), St(-3, "q", 1, 7, 8), false);
    Add("e", Local("", ""), V{}, false);
    Add("d", Local(R"({"type":"int16"})", "", true), N("int16", 0), true);
    Add("r", Local(R"({"type":"","multiplicity":2,"element":{"type":"","attributes":[{"c":{"type":"uint8"}},{"k":{"type":"","multiplicity":1,"element":{"type":"int32"}}}]}})", ""), R(0, 0, 0, 0), false);
  }
  void Add(const std::string& n, std::unique_ptr<Variable> v, const V& init, bool dyn)
  {
    MC_CHECK(ws.AddVariable(n, std::move(v)), n);
    m.vars[n].init = init;
    m.vars[n].dynamic = dyn;
  }
  void Setup()
  {
    trace += "setup ";
    ws.Setup();
    m.Setup();
  }
  void Set(const std::string& target, const V& v)
  {
    trace += target + ":=" + v.Str() + " ";
    AnyValue av = Build(v);
    bool ok = ws.SetValue(target, av);
    MC_CHECK(ok == m.Set(target, v), trace + ": write returns " + std::to_string(ok));
    MC_CHECK(Read(av) == v, trace + ": the written value changed");
  }
  void Compare(const std::vector<std::string>& targets)
  {
    static const std::vector<V> into = {V{}, N("uint8", 78), S("old")};
    for (auto& t : targets)
      for (size_t i = 0; i < into.size(); ++i)
      {
        AnyValue av = Build(into[i]);
        bool ok = ws.GetValue(t, av);
        auto e = m.Get(t, into[i]);
        MC_CHECK(ok == e.has_value(), trace + ": reading " + t + " into " + into[i].Str() + " returns " + std::to_string(ok));
        V got = Read(av);
        MC_CHECK(got == (ok ? *e : into[i]), trace + ": " + t + " reads " + got.Str() + " instead of " + (ok ? *e : into[i]).Str());
      }
  }
};
const std::vector<std::string> kTargets = {"x", "s", "s.a", "s.b", "s.in", "s.in.c", "s.arr[1]", "s.arr[2]", "s.zz", "e", "e.a", "d", "d.a", "nope", "nope.a", "x.y", "", "r", "r[0]", "r[1].c", "r[1].k[0]", "r[2].c", "r[0].zz", "nope[0]"};
std::vector<V> Pool(bool small)
{
  if (small)
    return {N("int32", 9), N("int32", 300), S("t"), St(1, "u", 2, 3, 4), V{}};
  return {N("uint8", 200), N("int32", 9), N("int32", 300), N("int64", -1), B(true), S("t"), St(1, "u", 2, 3, 4), T({{"a", N("int8", 6)}}), T({{"c", N("int64", 44)}}), A({N("uint8", 1), N("uint8", 2)}), R(1, -2, 3, 4), V{}};
}
void Histories(bool small, const std::vector<std::string>& targets)
{
  Pair p;
  auto pool = Pool(small);
  p.Setup();
  int nt = static_cast<int>(targets.size()), nv = static_cast<int>(pool.size());
  for (int i = 0; i < mc::Depth(); ++i)
  {
    int op = mc::Choose(nt + 4);
    if (op < nt)
      p.Set(targets[op], pool[mc::Choose(nv)]);
    else if (op == nt)
    {
      const char* names[] = {"x", "s", "d", "nope"};
      int k = mc::Choose(4);
      p.trace += std::string("reset-") + names[k] + " ";
      if (!p.m.up)
      {
        // resetting a single variable sets it up
        if (k == 3)
          MC_CHECK(!p.ws.ResetVariable("nope"), p.trace);
        continue;
      }
      bool ok = p.ws.ResetVariable(names[k]);
      MC_CHECK(ok == p.m.Reset(names[k]), p.trace);
    }
    else if (op == nt + 1)
    {
      p.trace += "teardown ";
      p.ws.Teardown();
      p.m.Teardown();
    }
    else if (op == nt + 2)
      p.Setup();
    else
    {
      // the shorter histories are explored through this choice
      p.trace += "stop ";
      i = mc::Depth();
    }
    if (i + 1 >= mc::Depth())
      p.Compare(small ? targets : kTargets);
    MC_CHECK(p.ws.IsSuccessfullySetup() == p.m.up, p.trace);
  }
  mc::Outcome(p.m.vars["x"].cur.Str() + p.m.vars["s"].cur.Str() + p.m.vars["e"].cur.Str() + p.m.vars["d"].cur.Str() + p.m.vars["r"].cur.Str());
}
}  // namespace
SCENARIO(setup_only, s.quick = 1, s.thorough = 1)
{
  Pair p;
  p.Compare(kTargets);
  p.Setup();
  p.Compare(kTargets);
}
SCENARIO(all_writes, s.quick = 2, s.thorough = 2) { Histories(false, kTargets); }
SCENARIO(longer, s.quick = 3, s.thorough = 4) { Histories(true, {"x", "s", "s.a", "s.arr[1]", "e", "d", "r[1].c"}); }
// A chain of writes to the fields of one value.
SCENARIO(fields, s.quick = 2, s.thorough = 3)
{
  Pair p;
  p.Setup();
  for (int i = 0; i < mc::Depth(); ++i)
  {
    const char* t[] = {"s.a", "s.b", "s.in.c", "s.in", "s.arr[0]", "s.arr[1]", "s.arr", "s"};
    const V val[] = {N("int32", 10 + i), N("uint8", 20 + i), N("int64", 70000), S("w" + std::to_string(i)), T({{"c", N("uint8", 30 + i)}}), A({N("uint8", 40 + i), N("uint8", 50 + i)}), A({N("int32", 41 + i), N("int32", 300)})};
    int k = mc::Choose(8);
    p.Set(t[k], val[mc::Choose(7)]);
    p.Compare(kTargets);
  }
}
// Variables kept in a file.
SCENARIO(file_variable, s.quick = 3, s.thorough = 4)
{
  char dir[] = "/tmp/oac-v01-XXXXXX";
  MC_CHECK(mkdtemp(dir) != nullptr, "scratch directory");
  struct Clean
  {
    std::string d;
    ~Clean()
    {
      unlink((d + "/f.json").c_str());
      rmdir((d + "/f.json").c_str());
      rmdir(d.c_str());
    }
  } clean{dir};
  const std::string file = std::string(dir) + "/f.json";
  bool blocked = false;  // a directory stands in the place of the file
  bool relative = mc::Choose(2), pretty = mc::Choose(2);
  std::string trace = relative ? "relative " : "absolute ";
  Workspace ws(relative ? std::string(dir) + "/proc.xml" : "");
  auto v = GlobalVariableRegistry().Create("File");
  v->AddAttribute("file", relative ? "f.json" : std::string(dir) + "/f.json");
  if (pretty)
    v->AddAttribute("pretty", "true");
  ws.AddVariable("f", std::move(v));
  std::vector<std::string> notes, expect;
  bool setting = false;
  ws.RegisterGenericCallback([&](const std::string& n, const AnyValue& x, bool c) {
    notes.push_back(n + Read(x).Str() + (c ? "" : "!"));
    AnyValue now;
    if (setting)
      MC_CHECK(ws.GetValue("f", now) && now == x, trace + ": notified before the value can be read"); });
  bool up = false;
  V cur;
  for (int i = 0; i <= mc::Depth(); ++i)
  {
    int op = i == 0 ? 0 : mc::Choose(11);
    if (op == 10 || (blocked && (op == 2 || op == 3)))
    {
      trace += blocked ? "unblock " : "block ";
      unlink(file.c_str());
      MC_CHECK((blocked ? rmdir(file.c_str()) : mkdir(file.c_str(), 0755)) == 0, "scratch directory");
      blocked = !blocked;
      cur = V{};
    }
    else if (op == 0)
    {
      trace += "setup ";
      ws.Setup();
      if (!up)
        expect.push_back("f" + cur.Str() + (cur.kind == 'e' ? "!" : ""));
      up = true;
    }
    else if (op == 1)
    {
      trace += "teardown ";
      ws.Teardown();
      up = false;
    }
    else if (op == 2)
    {
      trace += "remove ";
      unlink(file.c_str());
      cur = V{};
    }
    else if (op == 3)
    {
      trace += "corrupt ";
      FILE* f = fopen(file.c_str(), "w");
      fputs("[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":", f);
      fclose(f);
      cur = V{};
    }
    else
    {
      const V vals[] = {N("uint8", 3), S("text \"q\" \n"), T({{"a", N("int32", -4)}, {"b", S("")}}), T({{"a", N("int64", 1)}})};
      bool field = op >= 8;
      V nv = field ? (op == 8 ? N("int32", 99) : S("z")) : vals[op - 4];
      trace += std::string(field ? ".a" : "") + ":=" + nv.Str() + " ";
      setting = true;
      bool ok = ws.SetValue(field ? "f.a" : "f", Build(nv));
      setting = false;
      bool expect_ok = up && !blocked;
      if (expect_ok && field)
      {
        V* p = Field(cur, "a");
        expect_ok = cur.kind != 'e' && p;
        if (expect_ok)
          *p = nv;
      }
      else if (expect_ok)
        cur = nv;
      MC_CHECK(ok == expect_ok, trace + ": write returns " + std::to_string(ok));
      if (ok)
        expect.push_back("f" + cur.Str());
    }
    AnyValue got;
    bool ok = ws.GetValue("f", got);
    MC_CHECK(ok == (up && cur.kind != 'e'), trace + ": read returns " + std::to_string(ok));
    if (ok)
      MC_CHECK(Read(got) == cur, trace + ": reads " + Read(got).Str() + " instead of " + cur.Str());
    AnyValue fld;
    ok = ws.GetValue("f.a", fld);
    V* p = Field(cur, "a");
    MC_CHECK(ok == (up && p), trace + ": field read");
    if (ok)
      MC_CHECK(Read(fld) == *p, trace + ": field value");
    MC_CHECK(ws.GetVariable("f")->IsAvailable() == (up && cur.kind != 'e'), trace + ": availability");
    std::string a, b;
    for (auto& x : notes)
      a += x + " ";
    for (auto& x : expect)
      b += x + " ";
    MC_CHECK(a == b, trace + ": notified " + a + "instead of " + b);
  }
}
