// Variable instructions: every instruction with every operand pair, and every short history of them, against the value model.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
using wsm::A;
using wsm::B;
using wsm::N;
using wsm::S;
using wsm::T;
using wsm::V;
namespace
{
// The type of a value.
std::string TypeOf(const V& v)
{
  switch (v.kind)
  {
  case 'n':
  case 'b':
    return v.type;
  case 's':
    return "string";
  case 't':
  {
    std::string r = v.type + "{";
    for (auto& k : v.kids)
      r += k.first + ":" + TypeOf(k.second) + ",";
    return r + "}";
  }
  case 'a':
    return "[" + std::to_string(v.kids.size()) + " " + (v.kids.empty() ? "?" : TypeOf(v.kids[0].second)) + "]";
  }
  return "";
}
int Cmp(const V& a, const V& b)  // -1 0 1, 2: unordered
{
  bool na = a.kind == 'n' || a.kind == 'b', nb = b.kind == 'n' || b.kind == 'b';
  if (na && nb)
    return a.n < b.n ? -1 : a.n > b.n;
  if (a.kind == 's' && b.kind == 's')
    return a.s < b.s ? -1 : a.s > b.s;
  if (a.kind != b.kind || a.kids.size() != b.kids.size())
    return 2;
  for (size_t i = 0; i < a.kids.size(); ++i)
    if (a.kids[i].first != b.kids[i].first || Cmp(a.kids[i].second, b.kids[i].second) != 0)
      return 2;
  return 0;
}
const char* const kKinds[] = {"Copy", "AddElement", "AddMember", "Increment", "Decrement", "ResetVariable", "VarExists", "Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "Condition"};
bool Binary(int k) { return k < 3 || (k >= 7 && k < 12); }
const char* const kStruct = R"({"type":"st","attributes":[{"a":{"type":"int32"}},{"b":{"type":"string"}}]})";
const char* const kArr = R"({"type":"","multiplicity":2,"element":{"type":"uint8"}})";
// Can be read but not written.
class Fixed : public Variable
{
public:
  explicit Fixed(AnyValue v, bool available = true) : Variable("Fixed"), m_v{std::move(v)}, m_available{available} {}

private:
  bool GetValueImpl(AnyValue& v) const override { return sup::dto::TryAssign(v, m_v); }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return m_available; }
  AnyValue m_v;
  bool m_available;
};
struct World
{
  Procedure proc{""};
  Workspace ws;
  wsm::Model m;
  Ui ui;
  std::string w;
  World()
  {
    Add("x", wsm::Local(R"({"type":"uint8"})", "5"), N("uint8", 5), false);
    Add("y", wsm::Local(R"({"type":"int32"})", "5"), N("int32", 5), false);
    Add("z", wsm::Local(R"({"type":"int64"})", "-7"), N("int64", -7), false);
    Add("t", wsm::Local(R"({"type":"bool"})", "true"), B(true), false);
    Add("f", wsm::Local(R"({"type":"bool"})", "false"), B(false), false);
    Add("p", wsm::Local(R"({"type":"string"})", "\"p\""), S("p"), false);
    Add("s", wsm::Local(kStruct, R"({"a":-3,"b":"q"})"), T({{"a", N("int32", -3)}, {"b", S("q")}}, "st"), false);
    Add("ds", wsm::Local(kStruct, R"({"a":-3,"b":"q"})", true), T({{"a", N("int32", -3)}, {"b", S("q")}}, "st"), true);
    Add("r", wsm::Local(kArr, "[5,200]"), A({N("uint8", 5), N("uint8", 200)}), false);
    Add("dr", wsm::Local(kArr, "[7,8]", true), A({N("uint8", 7), N("uint8", 8)}), true);
    Add("dn", wsm::Local(R"({"type":"","attributes":[{"i":{"type":"st","attributes":[{"a":{"type":"int32"}}]}},{"k":{"type":"","multiplicity":1,"element":{"type":"bool"}}}]})", "", true), T({{"i", T({{"a", N("int32", 0)}}, "st")}, {"k", A({B(false)})}}), true);
    Add("e", wsm::Local("", ""), V{}, false);
    Add("de", wsm::Local("", "", true), V{}, true);
    for (auto& f : {std::make_pair("ro", N("int16", 5)), std::make_pair("rs", T({{"a", N("int32", 1)}}, "st")), std::make_pair("ra", A({N("uint8", 1)}))})
    {
      Add(f.first, std::unique_ptr<Variable>(new Fixed(wsm::Build(f.second))), f.second, false);
      m.vars[f.first].fixed = true;
    }
    // can be read, though it is said not to be available
    Add("ru", std::unique_ptr<Variable>(new Fixed(wsm::Build(N("uint8", 5)), false)), N("uint8", 5), false);
    m.vars["ru"].fixed = true;
    Add("das", wsm::Local(R"({"type":"","multiplicity":1,"element":{"type":"st","attributes":[{"a":{"type":"int32"}}]}})", "", true), A({T({{"a", N("int32", 0)}}, "st")}), true);
    ws.Setup();
    m.Setup();
  }
  void Add(const std::string& n, std::unique_ptr<Variable> v, const V& init, bool dyn)
  {
    ws.AddVariable(n, std::move(v));
    m.vars[n].init = init;
    m.vars[n].dynamic = dyn;
  }
  std::unique_ptr<Instruction> Make(int kind, const std::string& a, const std::string& b)
  {
    auto i = Node(kKinds[kind]);
    if (kind < 3)
    {
      i->AddAttribute("inputVar", a);
      i->AddAttribute("outputVar", b);
      if (kind == 2)
        i->AddAttribute("memberName", "mm");
    }
    else if (Binary(kind))
    {
      i->AddAttribute("leftVar", a);
      i->AddAttribute("rightVar", b);
    }
    else
      i->AddAttribute("varName", a);
    i->Setup(proc);
    return i;
  }
  bool Model(int kind, const std::string& a, const std::string& b)
  {
    switch (kind)
    {
    case 5:
      return m.Reset(a);
    case 6:
      return m.Get(a, V{}).has_value();
    case 12:
    {
      auto v = m.Get(a, V{});
      if (!v)
        return false;
      auto c = wsm::Convert(B(false), *v);
      return c && c->n;
    }
    }
    auto in = m.Get(a, V{});
    if (!in)
      return false;
    if (kind == 0)
      return m.Set(b, *in);
    if (kind == 3 || kind == 4)
    {
      if (in->kind != 'n')
        return false;
      in->n += kind == 3 ? 1 : -1;
      return m.Set(a, *in);
    }
    auto out = m.Get(b, V{});
    if (!out)
      return false;
    if (kind == 1)
    {
      if (out->kind != 'a' || TypeOf(out->kids[0].second) != TypeOf(*in))
        return false;
      out->kids.push_back({"", *in});
      return m.Set(b, *out);
    }
    if (kind == 2)
    {
      if (out->kind != 't')
        return false;
      for (auto& k : out->kids)
        if (k.first == "mm")
          return false;
      out->kids.push_back({"mm", *in});
      return m.Set(b, *out);
    }
    int c = Cmp(*in, *out);
    switch (kind)
    {
    case 7:
      return c == 0;
    case 8:
      return c == -1;
    case 9:
      return c == -1 || c == 0;
    case 10:
      return c == 1;
    default:
      return c == 1 || c == 0;
    }
  }
  void CheckAll()
  {
    for (auto& v : m.vars)
    {
      AnyValue got;
      bool ok = ws.GetValue(v.first, got);
      auto want = m.Get(v.first, V{});
      MC_CHECK(ok == want.has_value(), w + ": " + v.first + " is " + (ok ? "" : "not ") + "available");
      if (ok)
        MC_CHECK(wsm::Read(got) == *want, w + ": " + v.first + " is " + wsm::Read(got).Str() + " instead of " + want->Str());
    }
  }
  void Run(Instruction& i, int kind, const std::string& a, const std::string& b)
  {
    w += std::string(kKinds[kind]) + " " + a + (Binary(kind) ? " " + b : "") + "; ";
    bool want = Model(kind, a, b);
    i.ExecuteSingle(ui, ws);
    auto st = i.GetStatus();
    MC_CHECK(st == (want ? ES::SUCCESS : ES::FAILURE), w + " ends as " + C(st) + " instead of " + (want ? "S" : "F"));
    CheckAll();
  }
};
const std::vector<std::string> kNames = {"x", "y", "z", "t", "f", "p", "s", "s.a", "s.b", "s.zz", "ds", "ds.a", "r", "r[0]", "r[1]", "r[2]", "dr", "dr[1]", "dn", "dn.i", "dn.i.a", "dn.k", "e", "de", "ro", "rs", "rs.a", "ra", "ru", "das", "das[0]", "nope", "nope.a"};
}  // namespace

// Every instruction with every pair of operands, after a small preparation, twice.
SCENARIO(single, s.quick = 1, s.thorough = 1)
{
  World p;
  int kind = mc::Choose(13);
  auto& a = kNames[mc::Choose(kNames.size())];
  auto& b = kNames[Binary(kind) ? mc::Choose(kNames.size()) : 0];
  switch (mc::Choose(5))
  {
  case 1:
    p.Run(*p.Make(3, "z", ""), 3, "z", "");
    p.Run(*p.Make(0, "x", "de"), 0, "x", "de");
    p.Run(*p.Make(0, "r", "e"), 0, "r", "e");
    break;
  case 2:
    p.Run(*p.Make(0, "s", "de"), 0, "s", "de");
    p.Run(*p.Make(2, "x", "de"), 2, "x", "de");
    p.Run(*p.Make(0, "y", "e"), 0, "y", "e");
    break;
  case 3:
    p.Run(*p.Make(1, "x", "dr"), 1, "x", "dr");
    p.Run(*p.Make(0, "z", "s.a"), 0, "z", "s.a");
    p.Run(*p.Make(4, "r[0]", ""), 4, "r[0]", "");
    break;
  case 4:
    p.Run(*p.Make(2, "dn.i", "ds"), 2, "dn.i", "ds");
    p.Run(*p.Make(0, "ds", "e"), 0, "ds", "e");
    p.Run(*p.Make(0, "f", "t"), 0, "f", "t");
    break;
  default:
    break;
  }
  auto i = p.Make(kind, a, b);
  p.Run(*i, kind, a, b);
  i->Reset(p.ui);
  p.Run(*i, kind, a, b);
}
// Histories; each instruction object is used again after a reset.
SCENARIO(histories, s.quick = 3, s.thorough = 4)
{
  World p;
  struct I
  {
    int kind;
    const char *a, *b;
  };
  static const I kAll[] = {{0, "x", "de"}, {0, "de", "e"}, {0, "dr", "de"}, {0, "ds", "de"}, {0, "de", "x"}, {0, "de", "ds.a"}, {0, "dr", "r"}, {1, "x", "dr"}, {1, "r[1]", "dr"}, {1, "x", "de"}, {2, "x", "ds"}, {2, "dr", "de"}, {2, "ds", "ds"}, {3, "x", ""}, {3, "ds.mm", ""}, {3, "dr[2]", ""}, {4, "s.a", ""}, {4, "de", ""}, {5, "de", ""}, {5, "ds", ""}, {5, "dr[0]", ""}, {5, "e", ""}, {6, "de", ""}, {6, "ds.mm", ""}, {6, "dr[2]", ""}, {7, "dr", "de"}, {7, "ds", "de"}, {8, "x", "de"}, {11, "de", "x"}, {12, "de", ""}};
  const int n = sizeof kAll / sizeof *kAll;
  std::vector<std::unique_ptr<Instruction>> made(n);
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(n);
    auto& i = made[k];
    auto& c = kAll[k];
    if (i)
      i->Reset(p.ui);
    else
      i = p.Make(c.kind, c.a, c.b);
    p.Run(*i, c.kind, c.a, c.b);
  }
}
