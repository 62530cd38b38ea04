// Included procedures: every combination of includes up to a bound, run next to the same tree written in place.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/sequence_parser.h>
#include <filesystem>
#include <fstream>
#include <optional>
using namespace uu;
namespace
{
std::string g_log;
// Leaf that counts in a variable; it logs its id, what it reads and what it returns.
class Count : public Instruction
{
public:
  Count() : Instruction("Count")
  {
    AddAttributeDefinition("id").SetMandatory();
    AddAttributeDefinition("var").SetMandatory();
    AddAttributeDefinition("script");
  }
  static void Register()
  {
    if (!GlobalInstructionRegistry().IsRegisteredInstructionName("Count"))
      GlobalInstructionRegistry().RegisterInstruction("Count", []() -> Instruction* { return new Count; });
  }

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    AnyValue v;
    bool ok = ws.GetValue(GetAttributeString("var"), v);
    g_log += GetAttributeString("id") + (ok ? "(" + std::to_string(v.As<int>()) + ")" : "(none)");
    if (ok)
      ws.SetValue(GetAttributeString("var"), AnyValue{sup::dto::int32(v.As<int>() + 1)});
    std::string script = HasAttribute("script") ? GetAttributeString("script") : "S";
    char c = script[m_pos++ % script.size()];
    g_log += c;
    g_log += " ";
    return c == 'N' ? ES::NOT_FINISHED : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  void HaltImpl() override { g_log += "halt:" + GetAttributeString("id") + " "; }
  size_t m_pos = 0;
};
using Attrs = std::vector<std::pair<std::string, std::string>>;
struct X
{
  std::string type;
  Attrs a;
  std::vector<X> k;
  const std::string* Get(const std::string& n) const
  {
    for (auto& p : a)
      if (p.first == n)
        return &p.second;
    return nullptr;
  }
};
struct File
{
  std::vector<X> top;
  std::vector<std::pair<std::string, int>> vars;
};
std::string Text(const X& x)
{
  std::string r = "<" + x.type;
  for (auto& p : x.a)
    r += " " + p.first + "=\"" + p.second + "\"";
  r += ">";
  for (auto& k : x.k)
    r += Text(k);
  return r + "</" + x.type + ">\n";
}
std::string Text(const File& f)
{
  std::string r = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\">\n";
  for (auto& t : f.top)
    r += Text(t);
  r += "<Workspace>";
  for (auto& v : f.vars)
    r += "<Local name=\"" + v.first + "\" type='{\"type\":\"int32\"}' value=\"" + std::to_string(v.second) + "\"/>\n";
  return r + "</Workspace>\n</Procedure>\n";
}
X Leaf(const std::string& id, const std::string& var, const std::string& script = "", const std::string& name = "")
{
  X x{"Count", {{"id", id}, {"var", var}}, {}};
  if (!script.empty())
    x.a.push_back({"script", script});
  if (!name.empty())
    x.a.push_back({"name", name});
  return x;
}

struct World
{
  std::map<std::string, File> files;
  static std::string Normal(const std::string& f) { return std::filesystem::path(f).lexically_normal().string(); }
  const File& At(const std::string& f) const
  {
    auto it = files.find(Normal(f));
    if (it == files.end())
      throw std::string("no such file");
    return it->second;
  }
  static std::string Resolve(const std::string& base, const std::string& f)
  {
    if (f[0] == '/')
      return f;
    auto p = base.find_last_of('/');
    return p == std::string::npos ? f : base.substr(0, p + 1) + f;
  }
  static const X* Find(const std::vector<X>& l, const std::string& path)
  {
    auto p = path.find('.');
    for (auto& x : l)
    {
      auto* n = x.Get("name");
      if (n && *n == path.substr(0, p))
        return p == std::string::npos ? &x : Find(x.k, path.substr(p + 1));
    }
    return nullptr;
  }
  static const X* Root(const File& f)
  {
    if (f.top.size() == 1)
      return &f.top[0];
    for (auto& x : f.top)
      if (auto* r = x.Get("isRoot"))
        if (*r == "true")
          return &x;
    return nullptr;
  }
  static bool Inc(const X& x) { return x.type == "Include" || x.type == "IncludeProcedure"; }
  static void Fill(X& x, const Attrs& from)
  {
    X src{"", from, {}};
    for (auto& p : x.a)
      if (!p.second.empty() && p.second[0] == '$')
      {
        auto* v = src.Get(p.second.substr(1));
        if (!v)
          throw std::string("no value for " + p.second);
        p.second = *v;
      }
    if (Inc(x))
      for (auto& p : from)
        if (p.first != "name" && p.first != "isRoot" && p.first != "path" && p.first != "file" && !x.Get(p.first))
          x.a.push_back(p);
    for (auto& k : x.k)
      Fill(k, from);
  }
  static std::string Var(const std::string& ws, const std::string& v) { return v + "_" + std::to_string(std::hash<std::string>{}(ws) % 1000000); }
  std::map<std::string, int> used;  // workspaces
  X Expand(X x, const std::string& file, const std::string& ws)
  {
    used[ws] = 1;
    if (x.type == "Count")
    {
      for (auto& p : x.a)
        if (p.first == "var")
          p.second = Var(ws, p.second);
      return x;
    }
    if (x.type == "CopyToProcedure" || x.type == "CopyFromProcedure")
    {
      auto other = Resolve(file, *x.Get("file"));
      At(other);
      used[other] = 1;
      bool to = x.type == "CopyToProcedure";
      return X{"Copy", {{"inputVar", Var(to ? ws : other, *x.Get("inputVar"))}, {"outputVar", Var(to ? other : ws, *x.Get("outputVar"))}}, {}};
    }
    if (Inc(x))
    {
      std::string nf = x.Get("file") ? Resolve(file, *x.Get("file")) : file;
      bool own = x.type == "IncludeProcedure";
      const File& f = At(nf);
      const X* t = x.Get("path") ? Find(f.top, *x.Get("path")) : Root(f);
      if (!t)
        throw std::string("no such instruction");
      X c = *t;
      Fill(c, x.a);
      return Expand(c, nf, own ? nf : ws);
    }
    for (auto& k : x.k)
      k = Expand(k, file, ws);
    return x;
  }
  // The procedure in a file without includes.
  File InPlace(const std::string& f)
  {
    File r;
    used.clear();
    r.top.push_back(Expand(*Root(At(f)), f, f));
    for (auto& u : used)
      for (auto& v : At(u.first).vars)
        r.vars.push_back({Var(u.first, v.first), v.second});
    return r;
  }
};
X Seq(const std::string& name, std::vector<X> k, Attrs more = {})
{
  X x{"Sequence", more, std::move(k)};
  if (!name.empty())
    x.a.insert(x.a.begin(), {"name", name});
  return x;
}
X Node(const std::string& t, Attrs a, std::vector<X> k = {}) { return X{t, std::move(a), std::move(k)}; }

World Library()
{
  World w;
  auto& m = w.files["main.xml"];
  m.vars = {{"v", 0}, {"w", 100}};
  m.top = {Leaf("a", "v", "", "A"),
           Seq("P", {Leaf("$id", "v", "NS"), Leaf("x", "$var")}),
           Node("Include", {{"name", "Q"}, {"path", "P"}}),
           Seq("R", {Node("Include", {{"path", "P"}, {"id", "r"}}), Seq("in", {Leaf("$id", "w", "", "first"), Leaf("i", "w", "NS", "second"), Leaf("$id", "$var", "", "first")})}),
           Node("Include", {{"name", "T"}, {"path", "R"}, {"var", "w"}, {"id", "$other"}}),
           Node("Inverter", {{"name", "I"}}, {Leaf("inv", "v", "NF", "leaf")}),
           Node("IncludeProcedure", {{"name", "B"}, {"file", "dir/lib.xml"}, {"path", "P"}, {"var", "w"}})};
  auto& l = w.files["dir/lib.xml"];
  l.vars = {{"v", 1000}, {"w", 2000}};
  l.top = {Leaf("$id", "$var", "", "P"),
           Node("Include", {{"name", "D"}, {"file", "sub/deep.xml"}, {"path", "P"}, {"id", "d"}, {"var", "v"}}),
           Node("IncludeProcedure", {{"name", "E"}, {"file", "sub/deep.xml"}}),
           Seq("root", {Leaf("l", "v"), Leaf("m", "w", "NS"), Node("Include", {{"path", "E"}})}, {{"isRoot", "true"}}),
           Node("Include", {{"name", "U"}, {"file", "../main.xml"}, {"path", "A"}}),
           Node("IncludeProcedure", {{"name", "O"}, {"file", "lib.xml"}, {"path", "P"}}),
           Seq("C", {Node("CopyToProcedure", {{"file", "sub/deep.xml"}, {"inputVar", "v"}, {"outputVar", "w"}}), Node("Include", {{"path", "E"}}), Node("CopyFromProcedure", {{"file", "sub/deep.xml"}, {"inputVar", "v"}, {"outputVar", "w"}})})};
  auto& d = w.files["dir/sub/deep.xml"];
  d.vars = {{"v", 5000}, {"w", 6000}};
  d.top = {Seq("P", {Leaf("$id", "$var"), Leaf("e", "w")}), Seq("S", {Leaf("f", "v", "NNS"), Node("Include", {{"path", "P"}, {"id", "g"}, {"var", "v"}})}, {{"isRoot", "true"}})};
  // the single instruction of a file is its root; and names that also exist elsewhere
  auto& o = w.files["sub/deep.xml"];
  o.vars = {{"v", 7000}};
  o.top = {Leaf("wrong", "v", "", "P")};
  w.files["dir/dir/lib.xml"] = o;
  return w;
}
const std::vector<X>& Menu()
{
  static std::vector<X> menu = {
    Leaf("-", "v"),
    Node("Include", {{"path", "A"}}),
    Node("Include", {{"path", "P"}, {"id", "1"}, {"var", "v"}}),
    Node("Include", {{"path", "P"}, {"id", "1"}}),  // a value is missing
    Node("Include", {{"path", "Q"}, {"id", "2"}, {"var", "w"}}),
    Node("Include", {{"path", "R"}, {"id", "3"}, {"var", "v"}}),
    Node("Include", {{"path", "R.in"}, {"id", "4"}, {"var", "v"}}),
    Node("Include", {{"path", "R.in.second"}}),
    Node("Include", {{"path", "T"}, {"other", "5"}}),
    Node("Include", {{"path", "I"}}),
    Node("Include", {{"path", "I.leaf"}}),
    Node("Include", {{"path", "B"}, {"id", "6"}}),
    Node("Include", {{"path", "Z"}}),    // there is no such instruction
    Node("Include", {{"path", "A.Z"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "P"}, {"id", "7"}, {"var", "w"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "D"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "E"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "U"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "O"}, {"id", "8"}, {"var", "v"}}),
    Node("Include", {{"file", "dir/lib.xml"}, {"path", "C"}}),
    Node("Include", {{"file", "sub/deep.xml"}, {"path", "P"}}),
    Node("IncludeProcedure", {{"file", "dir/lib.xml"}}),
    Node("IncludeProcedure", {{"file", "dir/lib.xml"}, {"path", "P"}, {"id", "9"}, {"var", "v"}}),
    Node("IncludeProcedure", {{"file", "dir/lib.xml"}, {"path", "D"}}),
    Node("IncludeProcedure", {{"file", "dir/lib.xml"}, {"path", "C"}}),
    Node("IncludeProcedure", {{"file", "dir/sub/deep.xml"}}),
    Node("IncludeProcedure", {{"file", "dir/sub/deep.xml"}, {"path", "P"}, {"id", "10"}, {"var", "w"}}),
    Node("IncludeProcedure", {{"file", "dir/lib.xml"}, {"path", "Z"}}),
    Node("IncludeProcedure", {{"file", "lib.xml"}}),  // there is no such file
    Node("IncludeProcedure", {{"file", "sub/deep.xml"}}),
    Node("CopyToProcedure", {{"file", "dir/lib.xml"}, {"inputVar", "w"}, {"outputVar", "v"}}),
    Node("CopyFromProcedure", {{"file", "dir/lib.xml"}, {"inputVar", "w"}, {"outputVar", "v"}}),
    Node("CopyToProcedure", {{"file", "dir/sub/deep.xml"}, {"inputVar", "w"}, {"outputVar", "w"}}),
    Node("CopyFromProcedure", {{"file", "dir/sub/deep.xml"}, {"inputVar", "v"}, {"outputVar", "w"}}),
    // a file that names itself
    Node("Include", {{"file", "main.xml"}, {"path", "A"}}),
    Node("IncludeProcedure", {{"file", "main.xml"}, {"path", "I"}}),
    Node("CopyToProcedure", {{"file", "main.xml"}, {"inputVar", "v"}, {"outputVar", "w"}}),
    Node("CopyFromProcedure", {{"file", "main.xml"}, {"inputVar", "w"}, {"outputVar", "v"}}),
    Node("CopyFromProcedure", {{"file", "dir/no.xml"}, {"inputVar", "v"}, {"outputVar", "w"}}),
  };
  return menu;
}
void Save(const std::string& name, const std::string& text)
{
  static std::map<std::string, std::string> saved;
  if (saved[name] == text)
    return;
  saved[name] = text;
  auto dir = std::filesystem::path(name).parent_path();
  if (!dir.empty())
    std::filesystem::create_directories(dir);
  std::ofstream{name} << text;
}
std::string Dir()
{
  // every explorer has its own files
  static std::string dir = []
  {
    std::string t = std::filesystem::absolute("t11-XXXXXX").string();
    MC_CHECK(mkdtemp(&t[0]), "no scratch directory");
    return t;
  }();
  return dir;
}
struct Result
{
  bool setup = true;
  std::string log;
};
struct Plan
{
  int halt = -1;   // tick after which the tree is halted
  int reset = -1;  // tick after which the procedure is reset
};
Result Run(Procedure& p, Plan plan)
{
  Result r;
  Ui ui;
  g_log.clear();
  try
  {
    p.Setup();
  }
  catch (const std::exception& e)
  {
    r.setup = false;
    r.log = e.what();
    return r;
  }
  for (int run = 0; run < 2; ++run)
  {
    int t = 0;
    while (t < 100)
    {
      if (t == plan.halt)
        p.Halt();
      p.ExecuteSingle(ui);
      g_log += "|";
      g_log += C(p.GetStatus());
      ++t;
      if (t > plan.halt && plan.halt >= 0)
        break;
      if (!NeedsExecute(p.GetStatus()) || (run == 0 && t == plan.reset))
        break;
    }
    p.Reset(ui);
    g_log += "|reset" + std::string(1, C(p.GetStatus())) + " ";
  }
  r.log = g_log;
  return r;
}
void Compare(World& w, const std::string& what, Plan plan)
{
  for (auto& f : w.files)
    Save(Dir() + "/" + f.first, Text(f.second));
  bool possible = true;
  File flat;
  std::string why;
  try
  {
    flat = w.InPlace("main.xml");
  }
  catch (const std::string& s)
  {
    possible = false;
    why = s;
  }
  auto p = ParseProcedureFile(Dir() + "/main.xml");
  auto got = Run(*p, plan);
  MC_CHECK(got.setup == possible, what + ": setup " + (got.setup ? "succeeds although " + why : "fails: " + got.log));
  if (!possible)
    return;
  auto q = ParseProcedureString(Text(flat));
  auto want = Run(*q, plan);
  MC_CHECK(want.setup, what + ": reference: " + Text(flat));
  MC_CHECK(got.log == want.log, what + ": executes\n  " + got.log + "\ninstead of\n  " + want.log + "\nwritten in place:\n" + Text(flat));
}
}  // namespace

// Every sequence of includes, with a reset at every point of the first one
SCENARIO(includes, s.quick = 2, s.thorough = 3)
{
  Count::Register();
  World w = Library();
  int n = 1 + mc::Choose(mc::Depth());
  int wrap = mc::Choose(n == 1 ? 4 : 2);
  std::vector<X> items;
  std::string what;
  for (int k = 0; k < n; ++k)
  {
    items.push_back(Menu()[mc::Choose(static_cast<int>(Menu().size()))]);
    what += Text(items.back());
  }
  auto& top = w.files["main.xml"].top;
  X root = Seq("Root", items, {{"isRoot", "true"}});
  if (wrap == 1)
    root = Node("Repeat", {{"maxCount", "2"}, {"isRoot", "true"}, {"name", "Root"}}, {Seq("inner", items)});
  if (wrap == 2)
    root = Node("Inverter", {{"isRoot", "true"}, {"name", "Root"}}, {Node("Fallback", {}, {Node("Inverter", {}, {Seq("", items)}), Leaf("fb", "w")})});
  if (wrap == 3)
  {
    // an include is the root itself
    root = items[0];
    root.a.push_back({"isRoot", "true"});
  }
  top.insert(mc::Choose(n == 1 ? 2 : 1) ? top.end() : top.begin(), root);
  Plan plan;
  int when = mc::Choose(n == 1 ? 9 : 3);
  if (when >= 1 && when <= 4)
    plan.reset = n == 1 ? when : 2 * when;
  else if (when > 4)
    plan.halt = when - 4;
  Compare(w, what + "wrap " + std::to_string(wrap) + " reset after " + std::to_string(plan.reset) + " halt after " + std::to_string(plan.halt), plan);
}
// How attributes reach nested includes: every way to give or forward two values through three levels.
SCENARIO(placeholders, s.quick = 1, s.thorough = 1)
{
  Count::Register();
  World w;
  auto level = [&](const std::string& name, const std::string& path, const std::string& file)
  {
    X x = Node(mc::Choose(2) && !file.empty() ? "IncludeProcedure" : "Include", {{"name", name}, {"path", path}});
    if (!file.empty())
      x.a.push_back({"file", file});
    const char* ids[] = {nullptr, "fix", "$id", "$other", "$p"};
    const char* vars[] = {nullptr, "w", "$var"};
    if (auto* v = ids[mc::Choose(5)])
      x.a.push_back({"id", v == std::string("fix") ? name : v});
    if (auto* v = vars[mc::Choose(3)])
      x.a.push_back({"var", v});
    return x;
  };
  auto& m = w.files["main.xml"];
  auto& l = w.files["dir/lib.xml"];
  m.vars = {{"v", 0}, {"w", 100}};
  l.vars = {{"v", 1000}, {"w", 2000}};
  l.top = {Seq("P", {Leaf("$id", "$var"), Leaf("$id", "v")}), level("L2", "P", "")};
  m.top = {level("L1", "L2", "dir/lib.xml")};
  X root = Node("Include", {{"path", "L1"}, {"isRoot", "true"}});
  if (mc::Choose(2))
    root.a.push_back({"id", "top"});
  if (mc::Choose(2))
    root.a.push_back({"var", "v"});
  if (mc::Choose(2))
    root.a.push_back({"other", "oth"});
  if (int p = mc::Choose(3))
    root.a.push_back({"p", p == 1 ? "" : "$id"});  // what is given is not looked up again
  m.top.push_back(root);
  Compare(w, Text(m) + Text(l), {});
}
