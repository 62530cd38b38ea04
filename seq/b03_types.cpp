// Types named by a preamble: found relative to the procedure's file, registered in order, before the variables.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/sequence_parser.h>
#include <filesystem>
#include <fstream>
#include <optional>
#include <unistd.h>
using namespace uu;
namespace fs = std::filesystem;
namespace
{
const char* const kNs = R"(<?xml version="1.0" encoding="UTF-8"?><Procedure xmlns="http://codac.iter.org/sup/oac-tree" version="1.0" name="p">)";
void WriteFile(const std::string& path, const std::string& text)
{
  std::ofstream f{path, std::ios::binary};
  f << text;
}
std::string Struct(const std::string& name, const std::string& member, const std::string& type = "int32")
{
  return R"({"type":")" + name + R"(","attributes":[{")" + member + R"(":{"type":")" + type + R"("}}]})";
}
// Files named T.json everywhere, each defining T with one member that tells where it was found.
// Directories: "" (working directory), "d", "d/s", "e".
struct Area
{
  std::string abs;
  Area()
  {
    char tmpl[] = "b03XXXXXX";
    if (!mkdtemp(tmpl))
      mc::Fail("harness: mkdtemp");
    old = fs::current_path();
    fs::current_path(tmpl);
    abs = fs::current_path().string();
    for (std::string d : {"d", "d/s", "e"})
      fs::create_directories(d);
    for (std::string d : {"", "d/", "d/s/", "e/"})
    {
      WriteFile(d + "T.json", Struct("T", Member(d)));
      WriteFile(d + "U.json", Struct("U", "in", "T"));
      WriteFile(d + "bad.json", "{\"type\":");
    }
    WriteFile("d/only.json", Struct("T", "only"));
  }
  ~Area()
  {
    fs::current_path(old);
    std::error_code ec;
    fs::remove_all(abs, ec);
  }
  static std::string Member(const std::string& dir)
  {
    std::string m = "at_";
    for (char c : dir)
      if (c != '/')
        m += c;
    return m;
  }
  fs::path old;
};
Area& TheArea()
{
  static Area a;
  return a;
}
struct Reg
{
  bool file;
  std::string text;
};
std::string Attr(const Reg& r)
{
  std::string q;
  for (char c : r.text)
    q += c == '"' ? std::string("&quot;") : std::string(1, c);
  return std::string("<RegisterType ") + (r.file ? "jsonfile" : "jsontype") + "=\"" + q + "\"/>";
}
std::vector<Reg> Regs()
{
  auto& a = TheArea();
  return {{true, "T.json"},   {true, "s/T.json"},          {true, "../T.json"},     {true, "d/T.json"},
          {true, "./T.json"}, {true, a.abs + "/e/T.json"}, {true, "only.json"},     {true, "missing.json"},
          {true, "bad.json"}, {true, "U.json"},            {false, Struct("T", "s")}, {false, Struct("U", "in", "T")},
          {false, Struct("U", "in", "int8")}, {false, "{"}};
}
// Reference: what the registrations of a procedure in directory dir define; nothing when one of them is refused.
struct Defs
{
  std::string t, u;  // the member of T; the member type of U ("T:<member>" when T)
};
std::optional<Defs> Expected(const std::string& dir, const std::vector<Reg>& regs)
{
  Defs d;
  for (auto& r : regs)
  {
    std::string text = r.text;
    if (r.file)
    {
      fs::path p = r.text[0] == '/' ? fs::path(r.text) : dir.empty() ? fs::path(r.text) : fs::path(dir) / r.text;
      p = (p.is_absolute() ? p : fs::path(TheArea().abs) / p).lexically_normal();
      if (!fs::exists(p))
        return {};
      std::ifstream f{p};
      text.assign(std::istreambuf_iterator<char>{f}, {});
    }
    if (text.back() != '}')
      return {};
    if (text.find("\"T\",") != std::string::npos && text.find(R"({"type":"T")") == 0)
    {
      auto at = text.find("[{\"") + 3;
      std::string m = text.substr(at, text.find('"', at) - at);
      if (!d.t.empty() && d.t != m)
        return {};
      d.t = m;
    }
    else
    {
      std::string u = text.find("int8") != std::string::npos ? "int8" : "T:" + d.t;
      if (u == "T:")
        return {};
      if (!d.u.empty() && d.u != u)
        return {};
      d.u = u;
    }
  }
  return d;
}
bool HasField(const sup::dto::AnyValue& v, const std::string& f) { return v.HasField(f); }
void CheckVariables(const Procedure& p, const Defs& d, const std::string& w)
{
  sup::dto::AnyValue v;
  if (!d.t.empty())
  {
    MC_CHECK(p.GetVariableValue("t", v), w + ": variable t has no value");
    MC_CHECK(v.GetTypeName() == "T" && HasField(v, d.t) && v.NumberOfMembers() == 1, w + ": T is not the one with member " + d.t);
  }
  if (!d.u.empty())
  {
    sup::dto::AnyValue x;
    MC_CHECK(p.GetVariableValue("u", x), w + ": variable u has no value");
    MC_CHECK(x.GetTypeName() == "U" && HasField(x, "in"), w + ": U is wrong");
    if (d.u == "int8")
      MC_CHECK(x["in"].GetType() == sup::dto::SignedInteger8Type, w + ": U has another member type");
    else
      MC_CHECK(x["in"].GetTypeName() == "T" && HasField(x["in"], d.u.substr(2)), w + ": U has another T");
  }
}
std::string Variables(const Defs& d)
{
  std::string s = "<Workspace>";
  if (!d.t.empty())
    s += R"(<Local name="t" type='{"type":"T"}' value='{")" + d.t + R"(":5}'/>)";
  if (!d.u.empty())
    s += R"(<Local name="u" type='{"type":"U"}' value='{"in":)" + (d.u == "int8" ? std::string("5") : R"({")" + d.u.substr(2) + R"(":5})") + "}'/>";
  return s + "</Workspace>";
}
const std::vector<std::pair<std::string, std::string>> Places()
{
  auto& a = TheArea();
  return {{"p.xml", ""}, {"d/p.xml", "d"}, {"d/s/p.xml", "d/s"}, {"./p.xml", "."}, {"d/s/../p.xml", "d"}, {a.abs + "/d/p.xml", "d"}, {a.abs + "/p.xml", ""}};
}
}  // namespace

// A procedure from a file, in every place, with up to two or three registrations.
SCENARIO(files, s.quick = 2, s.thorough = 3)
{
  auto places = Places();
  auto& pl = places[mc::Choose(static_cast<int>(places.size()))];
  auto all = Regs();
  std::vector<Reg> regs;
  for (int i = 0; i < mc::Depth(); ++i)
  {
    int c = mc::Choose(static_cast<int>(all.size()) + 1);
    if (!c)
      break;
    regs.push_back(all[c - 1]);
  }
  auto expected = Expected(pl.second, regs);
  std::string text = kNs, w = pl.first + ":";
  for (auto& r : regs)
  {
    text += Attr(r);
    w += " " + r.text;
  }
  text += "<Succeed/>" + Variables(expected.value_or(Defs{})) + "</Procedure>";
  WriteFile(pl.first, text);
  auto p = ParseProcedureFile(pl.first);
  MC_CHECK(p != nullptr, w + ": not accepted");
  bool ok = true;
  try
  {
    p->Setup();
  }
  catch (const std::exception&)
  {
    ok = false;
  }
  MC_CHECK(ok == expected.has_value(), w + (ok ? ": setup accepts it" : ": setup refuses it"));
  if (ok)
  {
    CheckVariables(*p, *expected, w);
    DefaultUserInterface ui;
    p->ExecuteSingle(ui);
    p->Reset(ui);
    bool again = true;
    try
    {
      p->Setup();
    }
    catch (const std::exception&)
    {
      again = false;
    }
    MC_CHECK(again, w + ": setup after a reset is refused");
    CheckVariables(*p, *expected, w + " (again)");
  }
  mc::Outcome(w + (ok ? " ok" : " refused"));
}

// A procedure that uses another one: the types of each are those of its own preamble, from its own place.
SCENARIO(included, s.quick = 1, s.thorough = 1)
{
  struct Case
  {
    const char *main, *main_dir, *file, *dir;
  } cases[] = {{"p.xml", "", "d/q.xml", "d"}, {"d/p.xml", "d", "s/q.xml", "d/s"}, {"d/p.xml", "d", "q.xml", "d"}, {"d/p.xml", "d", "../e/q.xml", "e"}, {"d/s/p.xml", "d/s", "../../q.xml", ""}};
  auto& c = cases[mc::Choose(5)];
  auto all = Regs();
  const int n = static_cast<int>(all.size());
  std::vector<Reg> outer, inner;
  if (int k = mc::Choose(n + 1))
    outer.push_back(all[k - 1]);
  if (int k = mc::Choose(n + 1))
    inner.push_back(all[k - 1]);
  const int how = mc::Choose(3);
  auto eo = Expected(c.main_dir, outer), ei = Expected(c.dir, inner);
  std::string w = std::string(c.main) + " uses " + c.file + " (" + std::to_string(how) + "):";
  std::string q = kNs;
  for (auto& r : inner)
  {
    q += Attr(r);
    w += " inner " + r.text;
  }
  q += "<Copy name=\"X\" inputVar=\"k\" outputVar=\"k\"/>";
  std::string qv = Variables(ei.value_or(Defs{}));
  qv.insert(qv.find('>') + 1, R"(<Local name="k" type='{"type":"int8"}' value='3'/>)");
  q += qv + "</Procedure>";
  std::string p = kNs;
  for (auto& r : outer)
  {
    p += Attr(r);
    w += " outer " + r.text;
  }
  const std::string file = std::string("file=\"") + c.file + "\"";
  if (how == 0)
    p += "<IncludeProcedure " + file + " path=\"X\"/>";
  if (how == 1)
    p += "<CopyFromProcedure " + file + R"( inputVar="k" outputVar="o"/>)";
  if (how == 2)
    p += "<CopyFromProcedure " + file + (ei && !ei->t.empty() ? " inputVar=\"t\"" : " inputVar=\"k\"") + R"( outputVar="any"/>)";
  std::string pv = Variables(eo.value_or(Defs{}));
  pv.insert(pv.find('>') + 1, R"(<Local name="o" type='{"type":"int8"}' value='0'/><Local name="any" dynamicType="true" type='{"type":"int8"}' value='0'/>)");
  p += pv + "</Procedure>";
  WriteFile((fs::path(c.main_dir) / c.file).lexically_normal().string(), q);
  WriteFile(c.main, p);
  auto proc = ParseProcedureFile(c.main);
  bool ok = true;
  try
  {
    proc->Setup();
  }
  catch (const std::exception&)
  {
    ok = false;
  }
  MC_CHECK(ok == (eo.has_value() && ei.has_value()), w + (ok ? ": setup accepts it" : ": setup refuses it"));
  if (ok)
  {
    CheckVariables(*proc, *eo, w);
    DefaultUserInterface ui;
    proc->ExecuteSingle(ui);
    MC_CHECK(proc->GetStatus() == ES::SUCCESS, w + ": it fails");
    sup::dto::AnyValue v;
    if (how == 1)
    {
      MC_CHECK(proc->GetVariableValue("o", v) && v.As<int>() == 3, w + ": the copied value");
    }
    if (how == 2 && !ei->t.empty())
    {
      MC_CHECK(proc->GetVariableValue("any", v) && v.GetTypeName() == "T" && HasField(v, ei->t), w + ": the T of the other procedure");
    }
  }
  mc::Outcome(w + (ok ? " ok" : " refused"));
}
