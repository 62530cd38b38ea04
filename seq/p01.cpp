// Documents: every small procedure, written and read; every corruption of a document; against an independent reading.
// LIB: full
#include <sup/oac-tree/application_utils.h>
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/xml/tree_data_parser.h>
#include <filesystem>
#include <fstream>
#include <optional>
#include <set>
#include <unistd.h>
using namespace uu;
namespace
{
using Attrs = std::vector<std::pair<std::string, std::string>>;
struct X
{
  std::string type;
  Attrs a;
  std::vector<X> k;
  std::string content;
  bool operator==(const X& o) const { return type == o.type && a == o.a && k == o.k && content == o.content; }
  const std::string* Get(const std::string& n) const
  {
    for (auto& p : a)
      if (p.first == n)
        return &p.second;
    return nullptr;
  }
};
std::string Escape(const std::string& s)
{
  std::string r;
  for (char c : s)
    switch (c)
    {
    case '<':
      r += "&lt;";
      break;
    case '&':
      r += "&amp;";
      break;
    case '"':
      r += "&#34;";
      break;
    case '\n':
      r += "&#10;";
      break;
    case '\t':
      r += "&#9;";
      break;
    default:
      r += c;
    }
  return r;
}
// styles: 0 plain, 1 with comments and line breaks, 2 other quotes and no self-closing tags
std::string Text(const X& x, int style)
{
  std::string r = "<" + x.type;
  for (auto& p : x.a)
  {
    std::string v = Escape(p.second);
    bool apos = style == 2 && v.find('\'') == std::string::npos;
    r += (style == 1 ? "\n   " : " ") + p.first + (style == 1 ? " = " : "=") + (apos ? "'" : "\"") + v + (apos ? "'" : "\"");
  }
  if (x.k.empty() && x.content.empty() && style != 2)
    return r + "/>";
  r += ">" + Escape(x.content);
  for (auto& k : x.k)
    r += (style == 1 ? "\n<!-- <Fail/> -->\n" : "") + Text(k, style);
  return r + "</" + x.type + (style == 1 ? " >" : ">");
}
std::string Doc(const X& x, int style) { return (style ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + Text(x, style); }
std::string Show(const X& x) { return Text(x, 0); }

// What a procedure consists of
struct Parts
{
  Attrs attributes;
  std::vector<std::pair<bool, std::string>> types;  // from a file
  std::vector<std::string> plugins;
  std::vector<X> tops, vars;
  bool operator==(const Parts& o) const { return attributes == o.attributes && types == o.types && plugins == o.plugins && tops == o.tops && vars == o.vars; }
  std::string Str() const
  {
    std::string r = "attributes";
    for (auto& p : attributes)
      r += " " + p.first + "=" + p.second;
    for (auto& t : types)
      r += (t.first ? "; file " : "; type ") + t.second;
    for (auto& t : plugins)
      r += "; plugin " + t;
    for (auto& t : tops)
      r += "; " + Show(t);
    for (auto& t : vars)
      r += "; var " + Show(t);
    return r;
  }
};
const std::set<std::string> kCompounds{"Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "ReactiveFallback", "Choice", "UserChoice"};
const std::set<std::string> kDecorators{"Inverter", "Repeat", "ForceSuccess", "Async", "Include", "IncludeProcedure", "Listen", "For"};
const std::set<std::string> kLeaves{"Wait", "Succeed", "Fail", "Message", "Increment", "Copy", "Equals", "Log", "Condition", "Output"};
const std::set<std::string> kVariables{"Local", "File"};
const std::set<std::string> kPlugins{"libm.so.6"};
bool IsTree(const X& x)
{
  size_t max = kCompounds.count(x.type) ? 1000 : kDecorators.count(x.type) ? 1 : 0;
  if (!max && !kLeaves.count(x.type))
    return false;
  if (x.k.size() > max)
    return false;
  for (auto& k : x.k)
    if (!IsTree(k))
      return false;
  return true;
}
X Bare(const X& x)
{
  X r{x.type, x.a, {}, ""};
  for (auto& k : x.k)
    r.k.push_back(Bare(k));
  return r;
}
// The procedure that a document denotes, if any
std::optional<Parts> Reading(const X& doc)
{
  if (doc.type != "Procedure")
    return {};
  Parts p;
  p.attributes = doc.a;
  std::set<std::string> names;
  for (auto& k : doc.k)
  {
    if (k.type == "Plugin")
    {
      if (!kPlugins.count(k.content))
        return {};
      p.plugins.push_back(k.content);
    }
    else if (k.type == "RegisterType")
    {
      auto *t = k.Get("jsontype"), *f = k.Get("jsonfile");
      if (!t == !f)
        return {};
      p.types.push_back({f != nullptr, f ? *f : *t});
    }
    else if (k.type == "Workspace")
    {
      for (auto& v : k.k)
      {
        auto* n = v.Get("name");
        if (!kVariables.count(v.type) || !n || n->empty() || !names.insert(*n).second)
          return {};
        p.vars.push_back({v.type, v.a, {}, ""});
      }
    }
    else
    {
      if (!IsTree(k))
        return {};
      p.tops.push_back(Bare(k));
    }
  }
  return p;
}
X Read(const Instruction& i)
{
  X x{i.GetType(), i.GetStringAttributes(), {}, ""};
  for (auto* k : i.ChildInstructions())
    x.k.push_back(Read(*k));
  return x;
}
// What the procedure consists of; names: attributes that it may have
Parts Read(const Procedure& p, const std::vector<std::string>& names)
{
  Parts r;
  for (auto& n : names)
    if (p.HasAttribute(n))
      r.attributes.push_back({n, p.GetAttributeString(n)});
  for (auto& t : p.GetPreamble().GetTypeRegistrations())
    r.types.push_back({t.GetRegistrationMode() == TypeRegistrationInfo::kJSONFile, t.GetString()});
  r.plugins = p.GetPreamble().GetPluginPaths();
  for (auto* t : p.GetTopInstructions())
    r.tops.push_back(Read(*t));
  auto vn = p.GetWorkspace().VariableNames();
  for (auto* v : p.GetWorkspace().GetVariables())
  {
    r.vars.push_back({v->GetType(), v->GetStringAttributes(), {}, ""});
    MC_CHECK(vn.size() >= r.vars.size() && vn[r.vars.size() - 1] == v->GetName(), "variable " + v->GetName() + " is known under another name");
  }
  return r;
}
std::vector<std::string> Names(const X& doc)
{
  std::vector<std::string> r;
  for (auto& p : doc.a)
    r.push_back(p.first);
  for (std::string n : {"tickTimeout", "timingAccuracy", "version", "extra"})
    if (!doc.Get(n))
      r.push_back(n);
  return r;
}
std::unique_ptr<Procedure> Parse(const std::string& text, std::string* what = nullptr)
{
  try
  {
    auto p = ParseProcedureString(text);
    MC_CHECK(p != nullptr, "no procedure and no exception: " + text);
    return p;
  }
  catch (const std::exception& e)
  {
    if (what)
      *what = e.what();
    return nullptr;
  }
}
// Builds the procedure of a document with the programming interface.
std::unique_ptr<Instruction> Make(const X& x)
{
  auto i = GlobalInstructionRegistry().Create(x.type);
  for (auto& p : x.a)
    i->AddAttribute(p.first, p.second);
  int n = 0;
  for (auto& k : x.k)
    i->InsertInstruction(Make(k), n++);
  return i;
}
std::unique_ptr<Procedure> Make(const Parts& parts, int style)
{
  auto p = std::make_unique<Procedure>("");
  for (auto& a : parts.attributes)
    p->AddAttribute(a.first, a.second);
  for (auto& t : parts.types)
    p->GetPreamble().AddTypeRegistration({t.first ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, t.second});
  for (auto& t : parts.plugins)
    p->GetPreamble().AddPluginPath(t);
  for (auto& t : parts.tops)
    p->PushInstruction(Make(t));
  for (auto& v : parts.vars)
  {
    auto x = GlobalVariableRegistry().Create(v.type);
    for (auto& a : v.a)
      // style 1: the variable itself has no name, 2: another name
      if (style == 0 || a.first != "name")
        x->AddAttribute(a.first, a.second);
    if (style == 2)
      x->SetName("other");
    p->AddVariable(*v.Get("name"), std::move(x));
  }
  return p;
}
Attrs Sorted(Attrs a)
{
  std::sort(a.begin(), a.end());
  return a;
}
void RoundTrip(const Procedure& p, const Parts& expected, const std::vector<std::string>& names, const std::string& w, bool names_last = false)
{
  std::string text = GetXMLString(p);
  std::string why;
  auto q = Parse(text, &why);
  MC_CHECK(q != nullptr, w + ": what was written cannot be read: " + why + "\n" + text);
  auto read = Read(*q, names);
  auto e = expected;
  if (names_last)
  {
    for (auto& v : e.vars)
      v.a = Sorted(v.a);
    for (auto& v : read.vars)
      v.a = Sorted(v.a);
  }
  MC_CHECK(read == e, w + ": reads back as " + read.Str() + "\ninstead of " + e.Str());
  MC_CHECK(GetXMLString(*q) == text, w + ": is written differently the second time");
}
X Leaf(int n)
{
  switch (n)
  {
  case 0:
    return {"Succeed", {}, {}, ""};
  case 1:
    return {"Message", {{"text", "a <b> & \"c\""}, {"name", "say"}}, {}, ""};
  default:
    return {"Wait", {{"timeout", "@v"}, {"name", ""}, {"unknown", "$x"}}, {}, ""};
  }
}
X Tree(int depth)
{
  int n = mc::Choose(depth > 1 ? 5 : 3);
  if (n < 3)
    return Leaf(n);
  if (n == 3)
    return {"Inverter", {{"name", "not"}, {"isRoot", "true"}}, {Tree(depth - 1)}, ""};
  X x{"Sequence", {}, {}, ""};
  int k = mc::Choose(3);
  for (int i = 0; i < k; ++i)
    x.k.push_back(Tree(depth - 1));
  return x;
}
const std::vector<X>& Variables()
{
  static const std::vector<X> v = {{"Local", {{"name", "v"}, {"type", R"({"type":"float64"})"}, {"value", "0.0"}}, {}, ""},
                                   {"Local", {{"name", "a b"}, {"note", "line\nbreak"}}, {}, ""},
                                   {"File", {{"file", "f.json"}, {"name", "f"}}, {}, ""}};
  return v;
}
X Document()
{
  X doc{"Procedure", {}, {}, ""};
  int a = mc::Choose(4);
  if (a & 1)
    doc.a.push_back({"version", "1.0"});
  if (a & 2)
  {
    doc.a.push_back({"tickTimeout", "0.25"});
    doc.a.push_back({"timingAccuracy", "1.5"});
  }
  int pre = mc::Choose(4);
  X t{"RegisterType", {{"jsontype", R"({"type":"T","attributes":[]})"}}, {}, ""}, f{"RegisterType", {{"jsonfile", "dir/t.json"}}, {}, ""}, pl{"Plugin", {}, {}, "libm.so.6"};
  std::vector<X> preamble;
  if (pre == 1)
    preamble = {f};
  if (pre == 2)
    preamble = {t, f, t};
  if (pre == 3)
    preamble = {pl, f};
  X ws{"Workspace", {}, {}, ""};
  int vars = mc::Choose(4);
  for (int i = 0; i < vars; ++i)
    ws.k.push_back(Variables()[(i + vars) % 3]);
  std::vector<X> tops;
  int n = mc::Choose(3);
  for (int i = 0; i < n; ++i)
    tops.push_back(Tree(i ? 1 : mc::Depth()));
  // where the elements are: preamble first, last, workspace first, two workspaces
  auto put = [&](const std::vector<X>& l) { doc.k.insert(doc.k.end(), l.begin(), l.end()); };
  int order = mc::Choose(4);
  if (order == 0)
    put(preamble), put(tops), put({ws});
  if (order == 1)
    put({ws}), put(preamble), put(tops);
  if (order == 2)
    put(tops), put({ws}), put(preamble);
  if (order == 3)
  {
    X w1{"Workspace", {}, {}, ""}, w2 = w1;
    for (size_t i = 0; i < ws.k.size(); ++i)
      (i ? w2 : w1).k.push_back(ws.k[i]);
    put({w1}), put(tops), put(preamble), put({w2});
  }
  return doc;
}
}  // namespace

// Every procedure up to a size: read from a document, from a file, or built; then written and read again.
SCENARIO(roundtrip, s.quick = 2, s.thorough = 3)
{
  X doc = Document();
  auto parts = Reading(doc);
  MC_CHECK(parts.has_value(), "harness: " + Show(doc));
  auto names = Names(doc);
  std::string w = Show(doc);
  int how = mc::Choose(6);
  std::unique_ptr<Procedure> p;
  if (how < 3)
  {
    std::string why;
    p = Parse(Doc(doc, how), &why);
    MC_CHECK(p != nullptr, w + ": refused: " + why);
    auto got = Read(*p, names);
    MC_CHECK(got == *parts, w + ": is read as " + got.Str());
    MC_CHECK(p->GetFilename().empty(), w + ": file name");
  }
  else
    p = Make(*parts, how - 3);
  RoundTrip(*p, *parts, names, w, how > 3);
}
SCENARIO(files, s.quick = 1, s.thorough = 2)
{
  X doc = Document();
  auto parts = Reading(doc);
  std::string w = Show(doc);
  char dir[] = "p01XXXXXX";
  MC_CHECK(mkdtemp(dir), "scratch");
  std::string file = std::string(dir) + "/proc.xml";
  std::ofstream(file) << Doc(doc, mc::Choose(3));
  try
  {
    auto p = ParseProcedureFile(file);
    MC_CHECK(p && p->GetFilename() == file, w + ": file name");
    MC_CHECK(Read(*p, Names(doc)) == *parts, w + ": is read as " + Read(*p, Names(doc)).Str());
    RoundTrip(*p, *parts, Names(doc), w);
  }
  catch (const MessageException& e)
  {
    MC_CHECK(false, w + ": refused: " + e.what());
  }
  bool refused = false;
  try
  {
    ParseProcedureFile(file + ".missing");
  }
  catch (const std::exception&)
  {
    refused = true;
  }
  MC_CHECK(refused, "a missing file is accepted");
  std::filesystem::remove_all(dir);
}
// Every text up to a length in every kind of attribute.
SCENARIO(texts, s.quick = 3, s.thorough = 4)
{
  static const char* kAlpha[] = {"<", ">", "&", "\"", "'", "\n", "\t", " ", "@", "$", ".", "a", "0", "\xc3\xa9", "&amp;", "\\", "]]>", "<!--"};
  std::string s;
  int n = mc::Choose(mc::Depth() + 1);
  for (int i = 0; i < n; ++i)
    s += kAlpha[mc::Choose(18)];
  Parts parts;
  parts.attributes = {{"version", s}};
  parts.types = {{false, s}, {true, s}};
  parts.tops = {{"Wait", {{"name", s}, {"timeout", s}, {"x", ""}}, {}, ""}};
  if (!s.empty())
    parts.vars = {{"Local", {{"name", s}, {"value", s}}, {}, ""}};
  auto p = Make(parts, 0);
  RoundTrip(*p, parts, {"version"}, "text '" + s + "'");
}
namespace
{
// Every position of a tree
void Positions(X& x, std::vector<X*>& r)
{
  r.push_back(&x);
  for (auto& k : x.k)
    Positions(k, r);
}
X Base()
{
  return {"Procedure",
          {{"tickTimeout", "0.5"}},
          {{"Plugin", {}, {}, "libm.so.6"},
           {"RegisterType", {{"jsontype", "x"}}, {}, ""},
           {"Sequence", {{"name", "main"}}, {{"Inverter", {}, {{"Fail", {{"name", "f"}}, {}, ""}}, ""}, {"Wait", {{"timeout", "1"}}, {}, ""}}, ""},
           {"Workspace", {}, {{"Local", {{"name", "a"}, {"value", "1"}}, {}, ""}, {"File", {{"name", "b"}, {"file", "f"}}, {}, ""}}, ""}},
          ""};
}
void Judge(const X& doc, const std::string& text)
{
  auto parts = Reading(doc);
  std::string why;
  auto p = Parse(text, &why);
  MC_CHECK((p != nullptr) == parts.has_value(), text + (p ? ": accepted" : ": refused: " + why));
  if (!p)
  {
    MC_CHECK(!why.empty(), text + ": no reason");
    return;
  }
  auto got = Read(*p, Names(doc));
  MC_CHECK(got == *parts, text + ": is read as " + got.Str());
  RoundTrip(*p, *parts, Names(doc), text);
}
const char* kNames[] = {"Procedure", "Plugin", "RegisterType", "Workspace", "Local", "File", "Sequence", "Inverter", "Wait", "Succeed", "Unknown", "sequence", "Include"};
}  // namespace
// Every change (thorough: every two) of one element of a document: renamed, removed, doubled, moved, a child or attribute added, removed or changed.
SCENARIO(corrupt, s.quick = 1, s.thorough = 2)
{
  X doc = Base();
  int n = mc::Depth();
  for (int c = 0; c < n; ++c)
  {
    std::vector<X*> pos;
    Positions(doc, pos);
    int where = mc::Choose(static_cast<int>(pos.size()));
    X& x = *pos[where];
    int what = mc::Choose(9);
    switch (what)
    {
    case 0:
      x.type = kNames[mc::Choose(13)];
      break;
    case 1:
      x.k.insert(x.k.begin(), X{kNames[mc::Choose(13)], {}, {}, ""});
      break;
    case 2:
      x.k.push_back(X{kNames[mc::Choose(13)], {{"name", "a"}}, {}, ""});
      break;
    case 3:
      if (!x.k.empty())
        x.k.erase(x.k.begin() + mc::Choose(static_cast<int>(x.k.size())));
      break;
    case 4:
      if (!x.k.empty())
      {
        X k = x.k[mc::Choose(static_cast<int>(x.k.size()))];
        x.k.push_back(k);
      }
      break;
    case 5:
      if (!x.a.empty())
        x.a.erase(x.a.begin() + mc::Choose(static_cast<int>(x.a.size())));
      break;
    case 6:
      if (!x.a.empty())
        x.a[mc::Choose(static_cast<int>(x.a.size()))].second = mc::Choose(2) ? "" : "b";
      break;
    case 7:
    {
      static const char* a[] = {"jsonfile", "jsontype", "name"};
      std::string an = a[mc::Choose(3)];
      if (!x.Get(an))
        x.a.push_back({an, "b"});
      break;
    }
    case 8:
      x.content = mc::Choose(2) ? "libnothere.so" : "";
      break;
    }
  }
  Judge(doc, Doc(doc, mc::Choose(2)));
}
// The helper of the applications: a procedure and no message, or a message and no procedure.
SCENARIO(safe_parse, s.quick = 0, s.thorough = 0)
{
  int k = mc::Choose(6), before = mc::Choose(2);
  char dir[] = "p01XXXXXX";
  MC_CHECK(mkdtemp(dir), "scratch");
  std::string file = std::string(dir) + "/proc.xml";
  const char* texts[] = {"", "<Procedure>", "<Other/>", "<Procedure><NoSuchInstruction/></Procedure>", nullptr};
  std::string good = Doc(Base(), 0);
  if (k == 5)
    std::ofstream(file) << good;
  else if (texts[k])
    std::ofstream(file) << texts[k];
  std::string message = before ? "from earlier" : "";
  auto proc = utils::SafeParseProcedure(file, message);
  if (k == 5)
  {
    MC_CHECK(proc && message.empty(), "a good file gives '" + message + "'");
    MC_CHECK(proc->GetFilename() == file, "file name");
  }
  else
  {
    MC_CHECK(!proc, "a bad file is accepted");
    MC_CHECK(!message.empty() && message != "from earlier", "a bad file is refused without a message");
  }
  std::filesystem::remove_all(dir);
  mc::Outcome(std::to_string(k));
}
// Every byte of a document removed, changed or made the end: an exception or exactly what the text then says.
SCENARIO(bytes, s.quick = 1, s.thorough = 2)
{
  std::string text = Doc(Base(), 0);
  for (int c = 0; c < mc::Depth(); ++c)
  {
    size_t at = mc::Choose(static_cast<int>(text.size()));
    int what = mc::Choose(c ? 3 : 8);
    static const char kBytes[] = {'<', '>', '"', '/', ' ', '&'};
    if (what == 0)
      text.erase(at, 1);
    else if (what == 1)
      text.resize(at);
    else
      text[at] = kBytes[what - 2];
    if (text.empty())
      break;
  }
  std::unique_ptr<sup::xml::TreeData> data;
  try
  {
    data = sup::xml::TreeDataFromString(text);
  }
  catch (const std::exception&)
  {
  }
  if (!data)
  {
    MC_CHECK(!Parse(text), text + ": accepted");
    return;
  }
  struct Conv
  {
    static X Of(const sup::xml::TreeData& d)
    {
      X x{d.GetNodeName(), d.Attributes(), {}, d.GetContent()};
      for (auto& k : d.Children())
        x.k.push_back(Of(k));
      return x;
    }
  };
  Judge(Conv::Of(*data), text);
}
namespace
{
std::string Run(Procedure& p)
{
  Ui ui;
  std::string r;
  try
  {
    p.Setup();
  }
  catch (const MessageException& e)
  {
    return std::string("setup: ") + e.what();
  }
  for (int i = 0; i < 40 && !IsFinishedStatus(p.GetStatus()); ++i)
  {
    p.ExecuteSingle(ui);
    r += C(p.GetStatus());
  }
  for (auto& s : ui.said)
    r += " " + s;
  for (auto& n : p.VariableNames())
  {
    AnyValue v;
    r += " " + n + (p.GetVariableValue(n, v) ? "=" + wsm::Read(v).Str() : "?");
  }
  return r;
}
X Program(int depth)
{
  int n = mc::Choose(depth > 1 ? 9 : 5);
  switch (n)
  {
  case 0:
    return {"Succeed", {}, {}, ""};
  case 1:
    return {"Fail", {}, {}, ""};
  case 2:
    return {"Message", {{"text", "hi"}}, {}, ""};
  case 3:
    return {"Increment", {{"varName", "n"}}, {}, ""};
  case 4:
    return {"Equals", {{"leftVar", "n"}, {"rightVar", "limit"}}, {}, ""};
  case 5:
    return {"Inverter", {}, {Program(depth - 1)}, ""};
  case 6:
    return {"Repeat", {{"maxCount", "3"}}, {Program(depth - 1)}, ""};
  case 7:
  {
    auto a = Program(depth - 1);
    return {"Sequence", {}, {a, Program(depth - 1)}, ""};
  }
  default:
  {
    auto a = Program(depth - 1);
    return {"Fallback", {}, {a, Program(depth - 1)}, ""};
  }
  }
}
}  // namespace
// The procedure that was read back behaves as the original, also when that was set up or run before it was written.
SCENARIO(behaviour, s.quick = 3, s.thorough = 4)
{
  auto body = Program(mc::Depth() > 3 ? 3 : 2);
  Parts parts;
  bool inc = mc::Choose(2);
  if (inc)
  {
    parts.tops = {{"Sequence", {{"name", "sub"}}, {body, {"Message", {{"text", "$what"}}, {}, ""}}, ""},
                  {"Sequence", {{"isRoot", "true"}}, {{"Include", {{"path", "sub"}, {"what", "one"}}, {}, ""}, {"Include", {{"path", "sub"}, {"what", "two"}}, {}, ""}}, ""}};
  }
  else
    parts.tops = {body};
  if (mc::Depth() == 3 && !inc)
    parts.tops = {{"Sequence", {}, {body, Program(2)}, ""}};
  parts.vars = {{"Local", {{"name", "n"}, {"type", R"({"type":"int32"})"}, {"value", "0"}}, {}, ""}, {"Local", {{"name", "limit"}, {"type", R"({"type":"int32"})"}, {"value", "2"}}, {}, ""}};
  std::string w = parts.Str();
  auto p = Make(parts, 0);
  std::string expected = Run(*p);
  auto q = Make(parts, 0);
  int when = mc::Choose(3);
  if (when)
    q->Setup();
  if (when == 2)
  {
    Ui ui;
    q->ExecuteSingle(ui);
    q->ExecuteSingle(ui);
  }
  std::string text = GetXMLString(*q), why;
  auto r = Parse(text, &why);
  MC_CHECK(r != nullptr, w + ": what was written cannot be read: " + why);
  std::string got = Run(*r);
  MC_CHECK(got == expected, w + ": runs as " + got + " instead of " + expected);
}
