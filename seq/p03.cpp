// Plugins: every order of plugins and of what needs them, in every document up to a size, also across files.
// LIB: full
#include "user_util.h"
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable_registry.h>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <set>
using namespace uu;
namespace
{
std::vector<std::string> g_loads;         // attempts to load, in order
std::set<std::string> g_loaded;           // plugins that are loaded
int g_closed = 0, g_created = 0, g_executed = 0;
bool g_active = false;
// Where each kind of instruction and variable comes from
std::string PluginOf(const std::string& type) { return "lib" + type.substr(0, 1) + ".so"; }
bool Exists(const std::string& lib) { return lib == "libA.so" || lib == "libB.so"; }

class Plug : public Instruction
{
public:
  explicit Plug(const std::string& type) : Instruction(type), m_type{type} {}

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    MC_CHECK(g_loaded.count(PluginOf(m_type)), "an instruction executes whose plugin is not loaded");
    ++g_executed;
    return ES::SUCCESS;
  }
  std::string m_type;
};
class PlugVar : public Variable
{
public:
  explicit PlugVar(const std::string& type) : Variable(type) {}

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
};
void Need(const std::string& type)
{
  if (!g_loaded.count(PluginOf(type)))
    throw InvalidOperationException("unknown type " + type);  // as if it were not registered
  ++g_created;
}
template <char C>
Instruction* MakeInstruction()
{
  std::string t = std::string{C} + "Instr";
  Need(t);
  return new Plug{t};
}
template <char C>
Variable* MakeVariable()
{
  std::string t = std::string{C} + "Var";
  Need(t);
  return new PlugVar{t};
}
void RegisterTypes()
{
  static bool once = false;
  if (once)
    return;
  once = true;
  GlobalInstructionRegistry().RegisterInstruction("AInstr", MakeInstruction<'A'>);
  GlobalInstructionRegistry().RegisterInstruction("BInstr", MakeInstruction<'B'>);
  GlobalVariableRegistry().RegisterVariable("AVar", MakeVariable<'A'>);
  GlobalVariableRegistry().RegisterVariable("BVar", MakeVariable<'B'>);
}
void Start()
{
  RegisterTypes();
  g_loads.clear();
  g_loaded.clear();
  g_closed = g_created = g_executed = 0;
}
char g_handle;
std::string Dir()
{
  static std::string dir = []
  {
    std::string t = std::filesystem::absolute("p03-XXXXXX").string();
    MC_CHECK(mkdtemp(&t[0]), "no scratch directory");
    return t;
  }();
  return dir;
}
struct Item
{
  std::string text;
  std::string plugin;             // loaded by it
  std::vector<std::string> needs;  // plugins needed by it
  bool instruction;
};
const std::vector<Item>& Items()
{
  static const std::vector<Item> items = {{"<Plugin>libA.so</Plugin>", "libA.so", {}, false},
                                          {"<Plugin>libB.so</Plugin>", "libB.so", {}, false},
                                          {"<Plugin>libNone.so</Plugin>", "libNone.so", {}, false},
                                          {"<AInstr/>", "", {"libA.so"}, true},
                                          {"<Sequence><Succeed/><Inverter><BInstr/></Inverter></Sequence>", "", {"libB.so"}, true},
                                          {"<Workspace><Local name=\"l\"/><AVar name=\"a\"/><BVar name=\"b\"/></Workspace>", "", {"libA.so", "libB.so"}, false},
                                          {"<RegisterType jsontype='{\"type\":\"P03T\",\"attributes\":[]}'/>", "", {}, false},
                                          {"<Succeed/>", "", {}, true}};
  return items;
}
// What a document does when it is read
struct Reading
{
  std::vector<std::string> loads;
  bool ok = true;
};
Reading Read(const std::vector<int>& doc, std::set<std::string> loaded)
{
  Reading r;
  int workspaces = 0;
  for (int i : doc)
  {
    auto& p = Items()[static_cast<size_t>(i)].plugin;
    if (p.empty())
      continue;
    r.loads.push_back(p);
    if (!Exists(p))
    {
      r.ok = false;
      return r;
    }
    loaded.insert(p);
  }
  for (int i : doc)
  {
    for (auto& n : Items()[static_cast<size_t>(i)].needs)
      if (!loaded.count(n))
        r.ok = false;
    if (Items()[static_cast<size_t>(i)].text.find("<Workspace") == 0 && ++workspaces > 1)
      r.ok = false;  // the same names again
  }
  return r;
}
std::string Text(const std::vector<int>& doc)
{
  std::string r = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\">\n";
  for (int i : doc)
    r += Items()[static_cast<size_t>(i)].text + "\n";
  return r + "</Procedure>\n";
}
// Loading a plugin that is loaded already may be left out.
std::vector<std::string> First(const std::vector<std::string>& v)
{
  std::vector<std::string> r;
  for (auto& s : v)
    if (std::find(r.begin(), r.end(), s) == r.end())
      r.push_back(s);
  return r;
}
std::string List(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& s : v)
    r += " " + s;
  return r;
}
std::vector<int> Document(int max)
{
  std::vector<int> doc;
  int n = mc::Choose(max + 1);
  for (int i = 0; i < n; ++i)
    doc.push_back(mc::Choose(static_cast<int>(Items().size())));
  return doc;
}
struct Active
{
  Active() { g_active = true; }
  ~Active() { g_active = false; }
};
}  // namespace

// The dynamic loader: the plugins of these checks do not exist as files.
extern "C" void* dlopen(const char* name, int flags)
{
  if (g_active && name)
  {
    g_loads.push_back(name);
    if (!Exists(name))
      return nullptr;
    g_loaded.insert(name);
    return &g_handle;
  }
  using F = void* (*)(const char*, int);
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, "dlopen"))(name, flags);
}
extern "C" int dlclose(void* h)
{
  if (h == &g_handle)
  {
    ++g_closed;
    g_loaded.clear();
    return 0;
  }
  using F = int (*)(void*);
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, "dlclose"))(h);
}

// One document, from a string or a file, read once or twice
SCENARIO(documents, s.quick = 5, s.thorough = 6)
{
  Start();
  Active active;
  auto doc = Document(mc::Depth());
  bool file = doc.size() < 4 && mc::Choose(2);
  auto text = Text(doc);
  if (file)
    std::ofstream{Dir() + "/p.xml"} << text;
  auto want = Read(doc, {});
  std::vector<std::unique_ptr<Procedure>> kept;
  for (int round = 0; round < 2; ++round)
  {
    g_loads.clear();
    g_created = 0;
    bool ok = true;
    std::string why;
    try
    {
      kept.push_back(file ? ParseProcedureFile(Dir() + "/p.xml") : ParseProcedureString(text));
    }
    catch (const std::exception& e)
    {
      ok = false;
      why = e.what();
    }
    MC_CHECK(ok == want.ok, (ok ? "accepted:\n" : "refused (" + why + "):\n") + text);
    if (round == 0)
      MC_CHECK(First(g_loads) == First(want.loads), "loaded:" + List(g_loads) + " instead of" + List(want.loads) + "\n" + text);
    bool missing = std::find(want.loads.begin(), want.loads.end(), "libNone.so") != want.loads.end();
    MC_CHECK(!missing || g_created == 0, "created before its plugin was found missing\n" + text);
    MC_CHECK(g_closed == 0, "a plugin was unloaded\n" + text);
    mc::Outcome(List(g_loads) + (ok ? " accepted " : " refused ") + std::to_string(g_created));
    if (!ok)
      break;
    MC_CHECK(kept.back()->GetPreamble().GetPluginPaths() == want.loads, "plugin paths:" + List(kept.back()->GetPreamble().GetPluginPaths()) + "\n" + text);
    // what is written from it loads the same plugins
    auto copy = GetXMLString(*kept.back());
    g_loaded.clear();
    g_loads.clear();
    auto again = ParseProcedureString(copy);
    MC_CHECK(First(g_loads) == First(want.loads), "the written document loads" + List(g_loads) + " instead of" + List(want.loads) + "\n" + copy);
  }
}

// A procedure that uses another file: its plugins are loaded when it is, before anything is made from it.
SCENARIO(included, s.quick = 3, s.thorough = 4)
{
  Start();
  Active active;
  auto inner = Document(mc::Depth());
  bool self = mc::Choose(2);  // the outer procedure has a plugin of its own
  inner.push_back(3 + mc::Choose(2));
  std::ofstream{Dir() + "/inner.xml"} << Text(inner);
  std::string text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\">\n<IncludeProcedure file=\"" + Dir() + "/inner.xml\"/>\n" + (self ? "<Plugin>libA.so</Plugin>" : "") + "<Workspace><Local name=\"l\"/></Workspace></Procedure>\n";
  auto want = Read(inner, self ? std::set<std::string>{"libA.so"} : std::set<std::string>{});
  int roots = 0;
  for (int i : inner)
    roots += Items()[static_cast<size_t>(i)].instruction;
  auto both = text + "inner:\n" + Text(inner);
  auto p = ParseProcedureString(text);
  MC_CHECK(g_loads == (self ? std::vector<std::string>{"libA.so"} : std::vector<std::string>{}), "outer: loaded" + List(g_loads) + "\n" + both);
  for (int round = 0; round < 2; ++round)
  {
    bool ok = true;
    std::string why;
    try
    {
      p->Setup();
    }
    catch (const std::exception& e)
    {
      ok = false;
      why = e.what();
    }
    bool possible = want.ok && roots == 1;
    for (int i : inner)
      possible = possible && Items()[static_cast<size_t>(i)].needs.size() < 2;  // these variables have no value
    if (!want.ok || possible)
      MC_CHECK(ok == possible, (ok ? "set up:\n" : "refused (" + why + "):\n") + both);
    std::vector<std::string> loads = want.loads;
    if (self)
      loads.insert(loads.begin(), "libA.so");
    MC_CHECK(First(g_loads) == First(loads), "loaded:" + List(g_loads) + " instead of" + List(loads) + "\n" + both);
    MC_CHECK(g_closed == 0, "a plugin was unloaded\n" + both);
    mc::Outcome(List(g_loads) + (ok ? " set up " : " refused ") + std::to_string(g_created));
    if (!ok)
      break;
    Ui ui;
    p->ExecuteSingle(ui);
    for (int k = 0; k < 10 && !IsFinishedStatus(p->GetStatus()); ++k)
      p->ExecuteSingle(ui);
    MC_CHECK(!possible || g_executed == round + 1, "the instruction of the plugin was not executed\n" + both);
    p->Reset(ui);
  }
}
