// Choice, For and Repeat: every selection, element list, count and child behaviour up to a bound.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <algorithm>
#include <cstring>
using namespace uu;
using wsm::A;
using wsm::N;
using wsm::S;
using wsm::T;
using wsm::V;
namespace
{
std::string g_steps;
// Scripted leaf; it records its id and what it reads from i.  '+' in front of a result: it also writes to i.
class Leaf : public Instruction
{
public:
  Leaf(int id, std::string script, std::function<void(Workspace&, int)> effect = {}) : Instruction("Leaf"), m_id{id}, m_script{std::move(script)}, m_effect{std::move(effect)} {}
  static std::unique_ptr<Instruction> Make(int id, const std::string& script, std::function<void(Workspace&, int)> effect = {})
  {
    return std::unique_ptr<Instruction>(new Leaf(id, script, std::move(effect)));
  }

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    AnyValue v;
    g_steps += std::to_string(m_id);
    if (ws.HasVariable("i") && ws.GetValue("i", v))
      g_steps += "(" + wsm::Read(v).Str() + ")";
    if (m_effect)
      m_effect(ws, static_cast<int>(m_pos));
    char c = m_script[m_pos++ % m_script.size()];
    g_steps += c;
    g_steps += " ";
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  int m_id;
  std::string m_script;
  std::function<void(Workspace&, int)> m_effect;
  size_t m_pos = 0;
};
// Runs to the end with at most one leaf step in a tick; R of a leaf must show.
char Run(Instruction& i, UserInterface& ui, Workspace& ws, const std::string& w, int max)
{
  int idle = 0;
  for (int t = 0; t < max; ++t)
  {
    auto before = g_steps;
    i.ExecuteSingle(ui, ws);
    auto step = g_steps.substr(before.size());
    auto st = i.GetStatus();
    MC_CHECK(std::count(step.begin(), step.end(), ' ') <= 1, w + ": several steps in a tick: " + g_steps);
    if (!step.empty() && step[step.size() - 2] == 'R')
      MC_CHECK(st == ES::RUNNING, w + ": running shows as " + C(st));
    else
      MC_CHECK(st != ES::RUNNING && st != ES::NOT_STARTED, w + ": status " + C(st) + " after " + g_steps);
    idle = step.empty() ? idle + 1 : 0;
    MC_CHECK(idle <= 1 || !NeedsExecute(st), w + ": makes no progress");
    if (!NeedsExecute(st))
      return C(st);
  }
  return '-';
}
struct Script
{
  const char* s;
  size_t pos = 0;
  // steps of one execution
  char Execute(const std::string& prefix, std::string& out, int& budget)
  {
    for (;;)
    {
      if (budget-- <= 0)
        return '-';
      char c = s[pos++ % strlen(s)];
      out += prefix + c + " ";
      if (c == 'S' || c == 'F')
        return c;
    }
  }
};
}  // namespace

SCENARIO(choice, s.quick = 3, s.thorough = 4)
{
  const char* scripts[] = {"S", "F", "NRS", "SF"};
  int n = 1 + mc::Choose(3);
  std::vector<Script> kids;
  std::string w = "Choice of ";
  for (int k = 0; k < n; ++k)
  {
    kids.push_back({scripts[mc::Choose(4)]});
    w += std::string(kids.back().s) + " ";
  }
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("sel", wsm::Local("", "", true));
  ws.AddVariable("q", wsm::Local(R"({"type":"","attributes":[{"x":{"type":"int32"}}]})", "", true));
  int field = mc::Choose(2);
  std::string name = field ? "q.x" : "sel";
  ws.Setup();
  auto i = Attr(Node("Choice"), "varName", name);
  for (int k = 0; k < n; ++k)
    AppendChildInstruction(*i, Leaf::Make(k, kids[k].s));
  i->Setup(proc);
  for (int run = 0; run < 2; ++run)
  {
    g_steps.clear();
    std::vector<int> list;
    bool valid = true;
    V v;
    int form = run == 0 ? mc::Choose(5) : 1;
    if (form == 0)
    {
      int x = mc::Choose(5) - 1;
      v = N(mc::Choose(2) ? "int64" : "int8", x);
      list = {x};
    }
    else if (form == 1)
    {
      int len = mc::Choose((run == 0 ? mc::Depth() : 2) + 1);
      v = A({});
      for (int k = 0; k < len; ++k)
      {
        bool in = len > 2 || run == 1;
        int x = mc::Choose(in ? n : n + 2) - (in ? 0 : 1);
        list.push_back(x);
        v.kids.push_back({"", N("int32", x)});
      }
      if (len == 0)
        v.kids.clear();
    }
    else if (form == 2)
    {
      v = S("0");
      valid = false;
    }
    else if (form == 3)
    {
      v = T({{"a", N("int32", 0)}});
      valid = false;
    }
    else
      valid = false;  // nothing
    for (int x : list)
      valid = valid && x >= 0 && x < n;
    w += (run ? "| " : ": ") + v.Str() + " ";
    if (v.kind != 'e')
    {
      // arrays of indices
      AnyValue av = wsm::Build(v);
      if (field)
      {
        AnyValue s = sup::dto::EmptyStruct();
        s.AddMember("x", av);
        MC_CHECK(ws.SetValue("q", s), w);
      }
      else
        MC_CHECK(ws.SetValue("sel", av), w);
    }
    else if (run == 0 && field)
      continue;
    std::string want;
    char end = 'S';
    int budget = 1000;
    if (!valid)
      end = 'F';
    else
      for (int x : list)
        if ((end = kids[x].Execute(std::to_string(x), want, budget)) == 'F')
          break;
    // a change of the selection during the execution has no effect
    int change = run == 0 ? mc::Choose(2) : 0;
    if (change && valid && list.size() > 0)
    {
      i->ExecuteSingle(ui, ws);
      w += "(changed) ";
      ws.SetValue(field ? "q" : "sel", AnyValue{sup::dto::int8(99)});
      MC_CHECK(NeedsExecute(i->GetStatus()) || g_steps == want, w + ": ends early");
    }
    char got = NeedsExecute(i->GetStatus()) || i->GetStatus() == ES::NOT_STARTED ? Run(*i, ui, ws, w, 60) : C(i->GetStatus());
    MC_CHECK(g_steps == want, w + ": executes " + g_steps + "instead of " + want);
    MC_CHECK(got == end, w + ": ends as " + got + " instead of " + end);
    i->Reset(ui);
    MC_CHECK(i->GetStatus() == ES::NOT_STARTED, w + ": reset");
  }
}

SCENARIO(loop, s.quick = 3, s.thorough = 5)
{
  const char* scripts[] = {"S", "SF", "NS", "RNS", "SSF", "NF"};
  Script body{scripts[mc::Choose(6)]};
  // what the body does to the variables: nothing, overwrite the element, extend or clear the array, change its elements
  int effect = mc::Choose(5);
  const char* names[] = {"arr", "q.in", "x", "missing"};
  int nm = mc::Choose(4);
  const char* elems[] = {"i", "j.e", "d", "missing", "s", "ro"};
  int el = mc::Choose(nm ? 2 : 6);
  std::string w = std::string("For ") + elems[el] + " in " + names[nm] + " body " + body.s + " effect " + std::to_string(effect) + ": ";
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("arr", wsm::Local("", "", true));
  ws.AddVariable("q", wsm::Local("", "", true));
  ws.AddVariable("x", wsm::Local(R"({"type":"uint8"})", "3"));
  ws.AddVariable("i", wsm::Local(R"({"type":"int16"})", "77"));
  ws.AddVariable("j", wsm::Local(R"({"type":"","attributes":[{"e":{"type":"int16"}}]})", ""));
  ws.AddVariable("d", wsm::Local("", "", true));
  ws.AddVariable("s", wsm::Local(R"({"type":"int32"})", "0"));
  ws.AddVariable("ro", wsm::Local("", ""));
  ws.Setup();
  std::string arr = names[nm];
  auto set = [&](const std::vector<int>& l)
  {
    V v = A({});
    for (int x : l)
      v.kids.push_back({"", N("int16", x)});
    AnyValue av(0, sup::dto::SignedInteger16Type);
    for (int x : l)
      av.AddElement(AnyValue{sup::dto::int16(x)});
    if (nm == 0)
      MC_CHECK(ws.SetValue("arr", av), "array");
    else
    {
      AnyValue s = sup::dto::EmptyStruct();
      s.AddMember("in", av);
      MC_CHECK(ws.SetValue("q", s), "array");
    }
  };
  std::vector<int> now;
  auto act = [&](Workspace&, int)
  {
    if (effect == 1 && el < 2)
      ws.SetValue(elems[el], AnyValue{sup::dto::int16(-5)});
    if (effect == 2)
      set({-1, -2, -3, -4, -5});
    if (effect == 3)
      set({});
    if (effect == 4)
      set(std::vector<int>(now.size(), -9));
  };
  auto i = Attr(Attr(Node("For", Leaf::Make(1, body.s, act)), "arrayVar", arr), "elementVar", elems[el]);
  i->Setup(proc);
  if (effect == 1 && el < 2)
    w += "body writes the element ";
  for (int run = 0; run < 2; ++run)
  {
    g_steps.clear();
    std::vector<int> list;
    int len = mc::Choose(mc::Depth() + 1);
    for (int k = 0; k < len; ++k)
      list.push_back(10 * (run + 1) + k + (run == 0 && k == 2 ? -1 : 0));  // also equal neighbours
    w += "[" + std::to_string(len) + "] ";
    set(list);
    now = list;
    bool ok = nm < 2 && (el < 2 || len == 0);
    std::string want;
    char end = 'S';
    int budget = 1000;
    // what the leaf reads from i
    static std::string cur;
    if (run == 0)
      cur = "77";
    if (!ok)
      end = 'F';
    else
      for (int x : list)
      {
        if (el == 0)
          cur = std::to_string(x);
        std::string steps;
        end = body.Execute("@", steps, budget);
        std::string r;
        for (char c : steps)
        {
          if (c == '@')
            r += "1(int16:" + cur + ")";
          else
            r += c;
          if (c == ' ' && effect == 1 && el == 0)
            cur = "-5";
        }
        want += r;
        if (end == 'F')
          break;
      }
    char got = Run(*i, ui, ws, w, 60);
    MC_CHECK(g_steps == want, w + ": executes " + g_steps + "instead of " + want);
    MC_CHECK(got == end, w + ": ends as " + got + " instead of " + end);
    i->Reset(ui);
  }
}

SCENARIO(repeat, s.quick = 1, s.thorough = 1)
{
  const char* counts[] = {"0", "1", "2", "5", "-1", "-9", "@c", "@neg", "@str", "@none", "2147483647", "-"};
  int n[] = {0, 1, 2, 5, -1, -1, 3, -1, -2, -2, -1, 0};
  const char* scripts[] = {"S", "SF", "NS", "RNS", "SSSF", "SSSSSF", "F"};
  int c = mc::Choose(12);
  Script body{scripts[mc::Choose(7)]};
  std::string w = std::string("Repeat ") + counts[c] + " " + body.s;
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("c", wsm::Local(R"({"type":"uint8"})", "3"));
  ws.AddVariable("neg", wsm::Local(R"({"type":"int8"})", "-3"));
  ws.AddVariable("str", wsm::Local(R"({"type":"string"})", "\"3\""));
  ws.Setup();
  int change = mc::Choose(2);
  auto i = Node("Repeat", Leaf::Make(1, body.s, [&](Workspace& v, int) { if (change) v.SetValue("c", AnyValue{sup::dto::uint8(4)}); }));
  if (c != 11)
    i->AddAttribute("maxCount", counts[c]);
  i->Setup(proc);
  for (int run = 0; run < 2; ++run)
  {
    g_steps.clear();
    int count = n[c];
    if (c == 6 && change && run && body.s[0])
      count = 4;
    std::string want;
    char end = 'S';
    int budget = 60;
    if (count == -2)
      end = 'F';
    for (int k = 0; count == -1 || k < count; ++k)
    {
      end = body.Execute("1", want, budget);
      if (end != 'S')
        break;
    }
    char got = Run(*i, ui, ws, w, 60);
    MC_CHECK(g_steps == want, w + ": executes " + g_steps + "instead of " + want);
    MC_CHECK(got == end, w + ": ends as " + got + " instead of " + end);
    if (end == '-')
      return;
    i->Reset(ui);
  }
}
// A loop over a selection, with a body of several instructions that work on the element.
SCENARIO(nested, s.quick = 3, s.thorough = 4)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  std::vector<int> sel;
  std::string w = "For i: Choice i(";
  int len = 1 + mc::Choose(mc::Depth());
  AnyValue av(0, sup::dto::SignedInteger32Type);
  for (int k = 0; k < len; ++k)
  {
    sel.push_back(mc::Choose(3));
    av.AddElement(AnyValue{sup::dto::int32(sel.back())});
    w += std::to_string(sel.back()) + " ";
  }
  int rep = mc::Choose(3);
  w += ") x " + std::to_string(rep);
  ws.AddVariable("arr", wsm::Local("", "", true));
  ws.AddVariable("idx", wsm::Local(R"({"type":"int32"})", "0"));
  ws.AddVariable("acc", wsm::Local(R"({"type":"int32"})", "0"));
  ws.Setup();
  ws.SetValue("arr", av);
  auto inc = [] { return Attr(Node("Increment"), "varName", "acc"); };
  auto i = Attr(Node("Repeat", Attr(Attr(Node("For", Attr(Node("Choice", Node("Sequence", Leaf::Make(0, "NS"), inc()), Leaf::Make(1, "S"), Attr(Node("Repeat", inc()), "maxCount", "3")), "varName", "idx")), "arrayVar", "arr"), "elementVar", "idx")), "maxCount", std::to_string(rep));
  i->Setup(proc);
  for (int run = 0; run < 2; ++run)
  {
    g_steps.clear();
    std::string want;
    int acc = 0;
    for (int k = 0; k < rep; ++k)
      for (int x : sel)
      {
        want += x == 0 ? "0N 0S " : x == 1 ? "1S " : "";
        acc += x == 0 ? 1 : x == 2 ? 3 : 0;
      }
    ws.SetValue("acc", AnyValue{0});
    int t = 0;
    for (; t < 300 && (NeedsExecute(i->GetStatus()) || i->GetStatus() == ES::NOT_STARTED); ++t)
      i->ExecuteSingle(ui, ws);
    AnyValue v;
    ws.GetValue("acc", v);
    MC_CHECK(g_steps == want, w + ": executes " + g_steps + "instead of " + want);
    MC_CHECK(v.As<int>() == acc, w + ": counts " + std::to_string(v.As<int>()) + " instead of " + std::to_string(acc));
    MC_CHECK(i->GetStatus() == ES::SUCCESS, w + ": status");
    i->Reset(ui);
  }
}
// Long loops: every count and length up to a bound, and one beyond a byte.
SCENARIO(lengths, s.quick = 70, s.thorough = 300)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  int kind = mc::Choose(3);
  int c = mc::Choose(mc::Depth() + 3);
  int n = c == mc::Depth() + 1 ? 300 : c == mc::Depth() + 2 ? 129 : c;
  std::string w = std::string(kind == 0 ? "For over " : kind == 1 ? "Repeat " : "Choice of ") + std::to_string(n);
  AnyValue av(0, sup::dto::SignedInteger32Type);
  for (int k = 0; k < n; ++k)
    av.AddElement(AnyValue{sup::dto::int32(kind == 2 ? k % 2 : k)});
  ws.AddVariable("arr", wsm::Local("", "", true));
  ws.AddVariable("i", wsm::Local(R"({"type":"int32"})", "-1"));
  ws.AddVariable("n", wsm::Local(R"({"type":"uint16"})", std::to_string(n)));
  ws.Setup();
  ws.SetValue("arr", av);
  long runs = 0, sum = 0, other = 0;
  auto leaf = Leaf::Make(0, "S", [&](Workspace& v, int) { AnyValue x; v.GetValue("i", x); ++runs; sum += x.As<int>(); });
  std::unique_ptr<Instruction> i;
  if (kind == 0)
    i = Attr(Attr(Node("For", std::move(leaf)), "arrayVar", "arr"), "elementVar", "i");
  else if (kind == 1)
    i = Attr(Node("Repeat", std::move(leaf)), "maxCount", mc::Choose(2) ? "@n" : std::to_string(n));
  else
    i = Attr(Node("Choice", std::move(leaf), Leaf::Make(1, "S", [&](Workspace&, int) { ++other; })), "varName", "arr");
  i->Setup(proc);
  for (int t = 0; t < 2 * n + 5 && (NeedsExecute(i->GetStatus()) || i->GetStatus() == ES::NOT_STARTED); ++t)
    i->ExecuteSingle(ui, ws);
  MC_CHECK(i->GetStatus() == ES::SUCCESS, w + ": status");
  MC_CHECK(runs == (kind == 2 ? (n + 1) / 2 : n) && other == (kind == 2 ? n / 2 : 0), w + ": executes " + std::to_string(runs) + " times");
  if (kind == 0)
    MC_CHECK(sum == long(n) * (n - 1) / 2, w + ": elements");
}
