// What observers of a job are told.
// LIB: full
#include "job_util.h"
#include "../seq/treemodel.h"
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace_info.h>
#include <map>
#include <set>
using namespace sup::oac_tree;
using ES = ExecutionStatus;
namespace
{
std::unique_ptr<Variable> Local(const std::string& value)
{
  auto v = GlobalVariableRegistry().Create("Local");
  v->AddAttribute("type", R"({"type":"int32"})");
  v->AddAttribute("value", value);
  return v;
}
// Leaf that writes a variable each time it executes.
class Writer : public Instruction
{
public:
  Writer(std::string script, std::string var, int* counter) : Instruction("Writer"), m_script{std::move(script)}, m_var{std::move(var)}, m_counter{counter} {}

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    int v = m_counter ? ++*m_counter : 100 * ++m_own;
    if (!m_var.empty() && !ws.SetValue(m_var, sup::dto::AnyValue{sup::dto::int32(v)}))
      mc::Fail("cannot write " + m_var);
    return tree::E(m_script[m_pos++ % m_script.size()]);
  }
  std::string m_script, m_var;
  int* m_counter;
  int m_own = 0;
  size_t m_pos = 0;
};
struct Fixture
{
  tree::Spec spec;
  int counter = 0;
  int n = 0;
  ju::Recorder rec;
  const Workspace* ws = nullptr;
  std::vector<const Instruction*> instr;  // by number in the specification
  std::map<int, int> idx;                 // number in the specification -> reported index
  std::map<int, int> back;
  int var_idx = -1;
  std::unique_ptr<LocalJob> job;

  std::unique_ptr<Instruction> Build(const tree::Spec& s)
  {
    static const char* nm[] = {"", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "Inverter", "ForceSuccess", "Repeat"};
    std::unique_ptr<Instruction> r;
    int id = n++;
    if (s.kind == tree::kLeaf)
      r.reset(new Writer(s.script, "x", &counter));
    else
      r = GlobalInstructionRegistry().Create(nm[s.kind]);
    r->SetName("i" + std::to_string(id));
    if (s.kind == tree::kRep)
      r->AddAttribute("maxCount", std::to_string(s.count));
    instr.push_back(r.get());
    for (auto& k : s.kids)
      AppendChildInstruction(*r, Build(k));
    return r;
  }
  // Reads the numbering from the job information.
  void Number()
  {
    auto& info = job->GetInfo();
    MC_CHECK(static_cast<int>(info.GetNumberOfInstructions()) == n, "number of instructions in the job information");
    for (auto i : Flatten(*info.GetRootInstructionInfo()))
      for (auto& a : i->GetAttributes())
        if (a.first == "name")
        {
          int id = std::stoi(a.second.substr(1));
          idx[id] = static_cast<int>(i->GetIndex());
          back[static_cast<int>(i->GetIndex())] = id;
        }
    MC_CHECK(static_cast<int>(back.size()) == n, "indices are not unique");
    for (auto& v : info.GetWorkspaceInfo().GetVariableInfos())
      if (v.first == "x")
        var_idx = static_cast<int>(v.second.GetIndex());
  }
  explicit Fixture(const tree::Spec& s) : spec{s}
  {
    rec.log_instr = rec.log_vars = rec.log_next = true;
    auto proc = std::unique_ptr<Procedure>(new Procedure(""));
    proc->AddVariable("y", Local("5"));
    proc->AddVariable("x", Local("0"));
    proc->PushInstruction(Build(s));
    ws = &proc->GetWorkspace();
    job.reset(new LocalJob(std::move(proc), rec));
    Number();
  }
};
// Log without the part of the set up.
std::vector<std::string> Rest(const std::vector<std::string>& log, size_t from) { return {log.begin() + from, log.end()}; }

// Expected log of commands on a synchronous tree.
struct Expect
{
  tree::Model m;
  tree::Model eager;
  Fixture& f;
  std::map<int, bool> flags;
  std::map<int, char> stat;
  std::vector<std::string> log;
  int counter = 0;
  Expect(Fixture& fx, bool eager_reset) : m{fx.spec}, eager{fx.spec}, f{fx}
  {
    m.eager_reset = eager_reset;
    m.note_execs = true;
  }
  void Drain()
  {
    for (auto& e : m.notes)
    {
      if (e[0] == 'e')
      {
        log.push_back("v:" + std::to_string(f.var_idx) + ":" + std::to_string(++counter));
        continue;
      }
      int id = std::stoi(e.substr(0, e.find(':')));
      stat[id] = e.back();
      Instr(id);
    }
    m.notes.clear();
  }
  void Instr(int id) { log.push_back("i:" + std::to_string(f.idx[id]) + ":" + std::string(1, stat.count(id) ? stat[id] : '-') + (flags[id] ? "b" : "")); }
  bool Finished() { return !tree::Model::Needs(m.root->st); }
  void Tick()
  {
    m.Exec(m.root.get());
    Drain();
  }
  void State(const std::string& s) { log.push_back("s:" + s); }
  void Next()
  {
    // The leaves of the next tick: from a copy that is brought to the same point.
    std::set<int> s;
    if (!Finished())
    {
      tree::Model c{f.spec};
      c.eager_reset = m.eager_reset;
      for (int i = 0; i < ticks_since_reset; ++i)
        c.Exec(c.root.get());
      // scripts of leaves continue over resets: replay the positions
      for (size_t k = 0; k < c.nodes.size(); ++k)
        c.nodes[k]->pos = m.nodes[k]->pos;
      c.execs.clear();
      c.Exec(c.root.get());
      for (int e : c.execs)
        s.insert(f.idx[e]);
    }
    std::string r = "x:";
    for (int i : s)
      r += std::to_string(i) + " ";
    log.push_back(r);
  }
  int ticks_since_reset = 0;
};
std::vector<std::string> SortNext(std::vector<std::string> log)
{
  for (auto& e : log)
    if (e[0] == 'x')
    {
      std::set<int> s;
      std::string num;
      for (char c : e.substr(2))
        if (c == ' ')
        {
          s.insert(std::stoi(num));
          num.clear();
        }
        else
          num += c;
      e = "x:";
      for (int i : s)
        e += std::to_string(i) + " ";
    }
  return log;
}
tree::Grammar Grm(bool repeat)
{
  tree::Grammar g;
  g.leaves = {"S", "F", "NS"};
  g.unary = {tree::U(tree::kInv)};
  if (repeat)
    g.unary.push_back(tree::U(tree::kRep, 2));
  g.compound = {tree::kSeq, tree::kFb};
  return g;
}
// Commands in a history: step, start (to the end), reset, breakpoint changes; each settled.
void Histories(int nodes, int commands, bool repeat)
{
  auto spec = tree::ChooseTree(Grm(repeat), nodes);
  std::string cmds;
  for (int i = 0; i < commands; ++i)
    cmds += "trshbu"[mc::Choose(6)];  // sTep, Run, reSet, Halt, Breakpoint, Unset
  std::string w = spec.Str() + " " + cmds;
  Fixture f(spec);
  ju::Settle();
  auto start = mc::GetLog();
  bool count = false;
  for (auto& e : start)
  {
    if (e[0] == 'n')
    {
      MC_CHECK(e == "n:" + std::to_string(f.n) && !count, w + ": " + e);
      count = true;
    }
    if (e[0] == 'i')
      MC_CHECK(false, w + ": instruction notified before the start");
  }
  MC_CHECK(count, w + ": number of instructions not reported");
  MC_CHECK(ju::Join(ju::Filter(start, "s")) == "s:initial ", w + ": initial state");
  Expect ex(f, false), eg(f, true);
  std::string state = "initial";
  int bp = f.n - 1;  // the last leaf carries the breakpoint
  for (char c : cmds)
  {
    for (auto e : {&ex, &eg})
    {
      auto fin = [&] {
        if (!e->Finished())
          return false;
        e->State(e->m.root->st == ES::SUCCESS ? "succeeded" : "failed");
        return true;
      };
      if (c == 't' && (state == "initial" || state == "paused"))
      {
        e->State("stepping");
        e->Tick();
        ++e->ticks_since_reset;
        e->Next();
        if (!fin())
          e->State("paused");
      }
      else if (c == 'r' && (state == "initial" || state == "paused") && !e->flags[bp])
      {
        e->State("running");
        do
        {
          e->Tick();
          ++e->ticks_since_reset;
          fin();
          e->Next();
        } while (!e->Finished());
      }
      else if (c == 's' && ju::Fin(state))
      {
        e->m.Reset(e->m.root.get());
        e->Drain();
        e->log.push_back("v:" + std::to_string(f.var_idx) + ":0");
        e->log.push_back("v:" + std::to_string(1 - f.var_idx) + ":5");
        e->ticks_since_reset = 0;
        e->State("initial");
      }
      else if (c == 'h' && !ju::Fin(state))
        e->State("halted");
      else if (c == 'b' && !e->flags[bp])
      {
        e->flags[bp] = true;
        e->Instr(bp);
      }
      else if (c == 'u' && e->flags[bp])
      {
        e->flags[bp] = false;
        e->Instr(bp);
      }
      if (e == &eg)
      {
        for (size_t i = e->log.size(); i-- > 0;)
          if (e->log[i][0] == 's')
          {
            state = e->log[i].substr(2);
            break;
          }
      }
    }
    auto instr = static_cast<sup::dto::uint32>(f.idx[bp]);
    if (c == 't')
      f.job->Step();
    else if (c == 'r' && !ex.flags[bp])
      f.job->Start();
    else if (c == 's')
      f.job->Reset();
    else if (c == 'h')
      f.job->Halt();
    else if (c == 'b')
      f.job->SetBreakpoint(instr);
    else if (c == 'u')
      f.job->RemoveBreakpoint(instr);
    ju::Settle(1000000000);
  }
  auto got = SortNext(Rest(mc::GetLog(), start.size()));
  // the variables of a reset workspace may come in any order
  auto norm = [](std::vector<std::string> l) {
    for (size_t i = 1; i < l.size(); ++i)
      if (l[i][0] == 'v' && l[i - 1][0] == 'v' && l[i] < l[i - 1])
        std::swap(l[i], l[i - 1]);
    return ju::Join(l);
  };
  bool ok = norm(got) == norm(ex.log) || norm(got) == norm(eg.log);
  MC_CHECK(ok, w + ": told " + norm(got) + " instead of " + norm(ex.log));
  mc::Outcome(norm(got));
  f.job.reset();
}
// Consistency of the accumulated view, whatever the interleaving.
void CheckView(const std::vector<std::string>& log, const std::string& w, const std::vector<std::string>& flag_changes, const std::map<int, char>& actual, int n)
{
  std::map<int, std::string> view;
  std::map<int, std::string> flags;
  bool count = false;
  for (auto& e : log)
  {
    if (e[0] == 'n')
      count = true;
    if (e[0] != 'i')
      continue;
    MC_CHECK(count, w + ": instruction reported before the number of instructions");
    size_t c = e.find(':', 2);
    int i = std::stoi(e.substr(2, c - 2));
    MC_CHECK(i < n, w + ": index");
    std::string now = e.substr(c + 1);
    std::string before = view.count(i) ? view[i] : "-";
    MC_CHECK(now != before, w + ": " + e + " reported twice: " + ju::Join(log));
    bool fb = before.size() == 2, fn = now.size() == 2;
    if (fb != fn)
    {
      MC_CHECK(now[0] == before[0], w + ": a breakpoint change overwrites the status: " + ju::Join(log));
      flags[i] += fn ? 'b' : 'u';
    }
    else
    {
      std::string step = std::string() + before[0] + now[0];
      bool ok = step[0] == '-' ? step[1] == 'N' || step[1] == 'F' : (step[0] == 'S' || step[0] == 'F') ? step[1] == '-' : true;
      MC_CHECK(ok, w + ": status " + step + " of " + std::to_string(i) + ": " + ju::Join(log));
    }
    view[i] = now;
  }
  for (auto& a : actual)
    MC_CHECK((view.count(a.first) ? view[a.first] : "-")[0] == a.second, w + ": last reported status of " + std::to_string(a.first) + " is not the actual " + a.second + ": " + ju::Join(log));
  for (size_t i = 0; i < flag_changes.size(); ++i)
    MC_CHECK(flags[static_cast<int>(i)] == flag_changes[i], w + ": breakpoint changes of " + std::to_string(i) + ": " + flags[static_cast<int>(i)] + " instead of " + flag_changes[i]);
}
}  // namespace

SCENARIO(leaf, s.quick = 0, s.thorough = 0) { Histories(1, 4, false); }
SCENARIO(two, s.quick = 0, s.thorough = 0) { Histories(2, 3, true); }
SCENARIO(three, s.quick = 0, s.thorough = -1) { Histories(3, 2, false); }
SCENARIO(three_repeat, s.quick = -1, s.thorough = 0) { Histories(3, 3, true); }
SCENARIO(four, s.quick = -1, s.thorough = 0) { Histories(4, 2, false); }

// Controlling commands while the job executes instructions in its own and in other threads.
namespace
{
void Concurrent(const std::string& commands, bool async)
{
  ju::Recorder rec;
  rec.log_instr = rec.log_vars = true;
  auto proc = std::unique_ptr<Procedure>(new Procedure(""));
  proc->AddVariable("x", Local("0"));
  proc->AddVariable("y", Local("0"));
  std::vector<std::unique_ptr<Instruction>> leaf;
  leaf.emplace_back(new Writer("S", "x", nullptr));
  leaf.emplace_back(new Writer("NS", "x", nullptr));
  std::vector<const Instruction*> all{nullptr, leaf[0].get(), leaf[1].get()};
  std::unique_ptr<Instruction> root = ju::Node(async ? "ParallelSequence" : "Sequence", std::move(leaf[0]), std::move(leaf[1]));
  all[0] = root.get();
  proc->PushInstruction(std::move(root));
  auto& ws = proc->GetWorkspace();
  LocalJob job(std::move(proc), rec);
  std::string f;
  for (char c : commands)
  {
    if (c == 'r')
      job.Start();
    else if (c == 't')
      job.Step();
    else if (c == 'p')
      job.Pause();
    else if (c == 'h')
      job.Halt();
    else if (c == 's')
      job.Reset();
    else if (c == 'b')
    {
      job.SetBreakpoint(2);
      if (f.empty() || f.back() == 'u')
        f += 'b';
    }
    else
    {
      job.RemoveBreakpoint(2);
      if (!f.empty() && f.back() == 'b')
        f += 'u';
    }
  }
  ju::Settle(1000000000);
  auto log = mc::GetLog();
  std::string w = (async ? "parallel " : "sequence ") + commands;
  ju::CheckStatePath(log);
  std::map<int, char> actual;
  for (int i = 0; i < 3; ++i)
    actual[i] = ju::C(all[i]->GetStatus());
  CheckView(log, w, {"", "", f}, actual, 3);
  for (int v = 0; v < 2; ++v)
  {
    std::string last = "none", p = "v:" + std::to_string(v) + ":";
    for (auto& e : log)
      if (e.compare(0, p.size(), p) == 0)
        last = e.substr(p.size());
    sup::dto::AnyValue val;
    MC_CHECK(ws.GetValue(v ? "y" : "x", val), w);
    MC_CHECK(last == std::to_string(val.As<sup::dto::int32>()), w + ": last reported value " + last + ", actual " + std::to_string(val.As<sup::dto::int32>()));
  }
  mc::Outcome(ju::Join(log));
}
}  // namespace
SCENARIO(sequence_breakpoints, s.quick = 2, s.thorough = 3)
{
  const char* cmds[] = {"rb", "rbu", "brur", "rbh"};
  Concurrent(cmds[mc::Choose(4)], false);
}
SCENARIO(sequence_control, s.quick = 2, s.thorough = 3)
{
  const char* cmds[] = {"rpr", "rh", "tt", "rhs", "rs"};
  Concurrent(cmds[mc::Choose(5)], false);
}
SCENARIO(parallel_breakpoints, s.quick = 1, s.thorough = 2)
{
  const char* cmds[] = {"rb", "rbu"};
  Concurrent(cmds[mc::Choose(2)], true);
}
SCENARIO(parallel_control, s.quick = 1, s.thorough = 2)
{
  const char* cmds[] = {"r", "rh", "rhs", "tt"};
  Concurrent(cmds[mc::Choose(4)], true);
}
