// Breakpoints of a synchronous runner: every small tree, every set of breakpoints, every control at a stop.
// LIB: full
#include "treemodel.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <algorithm>
using namespace tree;
namespace
{
struct Oracle
{
  std::vector<int> order;  // breakpoints in the order in which they were set
  std::set<int> released;
  bool Has(int i) const { return std::find(order.begin(), order.end(), i) != order.end(); }
  bool Set(int i)
  {
    if (Has(i))
      return false;
    order.push_back(i);
    return true;
  }
  bool Remove(int i)
  {
    if (!Has(i))
      return false;
    order.erase(std::find(order.begin(), order.end(), i));
    released.erase(i);
    return true;
  }
};
std::set<int> Next(Real& r)
{
  std::set<int> s;
  for (auto i : GetNextInstructions(*r.proc))
    s.insert(r.ids.at(i));
  return s;
}
std::string Str(const std::set<int>& s)
{
  std::string r;
  for (int i : s)
    r += std::to_string(i) + " ";
  return "{" + r + "}";
}
void CheckList(const std::string& w, Runner& run, Real& r, const Oracle& o)
{
  std::string a, b;
  for (auto& bp : run.GetBreakpoints())
    a += std::to_string(r.ids.at(bp.GetInstruction())) + (bp.GetStatus() == Breakpoint::kReleased ? "r " : " ");
  for (int i : o.order)
    b += std::to_string(i) + (o.released.count(i) ? "r " : " ");
  MC_CHECK(a == b, w + ": breakpoints " + a + " expected " + b);
}
void Bad(const std::string& w, Runner& run, const Instruction* i)
{
  bool thrown = false;
  try
  {
    run.SetBreakpoint(i);
  }
  catch (const InvalidOperationException&)
  {
    thrown = true;
  }
  MC_CHECK(thrown, w + ": breakpoint on an unknown instruction");
  MC_CHECK(!run.RemoveBreakpoint(i), w + ": removed an unknown breakpoint");
}
void Explore(const Spec& s, int max_controls)
{
  Real r{s};
  r.proc.reset(new Procedure(""));
  r.nodes.clear();
  r.ids.clear();
  r.proc->PushInstruction(r.Build(s));
  Model m{s};
  Runner run{r.ui};
  run.SetProcedure(r.proc.get());
  int n = static_cast<int>(r.nodes.size());
  Oracle o;
  std::string w = s.Str() + " bp";
  int mask = mc::Choose(1 << n);
  for (int i = n; i-- > 0;)
    if (mask & (1 << i))
    {
      w += " " + std::to_string(i);
      MC_CHECK(run.SetBreakpoint(r.nodes[i]) == o.Set(i), w + ": SetBreakpoint");
      MC_CHECK(run.SetBreakpoint(r.nodes[i]) == o.Set(i), w + ": SetBreakpoint again");
    }
  auto other = GlobalInstructionRegistry().Create("Sequence");
  Bad(w, run, other.get());
  Bad(w, run, nullptr);
  CheckList(w, run, r, o);
  int ticks = 0, controls = 0;
  bool expect_stop = false;
  bool stepping = false;
  auto before_tick = [&]
  {
    std::set<int> hit;
    for (int i : Next(r))
      if (o.Has(i) && !o.released.count(i))
        hit.insert(i);
    return hit;
  };
  std::set<int> pred = before_tick();
  std::string bad;
  int limit = 10;
  size_t x0 = 0;
  run.SetTickCallback(
      [&](const Procedure& p)
      {
        // this tick was allowed to happen only when no armed breakpoint was ahead
        if (!stepping && !pred.empty() && bad.empty())
          bad = "tick " + std::to_string(ticks) + " ran over breakpoints " + Str(pred);
        size_t e0 = m.ready_execs.size();
        std::set<int> rel = o.released;
        m.Exec(m.root.get());
        for (size_t e = e0; e < m.ready_execs.size(); ++e)
          if (o.Has(m.ready_execs[e]) && !rel.count(m.ready_execs[e]) && !stepping && bad.empty())
          {
            // an instruction of a repeated body is reached in the tick that restarts the body
            bad = "instruction " + std::to_string(m.ready_execs[e]) + " executed in tick " + std::to_string(ticks) + " in spite of its breakpoint";
          }
        if (States(m)[0] != States(r)[0] && bad.empty())
          bad = "states " + States(r) + " expected " + States(m);
        x0 = r.execs.size();
        ++ticks;
        o.released.clear();
        pred = before_tick();
        if (&p != r.proc.get())
          bad = "tick of another procedure";
        if (ticks >= limit)
          run.Pause();
      });
  for (int call = 0; call < 40; ++call)
  {
    std::string wc = w + " call " + std::to_string(call);
    CheckList(wc, run, r, o);
    pred = before_tick();
    auto before = States(r);
    bool fin = IsFinishedStatus(r.proc->GetStatus());
    int t0 = ticks;
    run.ExecuteProcedure();
    MC_CHECK(bad.empty(), wc + ": " + bad);
    std::set<int> stopped;
    for (auto i : run.GetCurrentBreakpointInstructions())
      MC_CHECK(stopped.insert(r.ids.at(i)).second, wc + ": breakpoint reported twice");
    bool done = IsFinishedStatus(r.proc->GetStatus());
    MC_CHECK(run.IsFinished() == done, wc + ": finished");
    MC_CHECK(run.IsRunning() == (r.proc->GetStatus() == ES::RUNNING), wc + ": running");
    if (done || ticks >= limit)
    {
      MC_CHECK(!fin || ticks == t0, wc + ": executed after the end");
      MC_CHECK(!done || stopped.empty(), wc + ": finished but reports breakpoints " + Str(stopped));
      break;
    }
    // stopped: exactly the armed breakpoints among the next instructions
    auto hit = before_tick();
    MC_CHECK(!hit.empty(), wc + ": stopped without a reason at " + before);
    MC_CHECK(Str(stopped) == Str(hit), wc + ": stopped at " + Str(stopped) + " expected " + Str(hit));
    for (int i : hit)
      o.released.insert(i);
    CheckList(wc, run, r, o);
    if (controls < max_controls)
    {
      int c = mc::Choose(5 + n);
      if (c)
        ++controls;
      if (c == 1)
      {
        int t1 = ticks;
        stepping = true;
        run.ExecuteSingle();
        stepping = false;
        MC_CHECK(bad.empty(), wc + " step: " + bad);
        MC_CHECK(ticks == t1 + 1, wc + ": a step is one tick");
        w += " step";
      }
      else if (c == 2)
      {
        for (int i : stopped)
        {
          MC_CHECK(run.RemoveBreakpoint(r.nodes[i]) == o.Remove(i), wc + ": remove");
          MC_CHECK(run.RemoveBreakpoint(r.nodes[i]) == o.Remove(i), wc + ": remove again");
        }
        w += " remove";
      }
      else if (c == 3)
      {
        // they are set already, which changes nothing: the next call goes on
        for (int i : stopped)
          MC_CHECK(run.SetBreakpoint(r.nodes[i]) == o.Set(i), wc + ": set at a stop");
        w += " set";
      }
      else if (c == 4)
      {
        // the next call stops here again
        run.ResetBreakpoints();
        o.released.clear();
        MC_CHECK(run.GetCurrentBreakpointInstructions().empty(), wc + ": stops after a reset");
        w += " rearm";
      }
      else if (c > 4)
      {
        // a change of a breakpoint: removed when set, set otherwise
        int i = c - 5;
        if (o.Has(i))
        {
          MC_CHECK(run.RemoveBreakpoint(r.nodes[i]) == o.Remove(i), wc + ": remove");
          if (stopped.count(i))
          {
            MC_CHECK(run.SetBreakpoint(r.nodes[i]) == o.Set(i), wc + ": set again");
          }
        }
        else
          MC_CHECK(run.SetBreakpoint(r.nodes[i]) == o.Set(i), wc + ": set");
        w += " change" + std::to_string(i);
      }
    }
  }
  mc::Outcome(std::to_string(ticks) + " " + std::to_string(controls));
}
}  // namespace

SCENARIO(trees, s.quick = 4, s.thorough = 5)
{
  Grammar g{{"S", "F", "NS"}, {U(kInv), U(kRep, 2)}, {kSeq, kFb, kRSeq}};
  int n = 1 + mc::Choose(mc::Depth());
  Explore(ChooseTree(g, n), 1);
}
SCENARIO(controls, s.quick = 3, s.thorough = 4)
{
  Grammar g{{"S", "NS", "NRS"}, {U(kRep, 2)}, {kSeq}};
  int n = 1 + mc::Choose(mc::Depth());
  Explore(ChooseTree(g, n), n == 4 ? 2 : mc::Depth() == 4 ? 3 : 2);
}
// Runners without a procedure, with another one later, and instructions that exist only after the setup.
SCENARIO(procedures, s.quick = 1, s.thorough = 1)
{
  struct Listener : DefaultUserInterface
  {
    void VariableUpdated(const std::string& n, const sup::dto::AnyValue&, bool) override { updates += n; }
    std::string updates;
  } ui;
  const char* kText = R"(<?xml version="1.0" encoding="UTF-8"?>
<Procedure><Repeat name="part" maxCount="2"><Sequence><Succeed/><Copy inputVar="a" outputVar="b"/></Sequence></Repeat>
<Sequence name="main" isRoot="true"><Succeed/><Include path="part"/><Succeed/></Sequence>
<Workspace><Local name="a" type='{"type":"int32"}' value="1"/><Local name="b" type='{"type":"int32"}' value="0"/></Workspace></Procedure>)";
  std::unique_ptr<Procedure> p1 = ParseProcedureString(kText), p2 = ParseProcedureString(kText);
  Runner run{ui};
  auto throws = [&](const Instruction* i)
  {
    try
    {
      run.SetBreakpoint(i);
    }
    catch (const InvalidOperationException&)
    {
      return true;
    }
    return false;
  };
  MC_CHECK(run.IsFinished() && !run.IsRunning() && run.GetBreakpoints().empty(), "without a procedure");
  MC_CHECK(throws(p1->RootInstruction()), "breakpoint without a procedure");
  run.ExecuteProcedure();
  run.ExecuteSingle();
  run.Pause();
  run.Halt();
  run.ResetBreakpoints();
  MC_CHECK(run.IsFinished() && !run.IsRunning() && run.GetCurrentBreakpointInstructions().empty(), "without a procedure");
  auto all = [](const Procedure& p)
  {
    std::vector<const Instruction*> r{p.RootInstruction()};
    for (size_t i = 0; i < r.size(); ++i)
      for (auto c : static_cast<const Instruction*>(r[i])->ChildInstructions())
        r.push_back(c);
    return r;
  };
  run.SetProcedure(p1.get());
  bool second = mc::Choose(2);
  auto first = all(*p1);
  MC_CHECK(first.size() == 8, "instructions " + std::to_string(first.size()));
  if (second)
  {
    for (auto i : first)
      MC_CHECK(run.SetBreakpoint(i), "breakpoint of the first procedure");
    if (mc::Choose(2))
      run.ExecuteProcedure();
    run.SetProcedure(p2.get());
    MC_CHECK(run.GetBreakpoints().empty(), "breakpoints of another procedure");
    for (auto i : first)
      MC_CHECK(throws(i), "breakpoint of another procedure");
  }
  auto& p = second ? p2 : p1;
  auto instrs = all(*p);
  int k = mc::Choose(instrs.size());
  MC_CHECK(run.SetBreakpoint(instrs[k]), "breakpoint " + std::to_string(k));
  // root, Succeed, Include, Succeed; Repeat below Include, its sequence with two leaves
  int stops = 0;
  std::string w = "breakpoint at " + instrs[k]->GetType() + " " + std::to_string(k);
  ui.updates.clear();
  while (!run.IsFinished())
  {
    run.ExecuteProcedure();
    auto cur = run.GetCurrentBreakpointInstructions();
    if (cur.empty())
      break;
    MC_CHECK(cur == std::vector<const Instruction*>{instrs[k]}, w + ": stops elsewhere");
    MC_CHECK(++stops < 10, w + ": stops for ever");
  }
  MC_CHECK(p->GetStatus() == ES::SUCCESS, w + ": does not succeed");
  MC_CHECK(ui.updates.find("b") != std::string::npos, w + ": no updates: " + ui.updates);
  MC_CHECK(stops > 0 || instrs[k]->GetType() == "x", w + ": no stop");
  mc::Outcome(w + " stops " + std::to_string(stops));
  ui.updates.clear();
  if (second)
  {
    p1->GetWorkspace().SetValue("b", sup::dto::AnyValue{sup::dto::int32(9)});
    MC_CHECK(ui.updates.empty(), "updates of a former procedure: " + ui.updates);
  }
  p->GetWorkspace().SetValue("b", sup::dto::AnyValue{sup::dto::int32(8)});
  MC_CHECK(ui.updates == "b", "updates: " + ui.updates);
}
