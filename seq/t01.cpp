// Sequential tree instructions against the behaviour-tree specification.
// LIB: full
#include "treemodel.h"
#include <sup/oac-tree/exceptions.h>
using namespace tree;
namespace
{
void Compare(const Spec& s, int runs, int max_ticks)
{
  Model m{s};
  Real r{s};
  for (int run = 0; run < runs; ++run)
  {
    std::string where = s.Str() + " run " + std::to_string(run);
    MC_CHECK(r.proc->GetStatus() == ES::NOT_STARTED, where + ": a fresh or reset tree is not started");
    for (int t = 0; t < max_ticks && !IsFinishedStatus(r.proc->GetStatus()); ++t)
    {
      size_t before = r.execs.size();
      m.Exec(m.root.get());
      r.proc->ExecuteSingle(r.ui);
      std::string w = where + " tick " + std::to_string(t);
      MC_CHECK(Join(m.execs) == Join(r.execs), w + ": leaves executed: " + Join(r.execs) + " prescribed: " + Join(m.execs));
      MC_CHECK(r.execs.size() - before <= 1, w + ": more than one leaf step in a tick");
      MC_CHECK(m.root->st == r.proc->GetStatus(), w + ": status " + C(r.proc->GetStatus()) + " prescribed " + C(m.root->st));
    }
    MC_CHECK(IsFinishedStatus(m.root->st) == IsFinishedStatus(r.proc->GetStatus()), where + ": finished");
    // once finished, ticking has no effect
    if (IsFinishedStatus(m.root->st))
    {
      r.proc->ExecuteSingle(r.ui);
      MC_CHECK(Join(m.execs) == Join(r.execs), where + ": a finished tree executed a leaf");
      MC_CHECK(m.root->st == r.proc->GetStatus(), where + ": a finished tree changed status");
    }
    mc::Outcome(std::string(1, C(m.root->st)) + std::to_string(m.execs.size()));
    m.Reset(m.root.get());
    r.proc->Reset(r.ui);
  }
}
}  // namespace

SCENARIO(trees, s.quick = 5, s.thorough = 7)
{
  Grammar g{{"S", "F", "NS", "NF", "SF", "RS"}, {U(kInv), U(kForce), U(kRep, 0), U(kRep, 2), U(kRep, -1)}, {kSeq, kFb}};
  int n = 1 + mc::Choose(mc::Depth());
  Compare(ChooseTree(g, n), 2, 9);
}
// Wider and deeper trees with fewer kinds of leaves.
SCENARIO(wide_trees, s.quick = 8, s.thorough = 10)
{
  Grammar g{{"S", "F"}, {U(kInv)}, {kSeq, kFb}};
  int n = 6 + mc::Choose(mc::Depth() - 5);
  Compare(ChooseTree(g, n), 1, 30);
}
// Number of iterations of nested loops.
SCENARIO(loops, s.quick = 1, s.thorough = 1)
{
  static const int counts[] = {0, 1, 2, 3, 5, -1, -7};
  Spec inner = U(kRep, counts[mc::Choose(7)]);
  Grammar g{{"S", "NS", "SSF", "SSSSF"}, {}, {kSeq, kFb}};
  inner.kids.push_back(ChooseTree(g, 1 + mc::Choose(3)));
  Spec mid;
  int wrap = mc::Choose(4);
  if (wrap == 0)
    mid = inner;
  else
  {
    mid = wrap == 1 ? U(kSeq) : wrap == 2 ? U(kFb) : U(kForce);
    mid.kids.push_back(inner);
    if (wrap < 3)
    {
      Spec l;
      l.script = "SF";
      mid.kids.push_back(l);
    }
  }
  Spec outer = U(kRep, counts[mc::Choose(7)]);
  outer.kids.push_back(mid);
  Compare(outer, 2, 40);
}
// Trees without the children they need are refused.
SCENARIO(missing_children, s.quick = 1, s.thorough = 1)
{
  static const char* types[] = {"Sequence", "Fallback", "Inverter", "ForceSuccess", "Repeat", "ReactiveSequence",
                                "ReactiveFallback", "ParallelSequence", "Async"};
  int k = mc::Choose(9);
  int depth = mc::Choose(3);
  auto instr = GlobalInstructionRegistry().Create(types[k]);
  if (std::string(types[k]) == "Repeat")
    instr->AddAttribute("maxCount", "1");
  for (int i = 0; i < depth; ++i)
  {
    auto outer = GlobalInstructionRegistry().Create(mc::Choose(2) ? "Sequence" : "Inverter");
    AppendChildInstruction(*outer, std::move(instr));
    instr = std::move(outer);
  }
  Procedure p{""};
  p.PushInstruction(std::move(instr));
  bool thrown = false;
  try
  {
    p.Setup();
  }
  catch (const InstructionSetupException&)
  {
    thrown = true;
  }
  MC_CHECK(thrown, std::string("setup accepts a childless ") + types[k]);
  mc::Outcome(types[k]);
}
// The plain leaf instructions.
SCENARIO(leaves, s.quick = 1, s.thorough = 1)
{
  bool ok = mc::Choose(2);
  Real dummy{[] { Spec s; s.script = "S"; return s; }()};
  Procedure p{""};
  p.PushInstruction(GlobalInstructionRegistry().Create(ok ? "Succeed" : "Fail"));
  p.Setup();
  DefaultUserInterface ui;
  for (int i = 0; i < 2; ++i)
  {
    MC_CHECK(p.GetStatus() == ES::NOT_STARTED, "not started");
    p.ExecuteSingle(ui);
    MC_CHECK(p.GetStatus() == (ok ? ES::SUCCESS : ES::FAILURE), "result of Succeed/Fail");
    p.Reset(ui);
  }
}
