// Halting a tree between ticks or from within a leaf, at every possible moment, and executing it again.
// LIB: full
#include "treemodel.h"
using namespace tree;
namespace
{
void Halted(const Spec& s, int max_ticks)
{
  int mode = mc::Choose(2);  // 0: halted between ticks, 1: halted by the n-th leaf execution
  int when = mc::Choose(4) + (mode == 1 ? 1 : 0);
  Model m{s};
  Real r{s};
  std::string where = s.Str() + " mode " + std::to_string(mode) + " halt at " + std::to_string(when);
  if (mode == 1)
    r.halt_at = m.halt_at = when;
  int t = 0;
  for (; t < max_ticks && !IsFinishedStatus(r.proc->GetStatus()); ++t)
  {
    if (mode == 0 && t == when)
    {
      r.proc->Halt();
      m.Halt();
    }
    m.Exec(m.root.get());
    r.proc->ExecuteSingle(r.ui);
    std::string w = where + " tick " + std::to_string(t);
    MC_CHECK(Join(m.execs) == Join(r.execs), w + ": leaves executed: " + Join(r.execs) + " prescribed: " + Join(m.execs));
    if (m.root->halt)
      break;
  }
  bool halted = m.root->halt;
  if (halted)
  {
    MC_CHECK(r.proc->RootInstruction()->IsHaltRequested(), where + ": the root knows it was halted");
    size_t n = r.execs.size();
    auto st = r.proc->GetStatus();
    for (int i = 0; i < 3; ++i)
    {
      r.proc->ExecuteSingle(r.ui);
      MC_CHECK(r.execs.size() == n, where + ": a leaf executed after the halt: " + Join(r.execs));
      auto now = r.proc->GetStatus();
      MC_CHECK(now == st || now == ES::FAILURE || now == ES::NOT_FINISHED, where + ": status after the halt " + std::string(1, C(now)));
      MC_CHECK(st == ES::SUCCESS || now != ES::SUCCESS, where + ": success after the halt");
      st = now;
    }
    for (auto i : r.nodes)
      MC_CHECK(i->IsHaltRequested() || !IsExecutingStatus(i->GetStatus()), where + ": an executing instruction did not get the halt");
  }
  mc::Outcome(std::to_string(mode) + (halted ? "h" : "-") + std::to_string(r.execs.size()));
  // after a reset: like a fresh tree
  r.proc->Reset(r.ui);
  r.halt_at = -1;
  m.halt_at = -1;
  m.Reset(m.root.get());
  for (auto i : r.nodes)
  {
    MC_CHECK(!i->IsHaltRequested(), where + ": halt request survives a reset");
    MC_CHECK(i->GetStatus() == ES::NOT_STARTED, where + ": reset");
  }
  for (t = 0; t < max_ticks && !IsFinishedStatus(r.proc->GetStatus()); ++t)
  {
    m.Exec(m.root.get());
    r.proc->ExecuteSingle(r.ui);
    std::string w = where + " after reset tick " + std::to_string(t);
    MC_CHECK(Join(m.execs) == Join(r.execs), w + ": leaves executed: " + Join(r.execs) + " prescribed: " + Join(m.execs));
    MC_CHECK(m.root->st == r.proc->GetStatus(), w + ": status " + std::string(1, C(r.proc->GetStatus())));
  }
}
}  // namespace

SCENARIO(trees, s.quick = 4, s.thorough = 6)
{
  Grammar g{{"S", "F", "NS", "NNF", "RS"}, {U(kInv), U(kForce), U(kRep, 2), U(kRep, -1)}, {kSeq, kFb, kRSeq, kRFb}};
  int n = 1 + mc::Choose(mc::Depth());
  Halted(ChooseTree(g, n), 7);
}
// Halting one subtree only: the rest of the tree is not affected, and the subtree does not execute.
SCENARIO(subtree, s.quick = 4, s.thorough = 5)
{
  Grammar g{{"S", "F", "NS"}, {U(kInv), U(kForce)}, {kSeq, kFb}};
  Spec s = ChooseTree(g, 2 + mc::Choose(mc::Depth() - 1));
  Model m{s};
  Real r{s};
  int victim = mc::Choose(static_cast<int>(r.nodes.size()));
  int when = mc::Choose(3);
  std::function<void(Node*)> halt = [&](Node* n)
  {
    n->halt = true;
    for (auto& k : n->kids)
      halt(k.get());
  };
  for (int t = 0; t < 6 && !IsFinishedStatus(r.proc->GetStatus()); ++t)
  {
    if (t == when)
    {
      const_cast<Instruction*>(r.nodes[victim])->Halt();
      halt(m.nodes[victim]);
    }
    m.Exec(m.root.get());
    r.proc->ExecuteSingle(r.ui);
    std::string w = s.Str() + " victim " + std::to_string(victim) + " tick " + std::to_string(t);
    MC_CHECK(Join(m.execs) == Join(r.execs), w + ": leaves executed: " + Join(r.execs) + " prescribed: " + Join(m.execs));
    for (size_t i = 0; i < r.nodes.size(); ++i)
      MC_CHECK(r.nodes[i]->IsHaltRequested() == m.nodes[i]->halt, w + ": halt request of " + std::to_string(i));
  }
  mc::Outcome(std::to_string(m.execs.size()));
}
