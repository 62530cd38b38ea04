// Reactive sequence and fallback against their specification, including reset of the other children while a
// child is running, tick by tick.
// LIB: full
#include "treemodel.h"
using namespace tree;
namespace
{
void Compare(const Spec& s, int runs, int max_ticks)
{
  Model m{s};
  Real r{s};
  for (int run = 0; run < runs; ++run)
  {
    std::string where = s.Str() + " run " + std::to_string(run);
    for (int t = 0; t < max_ticks && !IsFinishedStatus(r.proc->GetStatus()); ++t)
    {
      m.Exec(m.root.get());
      r.proc->ExecuteSingle(r.ui);
      std::string w = where + " tick " + std::to_string(t);
      MC_CHECK(Join(m.execs) == Join(r.execs), w + ": leaves executed: " + Join(r.execs) + " prescribed: " + Join(m.execs));
      MC_CHECK(States(m) == States(r), w + ": statuses " + States(r) + " prescribed " + States(m));
    }
    mc::Outcome(std::string(1, C(m.root->st)) + std::to_string(m.execs.size()));
    m.Reset(m.root.get());
    r.proc->Reset(r.ui);
    MC_CHECK(States(m) == States(r), where + ": reset");
  }
}
}  // namespace

SCENARIO(reactive_trees, s.quick = 5, s.thorough = 6)
{
  Grammar g{{"S", "F", "RS", "SF", "RRF", "NS"}, {U(kInv), U(kForce)}, {kRSeq, kRFb, kSeq, kFb}};
  int n = 1 + mc::Choose(mc::Depth());
  Spec s = ChooseTree(g, n);
  if (!s.Has(kRSeq) && !s.Has(kRFb))
    return;
  Compare(s, 2, 8);
}
// One reactive instruction with up to four children of many kinds.
SCENARIO(reactive_flat, s.quick = 4, s.thorough = 5)
{
  Grammar g{{"S", "F", "RS", "RF", "SF", "FS", "SSF", "RRRS", "NRS", "NF"}, {}, {kRSeq}};
  Spec s;
  s.kind = mc::Choose(2) ? kRSeq : kRFb;
  int n = 1 + mc::Choose(mc::Depth());
  for (int i = 0; i < n; ++i)
    s.kids.push_back(ChooseTree(g, 1));
  Compare(s, 2, 10);
}
// A reactive instruction whose last child is itself a tree.
SCENARIO(reactive_nested, s.quick = 4, s.thorough = 5)
{
  Grammar g{{"S", "RS", "SF", "RRF"}, {U(kInv)}, {kSeq, kFb, kRSeq, kRFb}};
  Grammar l{{"S", "F", "SF", "SSF", "FFS", "NS"}, {}, {}};
  Spec s;
  s.kind = mc::Choose(2) ? kRSeq : kRFb;
  int where = mc::Choose(2);
  if (where == 0)
    s.kids.push_back(ChooseTree(l, 1));
  s.kids.push_back(ChooseTree(g, 1 + mc::Choose(mc::Depth())));
  if (where == 1)
    s.kids.push_back(ChooseTree(l, 1));
  Compare(s, 2, 10);
}
