// Prediction of the next instructions compared with what the next tick does.
// LIB: full
#include "treemodel.h"
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
using namespace tree;
namespace
{
std::string Ids(Real& r, const std::vector<const Instruction*>& v)
{
  std::string s;
  for (auto i : v)
    s += std::to_string(r.ids.count(i) ? r.ids[i] : -1) + " ";
  return s;
}
int g_parent_checked;
void CheckView(const std::string& w, const InstructionTree& t, Real& r)
{
  // parents before children, no repetition, children are children
  auto flat = FlattenBFS(t);
  std::set<const Instruction*> seen;
  std::function<int(const InstructionTree&)> count = [&](const InstructionTree& n)
  {
    int c = 1;
    auto kids = n.GetChildren();
    auto instrs = n.GetChildInstructions();
    MC_CHECK(kids.size() == instrs.size(), w + ": children");
    for (size_t i = 0; i < kids.size(); ++i)
    {
      MC_CHECK(kids[i]->GetInstruction() == instrs[i], w + ": child instruction");
      auto all = n.GetInstruction()->ChildInstructions();
      MC_CHECK(std::find(all.begin(), all.end(), instrs[i]) != all.end(), w + ": child of another instruction");
      c += count(*kids[i]);
    }
    return c;
  };
  MC_CHECK(static_cast<int>(flat.size()) == count(t), w + ": flattened tree has " + Ids(r, flat));
  std::map<const Instruction*, size_t> pos;
  for (size_t i = 0; i < flat.size(); ++i)
  {
    MC_CHECK(seen.insert(flat[i]).second, w + ": instruction listed twice: " + Ids(r, flat));
    pos[flat[i]] = i;
  }
  std::vector<const Instruction*> leaves;
  std::function<void(const InstructionTree&)> order = [&](const InstructionTree& n)
  {
    auto kids = n.GetChildren();
    if (kids.empty())
      leaves.push_back(n.GetInstruction());
    for (auto k : kids)
    {
      MC_CHECK(pos.count(k->GetInstruction()) && pos[n.GetInstruction()] < pos[k->GetInstruction()],
               w + ": parents come before children: " + Ids(r, flat));
      order(*k);
    }
  };
  order(t);
  auto got = GetLeaves(t);
  std::set<const Instruction*> a(got.begin(), got.end()), b(leaves.begin(), leaves.end());
  MC_CHECK(a == b && got.size() == leaves.size(), w + ": leaves " + Ids(r, got));
}
void Compare(const Spec& s, int runs, int max_ticks)
{
  Model m{s};
  Real r{s};
  std::map<const Instruction*, const Instruction*> parent;
  for (auto n : r.nodes)
    for (auto c : n->ChildInstructions())
      parent[c] = n;
  std::string where = s.Str();
  auto full = CreateFullInstructionTree(r.proc->RootInstruction());
  CheckView(where + " full", full, r);
  MC_CHECK(FlattenBFS(full).size() == r.nodes.size(), where + ": full tree");
  for (int run = 0; run < runs; ++run)
  {
    for (int t = 0; t < max_ticks; ++t)
    {
      std::string w = where + " run " + std::to_string(run) + " tick " + std::to_string(t);
      std::string st = States(r);
      size_t notes = r.notes.size();
      auto next = GetNextInstructions(*r.proc);
      auto leaves = GetNextLeaves(*r.proc);
      auto tr = r.proc->GetNextInstructionTree();
      MC_CHECK(st == States(r) && notes == r.notes.size(), w + ": prediction changed the state");
      auto root_st = r.proc->GetStatus();
      if (!ReadyForExecute(root_st))
      {
        MC_CHECK(next.empty() && leaves.empty() && tr.IsEmpty(), w + ": nothing is predicted for a running or finished tree");
      }
      else
      {
        MC_CHECK(!tr.IsEmpty(), w + ": nothing predicted");
        MC_CHECK(tr.GetInstruction() == r.nodes[0], w + ": prediction starts at the root");
        CheckView(w + " next", tr, r);
        MC_CHECK(Join(std::vector<std::string>{Ids(r, FlattenBFS(tr))}) == Join(std::vector<std::string>{Ids(r, next)}), w + ": flattened prediction");
        MC_CHECK(Ids(r, GetLeaves(tr)) == Ids(r, leaves), w + ": predicted leaves");
      }
      size_t e0 = m.ready_execs.size(), x0 = r.execs.size();
      std::set<int> predicted_ready, predicted;
      for (auto i : next)
        predicted.insert(r.ids[i]);
      for (auto i : leaves)
        if (i->GetCategory() == Instruction::kAction && ReadyForExecute(i->GetStatus()))
          predicted_ready.insert(r.ids[i]);
      std::string before = States(r);
      r.touched.clear();
      m.Exec(m.root.get());
      r.proc->ExecuteSingle(r.ui);
      if (ReadyForExecute(root_st))
      {
        // leaves about to execute are exactly the predicted ones (a loop body counts as ready when it is restarted)
        std::set<int> ran(r.execs.begin() + x0, r.execs.end());
        bool init_failed = false;
        for (int i : predicted_ready)
          if (m.nodes[i]->init_fails)
            init_failed = true;
        if (!init_failed)
        {
          std::set<int> ran_ready(m.ready_execs.begin() + e0, m.ready_execs.end());
          std::string a, b;
          for (int i : ran_ready)
            a += std::to_string(i) + " ";
          for (int i : predicted_ready)
            b += std::to_string(i) + " ";
          MC_CHECK(a == b, w + " (" + before + "): executed leaves " + a + "predicted " + b);
        }
        else
          MC_CHECK(ran.empty(), w + ": executed although initialisation failed");
      }
      if (ReadyForExecute(root_st))
        for (int i : r.touched)
        {
          bool reactive_reset = false;
          for (auto p = parent.find(r.nodes[i]); p != parent.end(); p = parent.find(p->second))
            if (p->second->GetType().find("Reactive") == 0 || p->second->GetType() == "Repeat")
              reactive_reset = true;  // reset of other children, restart of a body
          MC_CHECK(predicted.count(i) || (reactive_reset && r.nodes[i]->GetStatus() == ES::NOT_STARTED),
                   w + " (" + before + "): instruction " + std::to_string(i) + " changed status but was not predicted");
        }
      if (IsFinishedStatus(r.proc->GetStatus()) && t + 1 < max_ticks)
        t = max_ticks - 2;
    }
    mc::Outcome(std::to_string(m.execs.size()));
    m.Reset(m.root.get());
    r.proc->Reset(r.ui);
  }
}
}  // namespace

SCENARIO(trees, s.quick = 5, s.thorough = 6)
{
  Grammar g{{"S", "F", "NS", "SF", "RS", "IS"}, {U(kInv), U(kForce), U(kRep, 2)}, {kSeq, kFb}};
  int n = 1 + mc::Choose(mc::Depth());
  Compare(ChooseTree(g, n), 2, 8);
}
SCENARIO(reactive, s.quick = 4, s.thorough = 6)
{
  Grammar g{{"S", "F", "RS", "SF", "NS"}, {U(kInv), U(kRep, 2), U(kRep, -1)}, {kRSeq, kRFb, kSeq}};
  int n = 1 + mc::Choose(mc::Depth());
  Compare(ChooseTree(g, n), 2, 8);
}
