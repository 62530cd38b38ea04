// Status protocol and notifications of every instruction of a tree.
// LIB: full
#include "treemodel.h"
using namespace tree;
namespace
{
// Protocol automaton of one instruction, fed with its notified statuses.
struct Protocol
{
  ES last = ES::NOT_STARTED;
  void Feed(const std::string& where, const std::string& note)
  {
    char c = note.substr(note.find(':') + 1)[0];
    bool ok = false;
    switch (last)
    {
    case ES::NOT_STARTED:
      ok = c == 'N' || c == 'F';  // begins execution, or its initialisation fails
      break;
    case ES::NOT_FINISHED:
      ok = c == 'R' || c == 'S' || c == 'F' || c == '-';
      break;
    case ES::RUNNING:
      ok = c == 'N' || c == 'S' || c == 'F' || c == '-';
      break;
    case ES::SUCCESS:
    case ES::FAILURE:
      ok = c == '-';
      break;
    }
    MC_CHECK(ok, where + ": status changed from " + std::string(1, C(last)) + " to " + note);
    last = c == '-' ? ES::NOT_STARTED : c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
};
void Compare(const Spec& s, int runs, int max_ticks)
{
  Model m{s};
  Model eager{s};  // bodies of loops are reset at the end of an iteration instead of at the start of the next
  eager.eager_reset = true;
  bool m_ok = true, eager_ok = true;
  auto compare = [&](const std::string& w, const std::vector<std::string>& notes)
  {
    m_ok = m_ok && Join(m.notes) == Join(notes);
    eager_ok = eager_ok && Join(eager.notes) == Join(notes);
    MC_CHECK(m_ok || eager_ok, w + ": notified " + Join(notes) + " prescribed " + Join(eager.notes));
  };
  Real r{s};
  std::vector<Protocol> protos(r.nodes.size());
  size_t fed = 0;
  auto feed = [&](const std::string& w)
  {
    for (; fed < r.notes.size(); ++fed)
      protos[std::stoi(r.notes[fed])].Feed(w, r.notes[fed]);
    for (size_t i = 0; i < r.nodes.size(); ++i)
      MC_CHECK(protos[i].last == r.nodes[i]->GetStatus(), w + ": instruction " + std::to_string(i) + " has status " +
               C(r.nodes[i]->GetStatus()) + " but last notified " + C(protos[i].last));
  };
  for (int run = 0; run < runs; ++run)
  {
    std::string where = s.Str() + " run " + std::to_string(run);
    int t = 0;
    for (; t < max_ticks && !IsFinishedStatus(r.proc->GetStatus()); ++t)
    {
      m.Exec(m.root.get());
      eager.Exec(eager.root.get());
      r.proc->ExecuteSingle(r.ui);
      std::string w = where + " tick " + std::to_string(t);
      feed(w);
      compare(w, r.notes);
    }
    if (IsFinishedStatus(m.root->st))
    {
      size_t n = r.notes.size();
      r.proc->ExecuteSingle(r.ui);
      MC_CHECK(n == r.notes.size(), where + ": notification after the end");
      compare(where, r.notes);
    }
    mc::Outcome(std::to_string(m.notes.size()));
    m.Reset(m.root.get());
    eager.Reset(eager.root.get());
    r.proc->Reset(r.ui);
    compare(where + " reset", r.notes);
    feed(where + " reset");
    for (auto n : r.nodes)
      MC_CHECK(n->GetStatus() == ES::NOT_STARTED, where + ": status after reset");
    size_t n = r.notes.size();
    r.proc->Reset(r.ui);
    MC_CHECK(n == r.notes.size(), where + ": resetting twice notifies twice");
  }
}
}  // namespace

SCENARIO(trees, s.quick = 5, s.thorough = 6)
{
  Grammar g{{"S", "F", "NRNS", "SF", "IS"}, {U(kInv), U(kForce), U(kRep, 2)}, {kSeq, kFb, kRSeq}};
  int n = 1 + mc::Choose(mc::Depth());
  Compare(ChooseTree(g, n), 2, 8);
}
SCENARIO(reactive, s.quick = 4, s.thorough = 6)
{
  Grammar g{{"S", "F", "RRS", "SF", "IS", "NS"}, {U(kInv), U(kForce), U(kRep, 3), U(kRep, -1)}, {kRSeq, kRFb}};
  int n = 1 + mc::Choose(mc::Depth());
  Compare(ChooseTree(g, n), 2, 10);
}
