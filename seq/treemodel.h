// Executable specification of the synchronous behaviour-tree instructions, a generator of all trees of a
// given size, and the machinery that runs the real instructions next to the specification.
#ifndef VERIF_TREEMODEL_H_
#define VERIF_TREEMODEL_H_

#include "mc.h"

#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/workspace.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace tree
{
using namespace sup::oac_tree;
using ES = ExecutionStatus;

enum Kind
{
  kLeaf,
  kSeq,
  kFb,
  kRSeq,
  kRFb,
  kInv,
  kForce,
  kRep
};
inline char C(ES s)
{
  switch (s)
  {
  case ES::NOT_STARTED:
    return '-';
  case ES::NOT_FINISHED:
    return 'N';
  case ES::RUNNING:
    return 'R';
  case ES::SUCCESS:
    return 'S';
  case ES::FAILURE:
    return 'F';
  }
  return '?';
}
inline ES E(char c)
{
  return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
}

// Specification of a tree.
struct Spec
{
  Kind kind = kLeaf;
  int count = 0;            // Repeat
  std::string script;       // leaf: statuses returned by its successive executions, cyclic; 'I' first: init fails
  std::vector<Spec> kids;
  std::string Str() const
  {
    static const char* nm[] = {"", "Seq", "Fb", "RSeq", "RFb", "Inv", "Force", "Rep"};
    if (kind == kLeaf)
      return script;
    std::string r = nm[kind];
    if (kind == kRep)
      r += std::to_string(count);
    r += "(";
    for (size_t i = 0; i < kids.size(); ++i)
      r += (i ? "," : "") + kids[i].Str();
    return r + ")";
  }
  bool Has(Kind k) const
  {
    if (kind == k)
      return true;
    for (auto& c : kids)
      if (c.Has(k))
        return true;
    return false;
  }
};

struct Grammar
{
  std::vector<std::string> leaves;
  std::vector<Spec> unary;      // with empty kids
  std::vector<Kind> compound;
};

// Decides the tree through mc::Choose, so that the explorer enumerates all trees with exactly n nodes.
inline Spec ChooseTree(const Grammar& g, int n);
inline std::vector<Spec> ChooseForest(const Grammar& g, int n)
{
  std::vector<Spec> r;
  while (n > 0)
  {
    int first = 1 + mc::Choose(n);
    r.push_back(ChooseTree(g, first));
    n -= first;
  }
  return r;
}
inline Spec ChooseTree(const Grammar& g, int n)
{
  Spec s;
  if (n == 1)
  {
    s.script = g.leaves[mc::Choose(static_cast<int>(g.leaves.size()))];
    return s;
  }
  int nu = static_cast<int>(g.unary.size()), nc = static_cast<int>(g.compound.size());
  int k = mc::Choose(nu + nc);
  if (k < nu)
  {
    s = g.unary[k];
    s.kids.push_back(ChooseTree(g, n - 1));
  }
  else
  {
    s.kind = g.compound[k - nu];
    s.kids = ChooseForest(g, n - 1);
  }
  return s;
}
inline Spec U(Kind k, int count = 0)
{
  Spec s;
  s.kind = k;
  s.count = count;
  return s;
}

// ---------------------------------------------------------------------------- specification
struct Node
{
  Kind kind;
  int id;
  int max = 0, cnt = 0;
  std::string script;
  bool init_fails = false;
  size_t pos = 0;
  ES st = ES::NOT_STARTED;
  bool halt = false;
  std::vector<std::unique_ptr<Node>> kids;
};
struct Model
{
  std::unique_ptr<Node> root;
  std::vector<Node*> nodes;
  std::vector<std::string> notes;  // "id:status"
  std::vector<int> execs;          // leaf executions
  std::vector<int> ready_execs;    // of leaves that were not yet started or not finished
  int halt_at = -1;                // the n-th leaf execution requests a halt of the tree

  explicit Model(const Spec& s) { root = Build(s); }
  std::unique_ptr<Node> Build(const Spec& s)
  {
    auto n = std::make_unique<Node>();
    n->kind = s.kind;
    n->id = static_cast<int>(nodes.size());
    n->max = s.count < 0 ? -1 : s.count;
    n->script = s.script;
    if (!n->script.empty() && n->script[0] == 'I')
    {
      n->init_fails = true;
      n->script.erase(0, 1);
    }
    nodes.push_back(n.get());
    for (auto& k : s.kids)
      n->kids.push_back(Build(k));
    return n;
  }
  static bool Needs(ES s) { return s != ES::SUCCESS && s != ES::FAILURE; }
  static bool Ready(ES s) { return s == ES::NOT_STARTED || s == ES::NOT_FINISHED; }
  void Note(Node* n) { notes.push_back(std::to_string(n->id) + ":" + C(n->st)); }
  void Reset(Node* n)
  {
    for (auto& k : n->kids)
      Reset(k.get());
    if (n->st != ES::NOT_STARTED)
    {
      n->st = ES::NOT_STARTED;
      Note(n);
    }
    n->halt = false;
  }
  void Halt()
  {
    for (auto n : nodes)
      n->halt = true;
  }
  void Exec(Node* n)
  {
    bool was_ready = Ready(n->st);
    if (n->st == ES::NOT_STARTED)
    {
      n->cnt = 0;
      n->st = n->init_fails ? ES::FAILURE : ES::NOT_FINISHED;
      Note(n);
    }
    ES before = n->st;
    if (Needs(n->st) && !n->halt)
      n->st = Step(n, was_ready);
    if (n->st != before)
      Note(n);
  }
  ES Combine(Node* n, ES pass)
  {
    for (auto& k : n->kids)
    {
      if (k->st == pass)
        continue;
      return Ready(k->st) ? ES::NOT_FINISHED : k->st;
    }
    return pass;
  }
  ES Step(Node* n, bool was_ready)
  {
    switch (n->kind)
    {
    case kLeaf:
    {
      execs.push_back(n->id);
      if (note_execs)
        notes.push_back("e:" + std::to_string(n->id));
      if (was_ready)
        ready_execs.push_back(n->id);
      char c = n->script[n->pos++ % n->script.size()];
      if (halt_at > 0 && --halt_at == 0)
        Halt();
      return E(c);
    }
    case kSeq:
    case kFb:
    case kRSeq:
    case kRFb:
    {
      ES pass = n->kind == kSeq || n->kind == kRSeq ? ES::SUCCESS : ES::FAILURE;
      for (auto& k : n->kids)
      {
        if (k->st == pass)
          continue;
        if (Needs(k->st))
        {
          Exec(k.get());
          if (k->st == ES::RUNNING && (n->kind == kRSeq || n->kind == kRFb))
          {
            for (auto& o : n->kids)
              if (o != k)
                Reset(o.get());
            return ES::RUNNING;
          }
        }
        break;
      }
      return Combine(n, pass);
    }
    case kInv:
    {
      Node* k = n->kids[0].get();
      if (Needs(k->st))
        Exec(k);
      return k->st == ES::SUCCESS ? ES::FAILURE : k->st == ES::FAILURE ? ES::SUCCESS : k->st;
    }
    case kForce:
    {
      Node* k = n->kids[0].get();
      Exec(k);
      return k->st == ES::FAILURE ? ES::SUCCESS : k->st;
    }
    case kRep:
    {
      if (n->max == 0)
        return ES::SUCCESS;
      Node* k = n->kids[0].get();
      if (k->st == ES::SUCCESS)
        Reset(k);
      Exec(k);
      if (k->st == ES::SUCCESS)
      {
        ++n->cnt;
        if (n->cnt == n->max)
          return ES::SUCCESS;
        if (eager_reset)
          Reset(k);
        return ES::NOT_FINISHED;
      }
      return k->st;
    }
    }
    return ES::FAILURE;
  }
  // A repeated body may be reset at the end of an iteration or at the start of the next one.
  bool eager_reset = false;
  bool note_execs = false;  // also note leaf executions, as "e:id"
};

// ---------------------------------------------------------------------------- real side
struct Real;
class ScriptLeaf : public Instruction
{
public:
  ScriptLeaf(Real* r, int id, std::string script) : Instruction("ScriptLeaf"), m_r{r}, m_id{id}, m_script{std::move(script)}
  {
    if (!m_script.empty() && m_script[0] == 'I')
    {
      m_init_fails = true;
      m_script.erase(0, 1);
    }
  }

private:
  bool InitHook(UserInterface&, Workspace&) override { return !m_init_fails; }
  ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override;
  Real* m_r;
  int m_id;
  std::string m_script;
  bool m_init_fails = false;
  size_t m_pos = 0;
};
class RecordingUI : public DefaultUserInterface
{
public:
  explicit RecordingUI(Real* r) : m_r{r} {}
  void UpdateInstructionStatus(const Instruction* i) override;
  Real* m_r;
};
struct Real
{
  RecordingUI ui{this};
  std::unique_ptr<Procedure> proc;
  std::vector<const Instruction*> nodes;
  std::map<const Instruction*, int> ids;
  std::vector<std::string> notes;
  std::vector<int> execs;
  std::vector<int> ready_execs;
  std::set<int> touched;  // everything whose status was notified
  int halt_at = -1;

  explicit Real(const Spec& s)
  {
    proc.reset(new Procedure(""));
    proc->PushInstruction(Build(s));
    proc->Setup();
  }
  ~Real() { proc.reset(); }
  std::unique_ptr<Instruction> Build(const Spec& s)
  {
    static const char* nm[] = {"", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback",
                               "Inverter", "ForceSuccess", "Repeat"};
    std::unique_ptr<Instruction> r;
    int id = static_cast<int>(nodes.size());
    if (s.kind == kLeaf)
      r.reset(new ScriptLeaf(this, id, s.script));
    else
      r = GlobalInstructionRegistry().Create(nm[s.kind]);
    nodes.push_back(r.get());
    ids[r.get()] = id;
    if (s.kind == kRep)
      r->AddAttribute("maxCount", std::to_string(s.count));
    for (auto& k : s.kids)
      MC_CHECK(AppendChildInstruction(*r, Build(k)), "insert child");
    return r;
  }
};
inline ExecutionStatus ScriptLeaf::ExecuteSingleImpl(UserInterface&, Workspace&)
{
  m_r->execs.push_back(m_id);
  ES st = GetStatus();
  if (st == ES::NOT_STARTED)
    mc::Fail("leaf " + std::to_string(m_id) + " executes while not started");
  if (m_r->halt_at > 0 && --m_r->halt_at == 0)
    m_r->proc->Halt();
  return E(m_script[m_pos++ % m_script.size()]);
}
inline void RecordingUI::UpdateInstructionStatus(const Instruction* i)
{
  auto it = m_r->ids.find(i);
  if (it == m_r->ids.end())
    mc::Fail("notification for an unknown instruction");
  m_r->notes.push_back(std::to_string(it->second) + ":" + C(i->GetStatus()));
  m_r->touched.insert(it->second);
}

template <class T>
std::string Join(const std::vector<T>& v)
{
  std::string r;
  for (auto& x : v)
  {
    if constexpr (std::is_same_v<T, std::string>)
      r += x + " ";
    else
      r += std::to_string(x) + " ";
  }
  return r;
}
inline std::string States(const Model& m)
{
  std::string r;
  for (auto n : m.nodes)
    r += C(n->st);
  return r;
}
inline std::string States(const Real& r)
{
  std::string s;
  for (auto n : r.nodes)
    s += C(n->GetStatus());
  return s;
}
}  // namespace tree

#endif
