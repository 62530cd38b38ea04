// Building procedures and instruction trees by hand: every history of insertions and removals against a plain model.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/compound_instruction.h>
#include <sup/oac-tree/decorator_instruction.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
using namespace uu;
namespace
{
std::string N(long n) { return std::to_string(n); }
int g_live = 0;
struct Count
{
  Count() { ++g_live; }
  ~Count() { --g_live; }
};
class Leaf : public Instruction, Count
{
public:
  Leaf() : Instruction("PLeaf") {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
class Comp : public CompoundInstruction, Count
{
public:
  Comp() : CompoundInstruction("PComp") {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
class Deco : public DecoratorInstruction, Count
{
public:
  Deco() : DecoratorInstruction("PDeco") {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
enum Kind { kLeaf, kComp, kDeco };
struct MNode
{
  Kind kind;
  Instruction* p;
  std::string root;  // value of the root attribute, or "-"
  std::vector<MNode*> kids;
  MNode* parent = nullptr;
};
bool Root(const MNode& n) { return n.root == "true" || n.root == "yes" || n.root == "on"; }
int Size(const MNode& n)
{
  int r = 1;
  for (auto k : n.kids)
    r += Size(*k);
  return r;
}
void Collect(MNode* n, std::vector<MNode*>& out)
{
  out.push_back(n);
  for (auto k : n->kids)
    Collect(k, out);
}
struct World
{
  Procedure proc;
  std::vector<std::unique_ptr<Instruction>> hand;  // what the caller owns
  std::vector<MNode*> mhand, mtop;
  std::deque<MNode> nodes;
  std::string w;

  void Make(Kind k, const std::string& root)
  {
    std::unique_ptr<Instruction> p;
    if (k == kLeaf)
      p.reset(new Leaf);
    else if (k == kComp)
      p.reset(new Comp);
    else
      p.reset(new Deco);
    if (root != "-")
      p->AddAttribute("isRoot", root);
    nodes.push_back(MNode{k, p.get(), root, {}, nullptr});
    hand.push_back(std::move(p));
    mhand.push_back(&nodes.back());
  }
  // Is inserting n below t at index allowed?
  static bool Allowed(const MNode& t, int index)
  {
    int n = static_cast<int>(t.kids.size());
    return t.kind == kComp ? index >= 0 && index <= n : t.kind == kDeco ? index == 0 : false;
  }
  void CheckNode(const MNode& n)
  {
    auto kids = n.p->ChildInstructions();
    const Instruction* cp = n.p;
    auto ckids = cp->ChildInstructions();
    MC_CHECK(kids.size() == n.kids.size() && ckids.size() == n.kids.size(), w + ": number of listed children of " + N(&n - &nodes[0]));
    MC_CHECK(n.p->ChildrenCount() == static_cast<int>(n.kids.size()), w + ": number of children");
    for (size_t i = 0; i < kids.size(); ++i)
    {
      MC_CHECK(kids[i] == n.kids[i]->p && ckids[i] == n.kids[i]->p, w + ": child " + N(i) + " is another instruction");
      CheckNode(*n.kids[i]);
    }
  }
  void CheckTree(const MNode& n, const InstructionTree& t)
  {
    MC_CHECK(t.GetInstruction() == n.p && !t.IsEmpty(), w + ": instruction tree shows another instruction");
    auto c = t.GetChildren();
    auto ci = t.GetChildInstructions();
    MC_CHECK(c.size() == n.kids.size() && ci.size() == n.kids.size(), w + ": instruction tree shows another number of children");
    for (size_t i = 0; i < c.size(); ++i)
    {
      MC_CHECK(ci[i] == n.kids[i]->p, w + ": instruction tree lists another child");
      CheckTree(*n.kids[i], *c[i]);
    }
  }
  void Check()
  {
    int n = 0;
    for (auto t : mtop)
      n += Size(*t);
    for (auto t : mhand)
      n += Size(*t);
    MC_CHECK(g_live == n, w + ": " + N(g_live) + " instructions exist instead of " + N(n));
    MC_CHECK(proc.GetInstructionCount() == static_cast<int>(mtop.size()), w + ": number of top instructions");
    auto top = proc.GetTopInstructions();
    MC_CHECK(top.size() == mtop.size(), w + ": number of listed top instructions");
    for (size_t i = 0; i < top.size(); ++i)
    {
      MC_CHECK(top[i] == mtop[i]->p, w + ": top instruction " + N(i) + " is another one");
      CheckNode(*mtop[i]);
      auto full = CreateFullInstructionTree(top[i]);
      CheckTree(*mtop[i], full);
      std::vector<const Instruction*> bfs, leaves;
      std::deque<MNode*> q{mtop[i]};
      while (!q.empty())
      {
        MNode* f = q.front();
        q.pop_front();
        bfs.push_back(f->p);
        if (f->kids.empty())
          leaves.push_back(f->p);
        q.insert(q.end(), f->kids.begin(), f->kids.end());
      }
      MC_CHECK(FlattenBFS(full) == bfs, w + ": breadth-first order");
      auto got = GetLeaves(full);
      std::sort(got.begin(), got.end());
      std::sort(leaves.begin(), leaves.end());
      MC_CHECK(got == leaves, w + ": leaves");
    }
    for (auto t : mhand)
      CheckNode(*t);
    MNode* root = nullptr;
    if (mtop.size() == 1)
      root = mtop[0];
    for (auto t : mtop)
      if (!root && Root(*t))
        root = t;
    const Procedure& cp = proc;
    MC_CHECK(proc.RootInstruction() == (root ? root->p : nullptr), w + ": root instruction");
    MC_CHECK(cp.RootInstruction() == proc.RootInstruction(), w + ": root instruction of the constant procedure");
    MC_CHECK(proc.GetStatus() == (root ? ExecutionStatus::NOT_STARTED : ExecutionStatus::SUCCESS), w + ": status");
  }
  void Drop(MNode* n)  // the model of destroying a tree
  {
    n->kids.clear();
  }
};
}  // namespace

SCENARIO(assembly, s.quick = 4, s.thorough = 5)
{
  g_live = 0;
  {
    World x;
    int start = mc::Choose(4);
    auto push = [&] {
      x.proc.PushInstruction(std::move(x.hand.back()));
      x.hand.pop_back();
      x.mtop.push_back(x.mhand.back());
      x.mhand.pop_back();
    };
    if (start == 1)
    {
      x.Make(kComp, "-");
      push();
      x.Make(kLeaf, "-");
    }
    else if (start == 2)
    {
      x.Make(kDeco, "on");
      push();
      x.Make(kComp, "true");
    }
    else if (start == 3)
    {
      x.Make(kLeaf, "no");
      push();
      x.Make(kComp, "yes");
      push();
      x.Make(kComp, "true");
      push();
    }
    x.w = "start" + N(start) + " ";
    x.Check();
    for (int d = 0; d < mc::Depth(); ++d)
    {
      int op = mc::Choose(7);
      if (op == 0)
      {
        if (x.mhand.size() == 2)
          return;
        static const std::pair<Kind, const char*> what[] = {{kLeaf, "-"}, {kComp, "-"}, {kDeco, "-"}, {kLeaf, "true"}, {kComp, "perhaps"}};
        auto [k, r] = what[mc::Choose(d == 0 ? 5 : 3)];
        x.w += "make" + N(k) + r + " ";
        x.Make(k, r);
      }
      else if (op == 1)
      {
        if (x.hand.empty())
          return;
        x.w += "push ";
        push();
      }
      else if (op == 2)
      {
        if (x.hand.empty())
          return;
        int n = static_cast<int>(x.mtop.size());
        int index = mc::Choose(n + 3) - 1;
        bool allowed = index >= 0 && index <= n;
        x.w += "insert@" + N(index) + " ";
        bool ok = x.proc.InsertInstruction(std::move(x.hand.back()), index);
        MC_CHECK(ok == allowed, x.w + ": answers " + N(ok));
        MC_CHECK(allowed == !x.hand.back(), x.w + ": a refused instruction stays with the caller");
        if (allowed)
        {
          x.hand.pop_back();
          x.mtop.insert(x.mtop.begin() + index, x.mhand.back());
          x.mhand.pop_back();
        }
      }
      else if (op == 3)
      {
        int n = static_cast<int>(x.mtop.size());
        int index = mc::Choose(n + 2) - 1;
        x.w += "take@" + N(index) + " ";
        auto p = x.proc.TakeInstruction(index);
        bool there = index >= 0 && index < n;
        MC_CHECK(there == static_cast<bool>(p), x.w + ": takes something else");
        if (there)
        {
          MC_CHECK(p.get() == x.mtop[index]->p, x.w + ": takes another instruction");
          x.hand.push_back(std::move(p));
          x.mhand.push_back(x.mtop[index]);
          x.mtop.erase(x.mtop.begin() + index);
        }
      }
      else if (op == 4 || op == 5)
      {
        // below a node of the procedure or of another tree of the caller; 5: appended by the helper
        if (x.hand.empty())
          return;
        std::vector<MNode*> targets;
        for (auto t : x.mtop)
          Collect(t, targets);
        for (size_t i = 0; i + 1 < x.mhand.size(); ++i)
          Collect(x.mhand[i], targets);
        if (targets.empty())
          return;
        MNode* t = targets[mc::Choose(static_cast<int>(targets.size()))];
        int n = static_cast<int>(t->kids.size());
        int index = op == 5 ? n : mc::Choose(n + 3) - 1;
        bool allowed = World::Allowed(*t, index);
        x.w += (op == 5 ? "append-to" : "insert-into") + N(t - &x.nodes[0]) + "@" + N(index) + " ";
        auto p = std::move(x.hand.back());
        x.hand.pop_back();
        MNode* m = x.mhand.back();
        x.mhand.pop_back();
        bool ok = op == 5 ? AppendChildInstruction(*t->p, std::move(p)) : t->p->InsertInstruction(std::move(p), index);
        MC_CHECK(ok == allowed, x.w + ": answers " + N(ok));
        if (!allowed)
        {
          if (p)
          {
            MC_CHECK(p.get() == m->p, x.w + ": the caller is left with another instruction");
            x.hand.push_back(std::move(p));
            x.mhand.push_back(m);
          }
          else
            MC_CHECK(op == 5, x.w + ": a refused instruction stays with the caller");
        }
        else if (t->kind == kDeco)
        {
          if (!t->kids.empty())
            x.Drop(t->kids[0]);
          t->kids = {m};
          p.reset();
        }
        else
        {
          MC_CHECK(!p, x.w + ": an inserted instruction stays with the caller");
          t->kids.insert(t->kids.begin() + index, m);
        }
      }
      else
      {
        std::vector<MNode*> targets;
        for (auto t : x.mtop)
          Collect(t, targets);
        for (auto t : x.mhand)
          Collect(t, targets);
        if (targets.empty())
          return;
        MNode* t = targets[mc::Choose(static_cast<int>(targets.size()))];
        int n = static_cast<int>(t->kids.size());
        int index = mc::Choose(n + 2) - 1;
        bool there = index >= 0 && index < n;
        x.w += "take-from" + N(t - &x.nodes[0]) + "@" + N(index) + " ";
        auto p = t->p->TakeInstruction(index);
        MC_CHECK(there == static_cast<bool>(p), x.w + ": takes something else");
        if (there)
        {
          MC_CHECK(p.get() == t->kids[index]->p, x.w + ": takes another instruction");
          x.hand.push_back(std::move(p));
          x.mhand.push_back(t->kids[index]);
          t->kids.erase(t->kids.begin() + index);
        }
      }
      x.Check();
    }
    try
    {
      x.proc.PushInstruction(std::unique_ptr<Instruction>{});
      mc::Fail(x.w + ": an empty pointer is accepted");
    }
    catch (const InvalidOperationException&)
    {
    }
    x.Check();
  }
  MC_CHECK(g_live == 0, "not all instructions are destroyed");
  try
  {
    CreateFullInstructionTree(nullptr);
    mc::Fail("a tree of no instruction");
  }
  catch (const InvalidOperationException&)
  {
  }
}

// Children of many instructions at every index: positions beyond the small histories.
SCENARIO(long_lists, s.quick = 1, s.thorough = 2)
{
  g_live = 0;
  {
    World y;
    int n = mc::Depth() == 1 ? 40 : 200;
    y.Make(kComp, "-");
    Comp* c = static_cast<Comp*>(y.hand.back().get());
    std::vector<const Instruction*> want;
    for (int i = 0; i < n; ++i)
    {
      std::unique_ptr<Instruction> l(new Leaf);
      auto p = l.get();
      int at = (i * 7) % (i + 1);
      MC_CHECK(c->InsertInstruction(std::move(l), at), "insert");
      want.insert(want.begin() + at, p);
    }
    const Instruction* cc = c;
    MC_CHECK(cc->ChildInstructions() == want, "order of the children");
    int take = mc::Choose(n);
    auto p = c->TakeInstruction(take);
    MC_CHECK(p.get() == want[take], "takes another child");
    want.erase(want.begin() + take);
    MC_CHECK(cc->ChildInstructions() == want, "order of the children after removal");
    int at = mc::Choose(n);
    want.insert(want.begin() + at, p.get());
    MC_CHECK(c->InsertInstruction(std::move(p), at), "insert again");
    MC_CHECK(cc->ChildInstructions() == want, "order of the children after insertion");
    MC_CHECK(g_live == n + 1, "instructions alive");
  }
  MC_CHECK(g_live == 0, "instructions destroyed");
}

// Attributes by name: added once, changed only where allowed, kept in order.
SCENARIO(attributes, s.quick = 4, s.thorough = 5)
{
  int kind = mc::Choose(3);
  Leaf leaf;
  auto pvar = GlobalVariableRegistry().Create("Local");
  Variable& var = *pvar;
  Procedure proc{"file.xml"};
  static const char* const names[] = {"a", "name", "b", ""};
  static const char* const values[] = {"x", ""};
  StringAttributeList model;
  auto find = [&](const std::string& n) { return std::find_if(model.begin(), model.end(), [&](auto& p) { return p.first == n; }); };
  auto add1 = [&](const std::string& n, const std::string& v) {
    if (find(n) != model.end())
      return false;
    model.emplace_back(n, v);
    return true;
  };
  std::string w = kind == 0 ? "instruction: " : kind == 1 ? "variable: " : "procedure: ";
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int op = mc::Choose(4);
    bool want = true, got = true;
    if (op == 0)
    {
      std::string n = names[mc::Choose(4)], v = values[mc::Choose(2)];
      w += "add(" + n + "," + v + ") ";
      want = add1(n, v);
      got = kind == 0 ? leaf.AddAttribute(n, v) : kind == 1 ? var.AddAttribute(n, v) : proc.AddAttribute(n, v);
    }
    else if (op == 1)
    {
      StringAttributeList l;
      int which = mc::Choose(3);
      l = which == 0 ? StringAttributeList{{"a", "p"}, {"c", "q"}} : which == 1 ? StringAttributeList{{"c", "1"}, {"c", "2"}, {"name", "3"}} : StringAttributeList{};
      w += "addall" + N(which) + " ";
      for (auto& [n, v] : l)
        want = add1(n, v) && want;
      got = kind == 0 ? leaf.AddAttributes(l) : kind == 1 ? var.AddAttributes(l) : proc.AddAttributes(l);
    }
    else if (op == 2)
    {
      if (kind != 0)
        return;
      std::string n = names[mc::Choose(4)], v = mc::Choose(2) ? "y" : "";
      w += "set(" + n + "," + v + ") ";
      want = find(n) != model.end();
      if (want)
        find(n)->second = v;
      got = leaf.SetAttribute(n, v);
    }
    else
    {
      if (kind == 2)
        return;
      static const char* const new_names[] = {"me", "you", ""};
      std::string v = new_names[mc::Choose(3)];
      w += "name=" + v + " ";
      if (kind == 0)
      {
        if (find("name") != model.end())
          find("name")->second = v;
        else
          model.emplace_back("name", v);
        leaf.SetName(v);
      }
      else
      {
        var.SetName(v);
        // a variable that has a name keeps it or takes the new one, and has one name only
        if (find("name") == model.end())
          model.emplace_back("name", v);
        else if (var.GetName() == v)
          find("name")->second = v;
      }
    }
    MC_CHECK(got == want, w + ": answers " + N(got));
    auto& list = kind == 0 ? leaf.GetStringAttributes() : kind == 1 ? var.GetStringAttributes() : proc.GetStringAttributes();
    MC_CHECK(list == model, w + ": list of attributes");
    for (auto n : {"a", "name", "b", "", "c", "A"})
    {
      bool has = kind == 0 ? leaf.HasAttribute(n) : kind == 1 ? var.HasAttribute(n) : proc.HasAttribute(n);
      std::string s = kind == 0 ? leaf.GetAttributeString(n) : kind == 1 ? var.GetAttributeString(n) : proc.GetAttributeString(n);
      MC_CHECK(has == (find(n) != model.end()), w + ": presence of " + n);
      MC_CHECK(s == (has ? find(n)->second : std::string{}), w + ": text of " + n);
    }
    std::string nm = find("name") == model.end() ? "" : find("name")->second;
    if (kind == 0)
      MC_CHECK(leaf.GetName() == nm, w + ": name of the instruction");
    if (kind == 1)
      MC_CHECK(var.GetName() == nm, w + ": name of the variable");
    if (kind == 2)
      MC_CHECK(GetProcedureName(proc) == (proc.HasAttribute("name") ? nm : "file.xml"), w + ": name of the procedure");
  }
}

// Typed attributes of a procedure.
SCENARIO(typed_attributes, s.quick = 1, s.thorough = 1)
{
  struct T { const char* text; bool ok; double v; };
  static const T texts[] = {{"1.5", true, 1.5}, {"0", true, 0}, {"-2", true, -2}, {"1e3", true, 1000}, {"", false, 0}, {"x", false, 0}, {"@v", false, 0}};
  static const char* const names[] = {"tickTimeout", "timingAccuracy"};
  Procedure p;
  std::string n = names[mc::Choose(2)], other = n == names[0] ? names[1] : names[0];
  int k = mc::Choose(8);
  if (k < 7)
    p.AddAttribute(n, texts[k].text);
  p.PushInstruction(std::unique_ptr<Instruction>(new Leaf));
  bool thrown = false;
  try
  {
    p.Setup();
  }
  catch (const ProcedureSetupException&)
  {
    thrown = true;
  }
  bool refuse = k < 7 && !texts[k].ok;
  MC_CHECK(thrown == refuse, "setup with " + n + " = " + (k < 7 ? texts[k].text : "nothing"));
  for (auto& q : {n, other})
  {
    bool there = q == n && k < 7 && texts[k].ok;
    try
    {
      double d = p.GetAttributeValue<double>(q);
      MC_CHECK(there && d == texts[k].v, "value of " + q);
    }
    catch (const RuntimeException&)
    {
      MC_CHECK(!there, "no value of " + q);
    }
  }
  if (k < 7)
  {
    try
    {
      auto s = p.GetAttributeValue<std::string>("nosuch");
      mc::Fail("value of an absent attribute");
    }
    catch (const RuntimeException&)
    {
    }
  }
}

// Variables of a workspace: by name, in the order in which they were added.
SCENARIO(variables, s.quick = 5, s.thorough = 6)
{
  Procedure p;
  auto& ws = p.GetWorkspace();
  static const char* const names[] = {"b", "a", "", "b.c"};
  std::vector<std::pair<std::string, const Variable*>> model;
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    std::string n = names[mc::Choose(4)];
    int via = mc::Choose(2);
    w += (via ? "p:" : "ws:") + n + " ";
    auto v = GlobalVariableRegistry().Create("Local");
    v->AddAttribute("type", R"({"type":"uint8"})");
    v->AddAttribute("value", N(d));
    const Variable* raw = v.get();
    bool dup = std::any_of(model.begin(), model.end(), [&](auto& m) { return m.first == n; });
    try
    {
      bool ok = via ? p.AddVariable(n, std::move(v)) : ws.AddVariable(n, std::move(v));
      MC_CHECK(ok && !dup, w + ": accepted");
      model.emplace_back(n, raw);
    }
    catch (const InvalidOperationException&)
    {
      MC_CHECK(dup, w + ": refused");
    }
    auto check = [&] {
      std::vector<std::string> wn;
      std::vector<const Variable*> wv;
      for (auto& [k, q] : model)
      {
        wn.push_back(k);
        wv.push_back(q);
      }
      MC_CHECK(ws.VariableNames() == wn && p.VariableNames() == wn, w + ": names");
      MC_CHECK(ws.GetVariables() == wv, w + ": variables");
      for (auto k : {"b", "a", "", "b.c", "c"})
      {
        auto it = std::find_if(model.begin(), model.end(), [&](auto& m) { return m.first == k; });
        MC_CHECK(ws.HasVariable(k) == (it != model.end()), w + ": presence of " + k);
        MC_CHECK(ws.GetVariable(k) == (it != model.end() ? it->second : nullptr), w + ": variable " + k);
      }
    };
    check();
    if (d + 1 == mc::Depth() && mc::Choose(2))
    {
      w += "setup ";
      ws.Setup();
      check();
      ws.Teardown();
      check();
    }
  }
}

namespace
{
std::string Shape(const Instruction& i)
{
  std::string r = i.GetType() + "(";
  for (auto& a : i.GetStringAttributes())
    r += a.first + "=" + a.second + " ";
  for (auto k : i.ChildInstructions())
    r += Shape(*k);
  return r + ")";
}
// Every tree with up to n nodes over these kinds; the last one is not registered.
std::unique_ptr<Instruction> Grow(int& n, bool& foreign)
{
  --n;
  static const char* kinds[] = {"Succeed", "Inverter", "Sequence"};
  int k = mc::Choose(n > 0 ? 5 : 2);
  std::unique_ptr<Instruction> r;
  if (k == 1 || k == 4)
  {
    foreign = true;
    r.reset(k == 1 ? static_cast<Instruction*>(new Leaf) : new Comp);
  }
  else
    r = GlobalInstructionRegistry().Create(kinds[k == 0 ? 0 : k - 1]);
  int a = mc::Choose(3);
  if (a > 0)
    r->AddAttribute("name", "n" + N(n));
  if (a > 1)
    r->AddAttribute("extra", "$x");
  if (k == 2)
    AppendChildInstruction(*r, Grow(n, foreign));
  if (k > 2)
    while (n > 0 && mc::Choose(2))
      AppendChildInstruction(*r, Grow(n, foreign));
  return r;
}
}  // namespace
// A clone is an equal and independent tree; there is none of a tree with an instruction that cannot be created.
SCENARIO(clones, s.quick = 4, s.thorough = 5)
{
  int n = mc::Depth();
  bool foreign = false;
  auto tree = Grow(n, foreign);
  std::string shape = Shape(*tree);
  auto clone = CloneInstructionTree(*tree);
  MC_CHECK((clone == nullptr) == foreign, shape + ": " + (clone ? "cloned into " + Shape(*clone) : "not cloned"));
  MC_CHECK(Shape(*tree) == shape, shape + ": changed by cloning into " + Shape(*tree));
  if (!clone)
    return;
  MC_CHECK(Shape(*clone) == shape, shape + ": cloned into " + Shape(*clone));
  clone->AddAttribute("more", "");
  for (auto k : clone->ChildInstructions())
    k->AddAttribute("more", "");
  MC_CHECK(Shape(*tree) == shape, shape + ": changed with its clone");
  tree.reset();
  MC_CHECK(Shape(*clone).size() > shape.size(), shape);
}
