// Information about jobs: every small procedure and every corruption of its encoding, against an independent reading.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_state.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/variable_map.h>
#include <sup/oac-tree/variable_utils.h>
#include <optional>
#include <set>
using namespace uu;
using wsm::V;
namespace
{
using Attrs = std::vector<std::pair<std::string, std::string>>;
struct Info
{
  std::string type;
  long long category = 0, index = 0;
  Attrs a;
  std::vector<Info> k;
  bool operator==(const Info& o) const { return type == o.type && category == o.category && index == o.index && a == o.a && k == o.k; }
  std::string Str() const
  {
    std::string r = type + "/" + std::to_string(category) + "#" + std::to_string(index);
    for (auto& p : a)
      r += " " + p.first + "=" + p.second;
    if (!k.empty())
    {
      r += "(";
      for (auto& x : k)
        r += x.Str() + ",";
      r += ")";
    }
    return r;
  }
};
struct Job
{
  std::string name;
  std::vector<std::pair<std::string, Info>> vars;
  Info root;
  bool operator==(const Job& o) const { return name == o.name && vars == o.vars && root == o.root; }
  std::string Str() const
  {
    std::string r = "'" + name + "'";
    for (auto& v : vars)
      r += " " + v.first + "=" + v.second.Str();
    return r + " " + root.Str();
  }
};
Info Read(const InstructionInfo& i)
{
  Info r{i.GetType(), static_cast<long long>(i.GetCategory()), i.GetIndex(), i.GetAttributes(), {}};
  for (auto* k : i.Children())
    r.k.push_back(Read(*k));
  return r;
}
Job Read(const JobInfo& j)
{
  Job r;
  r.name = j.GetProcedureName();
  for (auto& v : j.GetWorkspaceInfo().GetVariableInfos())
    r.vars.push_back({v.first, Info{v.second.GetType(), 0, v.second.GetIndex(), v.second.GetAttributes(), {}}});
  r.root = Read(*j.GetRootInstructionInfo());
  return r;
}
void Count(const Info& i, std::vector<long long>& all)
{
  all.push_back(i.index);
  for (auto& k : i.k)
    Count(k, all);
}
size_t Size(const Job& j)
{
  std::vector<long long> all;
  Count(j.root, all);
  return all.size();
}
// The encoding of information
V Encode(const Info& i, bool var)
{
  std::vector<std::pair<std::string, V>> attrs;
  for (auto& p : i.a)
    attrs.push_back({p.first, wsm::S(p.second)});
  std::vector<std::pair<std::string, V>> m = {{"type", wsm::S(i.type)}};
  if (!var)
    m.push_back({"category", wsm::N("uint32", i.category)});
  m.push_back({"index", wsm::N("uint32", i.index)});
  m.push_back({"attributes", wsm::T(attrs)});
  if (!i.k.empty())
  {
    std::vector<std::pair<std::string, V>> kids;
    for (auto& k : i.k)
      kids.push_back({"instr_" + std::to_string(kids.size()), Encode(k, false)});
    m.push_back({"children", wsm::T(kids)});
  }
  return wsm::T(m);
}
V Encode(const Job& j)
{
  std::vector<std::pair<std::string, V>> vars;
  for (auto& v : j.vars)
    vars.push_back({v.first, Encode(v.second, true)});
  return wsm::T({{"full_name", wsm::S(j.name)}, {"ws_info", wsm::T(vars)}, {"instr_tree_info", Encode(j.root, false)}});
}
const V* Member(const V& v, const std::string& n)
{
  if (v.kind == 't')
    for (auto& k : v.kids)
      if (k.first == n)
        return &k.second;
  return nullptr;
}
// What an encoded value says, if it is valid
std::optional<Attrs> Texts(const V* v)
{
  if (!v || v->kind != 't')
    return {};
  Attrs r;
  for (auto& k : v->kids)
  {
    if (k.second.kind != 's')
      return {};
    r.push_back({k.first, k.second.s});
  }
  return r;
}
bool Is(const V* v, const std::string& type) { return v && (type == "string" ? v->kind == 's' : (v->kind == 'n' || v->kind == 'b') && v->type == type); }
std::optional<Info> DecodeTree(const V& v, const std::string& prefix)
{
  auto *t = Member(v, "type"), *c = Member(v, "category"), *i = Member(v, "index"), *k = Member(v, "children");
  auto a = Texts(Member(v, "attributes"));
  if (!Is(t, "string") || !Is(c, "uint32") || !Is(i, "uint32") || !a || c->n > 2)
    return {};
  Info r{t->s, c->n, i->n, *a, {}};
  if (k)
  {
    if (k->kind != 't')
      return {};
    for (size_t n = 0; n < k->kids.size(); ++n)
    {
      auto x = DecodeTree(k->kids[n].second, prefix);
      if (!x || k->kids[n].first != prefix + std::to_string(n))
        return {};
      r.k.push_back(*x);
    }
  }
  if (r.k.size() > (c->n == 0 ? 0 : c->n == 1 ? 1 : 1000u))
    return {};
  return r;
}
std::optional<Job> Decode(const V& v, const std::string& prefix)
{
  auto *n = Member(v, "full_name"), *w = Member(v, "ws_info"), *t = Member(v, "instr_tree_info");
  if (!Is(n, "string") || !w || w->kind != 't' || !t)
    return {};
  Job j;
  j.name = n->s;
  for (auto& k : w->kids)
  {
    auto *ty = Member(k.second, "type"), *i = Member(k.second, "index");
    auto a = Texts(Member(k.second, "attributes"));
    if (!Is(ty, "string") || ty->s.empty() || !Is(i, "uint32") || !a || i->n != static_cast<long long>(j.vars.size()))
      return {};
    j.vars.push_back({k.first, Info{ty->s, 0, i->n, *a, {}}});
  }
  auto root = DecodeTree(*t, prefix);
  if (!root)
    return {};
  std::vector<long long> all;
  Count(*root, all);
  std::set<long long> s(all.begin(), all.end());
  if (s.size() != all.size() || *s.rbegin() >= static_cast<long long>(all.size()))
    return {};
  j.root = *root;
  return j;
}
std::unique_ptr<Instruction> Tree(int depth, int& leaves)
{
  int n = mc::Choose(depth > 1 ? 6 : 2);
  switch (n)
  {
  case 0:
    return Node("Succeed");
  case 1:
    return Attr(Attr(Node("Message"), "text", "t" + std::to_string(leaves++)), "name", "m");
  case 2:
    return Attr(Node("Inverter", Tree(depth - 1, leaves)), "isRoot", "true");
  case 3:
    return Node("Sequence", Tree(depth - 1, leaves));
  case 4:
  {
    auto a = Tree(depth - 1, leaves);
    return Attr(Node("Fallback", std::move(a), Tree(depth - 1, leaves)), "name", "f");
  }
  default:
  {
    auto a = Tree(depth - 1, leaves);
    auto b = Tree(1, leaves);
    return Node("Sequence", std::move(a), std::move(b), Tree(1, leaves));
  }
  }
}
std::unique_ptr<Procedure> Draw(int depth)
{
  std::unique_ptr<Procedure> p{new Procedure(mc::Choose(2) ? "file.xml" : "")};
  if (mc::Choose(2))
    p->AddAttribute("name", "proc");
  int leaves = 0;
  int form = mc::Choose(3);
  if (form == 0)
    p->PushInstruction(Tree(depth, leaves));
  else if (form == 1)
  {
    // the second tree is the root
    p->PushInstruction(Tree(1, leaves));
    p->PushInstruction(Attr(Node("Sequence", Tree(depth > 1 ? depth - 1 : 1, leaves)), "isRoot", "true"));
  }
  else
  {
    // with included parts
    p->PushInstruction(Attr(Node("Sequence", Tree(depth > 1 ? depth - 1 : 1, leaves)), "name", "sub"));
    p->PushInstruction(Attr(Node("Sequence", Attr(Node("Include"), "path", "sub"), Node("Succeed"), Attr(Node("Include"), "path", "sub")), "isRoot", "true"));
  }
  int vars = mc::Choose(4);
  const char* names[] = {"zz", "a", "m"};
  for (int i = 0; i < vars; ++i)
  {
    auto v = wsm::Local(i == 1 ? "" : R"({"type":"uint8"})", i == 1 ? "" : std::to_string(i));
    if (i == 2)
      v->SetName("m");
    p->AddVariable(names[i], std::move(v));
  }
  return p;
}
// What the information should say, given the numbers of the instructions
Info Expect(const Instruction& i, const InstructionMap& map)
{
  Info r{i.GetType(), static_cast<long long>(i.GetCategory()), map.FindInstructionIndex(&i), i.GetStringAttributes(), {}};
  for (auto* k : i.ChildInstructions())
    r.k.push_back(Expect(*k, map));
  return r;
}
bool Refused(const std::function<void()>& f)
{
  try
  {
    f();
  }
  catch (const MessageException&)
  {
    return true;
  }
  return false;
}
Job Small()
{
  Job j;
  j.name = "p";
  j.vars = {{"v", Info{"Local", 0, 0, {{"name", "v"}}, {}}}, {"w", Info{"File", 0, 1, {}, {}}}};
  j.root = Info{"Sequence", 2, 0, {{"name", "main"}}, {Info{"Inverter", 1, 1, {}, {Info{"Wait", 0, 3, {{"timeout", "1"}}, {}}}}, Info{"Succeed", 0, 2, {}, {}}}};
  return j;
}
std::unique_ptr<InstructionInfo> MakeTree(const Info& i)
{
  auto r = std::make_unique<InstructionInfo>(i.type, static_cast<Instruction::Category>(i.category), static_cast<sup::dto::uint32>(i.index), i.a);
  for (auto& k : i.k)
    r->AppendChild(MakeTree(k));
  return r;
}
JobInfo Make(const Job& j)
{
  WorkspaceInfo w;
  for (auto& v : j.vars)
    w.AddVariableInfo(v.first, VariableInfo{v.second.type, static_cast<sup::dto::uint32>(v.second.index), v.second.a});
  return JobInfo{j.name, w, MakeTree(j.root)};
}
// The prefix of the names of children is the library's
std::string Prefix()
{
  auto n = utils::CreateIndexedInstrChildName(7);
  MC_CHECK(n.size() > 1 && n.back() == '7', "child name " + n);
  return n.substr(0, n.size() - 1);
}
void FixPrefix(V& v, const std::string& prefix)
{
  for (auto& k : v.kids)
  {
    if (k.first == "children")
      for (size_t n = 0; n < k.second.kids.size(); ++n)
        k.second.kids[n].first = prefix + std::to_string(n);
    FixPrefix(k.second, prefix);
  }
}
V Untyped(V v)
{
  if (v.kind == 't')
    v.type = "";
  for (auto& k : v.kids)
    k.second = Untyped(k.second);
  return v;
}
}  // namespace

// Every small procedure: what the information says, the numbers, the encoding and what becomes of it.
SCENARIO(procedures, s.quick = 3, s.thorough = 4)
{
  auto p = Draw(mc::Depth() > 3 ? 3 : 2);
  p->Setup();
  auto* root = p->RootInstruction();
  InstructionMap map{root};
  auto job = utils::CreateJobInfo(*p, map);
  Job expected;
  expected.name = p->HasAttribute("name") ? "proc" : p->GetFilename();
  long long n = 0;
  for (auto& name : p->VariableNames())
  {
    auto* v = p->GetWorkspace().GetVariable(name);
    expected.vars.push_back({name, Info{v->GetType(), 0, n++, v->GetStringAttributes(), {}}});
  }
  expected.root = Expect(*root, map);
  std::string w = expected.Str();
  MC_CHECK(Read(job) == expected, w + ": information " + Read(job).Str());
  // numbers
  std::vector<long long> all;
  Count(expected.root, all);
  std::set<long long> seen(all.begin(), all.end());
  MC_CHECK(seen.size() == all.size() && *seen.rbegin() + 1 == static_cast<long long>(all.size()), w + ": numbers are not 0..n-1");
  MC_CHECK(map.GetNumberOfInstructions() == all.size() && map.GetInstructionIndexMap().size() == all.size() && job.GetNumberOfInstructions() == all.size(), w + ": number of instructions");
  MC_CHECK(job.GetNumberOfVariables() == expected.vars.size(), w + ": number of variables");
  auto reverse = GetReverseMap(map.GetInstructionIndexMap());
  MC_CHECK(reverse.size() == all.size(), w + ": reverse map");
  for (size_t i = 0; i < reverse.size(); ++i)
    MC_CHECK(reverse[i] && map.FindInstructionIndex(reverse[i]) == i, w + ": reverse map at " + std::to_string(i));
  auto ordered = utils::CreateOrderedInstructionInfo(*job.GetRootInstructionInfo());
  MC_CHECK(ordered.size() == all.size(), w + ": ordered");
  for (size_t i = 0; i < ordered.size(); ++i)
    MC_CHECK(ordered[i] && ordered[i]->GetIndex() == i && ordered[i]->GetType() == reverse[i]->GetType() && ordered[i]->GetAttributes() == reverse[i]->GetStringAttributes(), w + ": ordered at " + std::to_string(i));
  VariableMap vm{p->GetWorkspace()};
  auto names = utils::BuildVariableNameMap(job.GetWorkspaceInfo());
  MC_CHECK(vm.GetNumberOfVariables() == expected.vars.size() && names.size() == expected.vars.size(), w + ": variable map");
  for (size_t i = 0; i < expected.vars.size(); ++i)
    MC_CHECK(vm.FindVariableIndex(expected.vars[i].first) == i && names[i] == expected.vars[i].first, w + ": variable " + expected.vars[i].first);
  auto other = Node("Succeed");
  MC_CHECK(Refused([&] { map.FindInstructionIndex(other.get()); }) && Refused([&] { map.FindInstructionIndex(nullptr); }) && Refused([&] { vm.FindVariableIndex("other"); }), w + ": unknown objects have a number");
  // encoding
  auto av = utils::ToAnyValue(job);
  // the names by which other programs know these values
  MC_CHECK(av.GetTypeName() == "sup::jobInfoType/v1.0", av.GetTypeName());
  MC_CHECK(av["instr_tree_info"].GetTypeName() == "sup::instructionNodeInfoType/v1.0", av["instr_tree_info"].GetTypeName());
  for (auto& n : av["ws_info"].MemberNames())
    MC_CHECK(av["ws_info"][n].GetTypeName() == "sup::variableInfoType/v1.0", av["ws_info"][n].GetTypeName());
  V v = Encode(expected);
  FixPrefix(v, Prefix());
  MC_CHECK(Untyped(wsm::Read(av)) == v, w + ": encoded as " + wsm::Read(av).Str() + " instead of " + v.Str());
  auto back = utils::ToJobInfo(av);
  MC_CHECK(Read(back) == expected && back == job && !(back != job), w + ": decoded as " + Read(back).Str());
  MC_CHECK(back.GetNumberOfInstructions() == all.size(), w + ": decoded number of instructions");
  auto av2 = utils::ToAnyValue(back);
  MC_CHECK(av2 == av, w + ": encoded differently the second time");
}
// Every change of the encoding (thorough: two): refused or exactly what it then says.
SCENARIO(corrupt, s.quick = 1, s.thorough = 2)
{
  std::string prefix = Prefix();
  V v = Encode(Small());
  FixPrefix(v, prefix);
  std::string w;
  for (int c = 0; c < mc::Depth(); ++c)
  {
    // choose a node
    V* at = &v;
    std::string path;
    while (!at->kids.empty())
    {
      int k = mc::Choose(static_cast<int>(at->kids.size()) + 1);
      if (!k)
        break;
      path += "." + at->kids[k - 1].first;
      at = &at->kids[k - 1].second;
    }
    int what = mc::Choose(13);
    V keep = *at;
    switch (what)
    {
    case 0:
      *at = V{};
      break;
    case 1:
      *at = wsm::S("text");
      break;
    case 2:
      *at = wsm::S("");
      break;
    case 3:
      *at = wsm::B(true);
      break;
    case 4:
      *at = wsm::T({});
      break;
    case 5:
    case 6:
    case 7:
      *at = wsm::N("uint32", what - 5);
      break;
    case 8:
      *at = wsm::N("uint32", mc::Choose(2) ? 4 : 4294967295LL);
      break;
    case 9:
      if (at->kids.empty())
        *at = wsm::N("int32", 1);
      else
        at->kids.erase(at->kids.begin() + mc::Choose(static_cast<int>(at->kids.size())));
      break;
    case 10:
      if (at->kids.empty())
        *at = wsm::N("uint64", 1);
      else
      {
        auto& k = at->kids[mc::Choose(static_cast<int>(at->kids.size()))];
        k.first += "x";
      }
      break;
    case 11:
      if (at->kids.empty())
        *at = wsm::N("uint16", 1);
      else
      {
        auto k = at->kids[mc::Choose(static_cast<int>(at->kids.size()))];
        bool child = k.first.compare(0, prefix.size(), prefix) == 0;
        k.first = child ? prefix + std::to_string(at->kids.size()) : k.first + "2";
        at->kids.push_back(k);
      }
      break;
    case 12:
      if (at->kind == 't')
        at->kids.push_back({mc::Choose(2) ? "extra" : "children", mc::Choose(2) ? wsm::S("x") : wsm::T({})});
      break;
    }
    // names of members are unique in every value
    std::set<std::string> names;
    for (auto& k : at->kids)
      if (!names.insert(k.first).second)
        return;
    w += " " + path + " <- " + at->Str();
  }
  auto av = wsm::Build(v);
  auto expected = Decode(v, prefix);
  std::optional<Job> got;
  std::string why;
  try
  {
    auto job = utils::ToJobInfo(av);
    got = Read(job);
    MC_CHECK(job.GetNumberOfInstructions() == Size(*got), w + ": number of instructions");
  }
  catch (const MessageException& e)
  {
    why = e.what();
  }
  MC_CHECK(got.has_value() == expected.has_value(), w + (got ? ": accepted as " + got->Str() : ": refused: " + why));
  if (got)
    MC_CHECK(*got == *expected, w + ": is " + got->Str() + " instead of " + expected->Str());
  // the parts alone
  if (auto* t = Member(v, "instr_tree_info"))
  {
    bool refused = Refused([&] { utils::ToInstructionInfoTree(wsm::Build(*t)); });
    V all = Encode(Small());
    for (auto& k : all.kids)
      if (k.first == "instr_tree_info")
        k.second = *t;
    MC_CHECK(refused == !Decode(all, prefix), w + ": tree alone");
  }
  if (auto* t = Member(v, "ws_info"))
  {
    bool refused = Refused([&] { utils::ToWorkspaceInfo(wsm::Build(*t)); });
    V all = Encode(Small());
    FixPrefix(all, prefix);
    for (auto& k : all.kids)
      if (k.first == "ws_info")
        k.second = *t;
    MC_CHECK(refused == !Decode(all, prefix), w + ": workspace alone");
  }
}
namespace
{
// The place of a piece of information, changed
int Vary(Job& j)
{
  int n = mc::Choose(16);
  switch (n)
  {
  case 0:
    break;
  case 1:
    j.name = "q";
    break;
  case 2:
    j.vars[0].first = "x";
    break;
  case 3:
    j.vars[1].second.type = "Local";
    break;
  case 4:
    j.vars[0].second.a[0].second = "x";
    break;
  case 5:
    j.vars[1].second.a.push_back({"a", ""});
    break;
  case 6:
    j.vars.pop_back();
    break;
  case 7:
    j.root.type = "Fallback";
    break;
  case 8:
    j.root.a.clear();
    break;
  case 9:
    std::swap(j.root.k[0].index, j.root.k[1].index);
    break;
  case 10:
    j.root.k[1].category = 1;
    break;
  case 11:
    j.root.k[0].k[0].a[0].first = "x";
    break;
  case 12:
    j.root.k[0].k[0].type = "Fail";
    break;
  case 13:
    j.root.k.pop_back();
    j.root.k[0].k[0].index = 2;
    break;
  case 14:
    j.root.k.push_back(Info{"Succeed", 0, 4, {}, {}});
    break;
  case 15:
    std::swap(j.root.k[0], j.root.k[1]);
    break;
  }
  return n;
}
}  // namespace
// Equality, copies and moves.
SCENARIO(copies, s.quick = 1, s.thorough = 1)
{
  Job a = Small(), b = Small();
  int x = Vary(a), y = Vary(b);
  auto ja = Make(a), jb = Make(b);
  MC_CHECK(Read(ja) == a && Read(jb) == b, "harness");
  std::string w = a.Str() + " and " + b.Str();
  MC_CHECK((ja == jb) == (x == y) && (ja != jb) == (x != y), w + ": equality");
  switch (mc::Choose(5))
  {
  case 0:
  {
    std::optional<JobInfo> src{ja};
    JobInfo c{*src};
    src.reset();
    MC_CHECK(Read(c) == a && c.GetNumberOfInstructions() == Size(a), w + ": copy");
    break;
  }
  case 1:
  {
    std::optional<JobInfo> src{ja};
    jb = *src;
    src.reset();
    MC_CHECK(Read(jb) == a && jb.GetNumberOfInstructions() == Size(a) && jb == ja, w + ": copy assignment");
    break;
  }
  case 2:
  {
    std::optional<JobInfo> src{ja};
    JobInfo c{std::move(*src)};
    src.reset();
    MC_CHECK(Read(c) == a && c.GetNumberOfInstructions() == Size(a), w + ": move");
    break;
  }
  case 3:
  {
    std::optional<JobInfo> src{ja};
    jb = std::move(*src);
    src.reset();
    MC_CHECK(Read(jb) == a && jb.GetNumberOfInstructions() == Size(a), w + ": move assignment");
    break;
  }
  case 4:
  {
    // information about instructions alone
    auto ia = MakeTree(a.root), ib = MakeTree(b.root);
    MC_CHECK((*ia == *ib) == (a.root == b.root) && (*ia != *ib) == !(a.root == b.root), w + ": equality of instructions");
    InstructionInfo c{*ia};
    *ib = *ia;
    ia.reset();
    MC_CHECK(Read(c) == a.root && Read(*ib) == a.root, w + ": copies of instructions");
    return;
  }
  }
  MC_CHECK(Read(ja) == a, w + ": a copy changes its source");
}
// Trees of information built by hand: every shape, category and number.
SCENARIO(trees, s.quick = 3, s.thorough = 4)
{
  int n = 1 + mc::Choose(mc::Depth());
  std::vector<Info> node(n);
  std::vector<int> parent(n, -1);
  for (int i = 0; i < n; ++i)
  {
    node[i] = Info{"T" + std::to_string(i), mc::Choose(3), mc::Choose(n + 1), {}, {}};
    if (i)
      parent[i] = mc::Choose(i);
  }
  std::vector<InstructionInfo*> p(n);
  auto root = MakeTree(node[0]);
  p[0] = root.get();
  std::vector<int> kids(n, 0);
  for (int i = 1; i < n; ++i)
  {
    long long c = node[parent[i]].category;
    bool ok = c == 2 || (c == 1 && kids[parent[i]] == 0);
    auto x = MakeTree(node[i]);
    InstructionInfo* r = nullptr;
    bool refused = Refused([&] { r = p[parent[i]]->AppendChild(std::move(x)); });
    MC_CHECK(refused == !ok, "child of a node of category " + std::to_string(c));
    if (refused)
      return;
    ++kids[parent[i]];
    p[i] = r;
    MC_CHECK(r->GetType() == node[i].type, "added child");
  }
  std::set<long long> s;
  bool valid = true;
  for (auto& i : node)
    valid = s.insert(i.index).second && i.index < n && valid;
  std::string w = Read(*root).Str();
  MC_CHECK(Refused([&] { ValidateInstructionInfoTree(*root); }) == !valid, w + ": validity");
  auto flat = Flatten(*root);
  std::set<const InstructionInfo*> f(flat.begin(), flat.end()), all(p.begin(), p.end());
  MC_CHECK(flat.size() == static_cast<size_t>(n) && f == all, w + ": flattened");
  std::vector<const InstructionInfo*> o;
  MC_CHECK(Refused([&] { o = utils::CreateOrderedInstructionInfo(*root); }) == !valid, w + ": ordering");
  for (size_t i = 0; i < o.size(); ++i)
    MC_CHECK(o[i]->GetIndex() == i, w + ": order");
  MC_CHECK(Refused([&] { JobInfo("j", WorkspaceInfo{}, MakeTree(Read(*root))); }) == !valid, w + ": job information");
  auto av = utils::ToAnyValueTree(*root);
  std::unique_ptr<InstructionInfo> back;
  MC_CHECK(Refused([&] { back = utils::ToInstructionInfoTree(av); }) == !valid, w + ": decoding");
  if (back)
    MC_CHECK(Read(*back) == Read(*root), w + ": decoded as " + Read(*back).Str());
}
// Numbers of instructions and variables given by hand.
SCENARIO(maps, s.quick = 3, s.thorough = 4)
{
  std::vector<std::unique_ptr<Instruction>> in;
  InstructionMap::InstructionIndexMap m;
  int n = mc::Choose(mc::Depth() + 1);
  std::set<unsigned> s;
  bool ok = true;
  for (int i = 0; i < n; ++i)
  {
    in.push_back(Node("Succeed"));
    unsigned k = mc::Choose(n + 1);
    m[in.back().get()] = k;
    ok = s.insert(k).second && k < static_cast<unsigned>(n) && ok;
  }
  std::vector<const Instruction*> r;
  MC_CHECK(Refused([&] { r = GetReverseMap(m); }) == !ok, "reverse map of wrong numbers");
  if (ok)
    for (auto& p : m)
      MC_CHECK(r[p.second] == p.first, "reverse map");
  WorkspaceInfo w;
  std::set<std::string> names;
  unsigned size = 0;
  for (int i = 0; i < mc::Depth(); ++i)
  {
    std::string name = mc::Choose(2) ? "a" : "b";
    unsigned k = mc::Choose(3);
    bool fine = !names.count(name) && k == size;
    MC_CHECK(Refused([&] { w.AddVariableInfo(name, VariableInfo{"Local", k, {}}); }) == !fine, "variable " + name + " with number " + std::to_string(k) + " after " + std::to_string(size));
    if (fine)
    {
      names.insert(name);
      ++size;
    }
    MC_CHECK(w.GetNumberOfVariables() == size, "number of variables");
  }
  InstructionMap none{nullptr};
  MC_CHECK(none.GetNumberOfInstructions() == 0 && Refused([&] { none.FindInstructionIndex(nullptr); }), "map of nothing");
  Procedure empty{""};
  MC_CHECK(Refused([&] { utils::CreateJobInfo(empty, none); }), "information about nothing");
}
// The state of an instruction.
SCENARIO(states, s.quick = 1, s.thorough = 1)
{
  V v = wsm::T({{"exec_status", wsm::N("uint16", mc::Choose(7))}, {"breakpoint", wsm::B(mc::Choose(2))}});
  bool ok = v.kids[0].second.n <= 4;
  if (ok)
  {
    InstructionState s{v.kids[1].second.n != 0, static_cast<ES>(v.kids[0].second.n)};
    auto av = ToAnyValue(s);
    MC_CHECK(av.GetTypeName() == "sup::instructionStateType/v1.0", av.GetTypeName());
    MC_CHECK(Untyped(wsm::Read(av)) == v, "state is encoded as " + wsm::Read(av).Str());
    auto back = ToInstructionState(av);
    MC_CHECK(back == s && !(back != s), "state is decoded differently");
    InstructionState t{!s.m_breakpoint_set, s.m_execution_status}, u{s.m_breakpoint_set, static_cast<ES>((static_cast<int>(s.m_execution_status) + 1) % 5)};
    MC_CHECK(s != t && s != u && !(s == t) && !(s == u), "different states are equal");
  }
  int change = mc::Choose(8);
  int which = mc::Choose(2);
  auto& k = v.kids[which];
  switch (change)
  {
  case 0:
    break;
  case 1:
    k.second = V{};
    ok = false;
    break;
  case 2:
    k.second = wsm::S("x");
    ok = false;
    break;
  case 3:
    k.second = wsm::N("uint32", 1);
    ok = false;
    break;
  case 4:
    k.first = "other";
    ok = false;
    break;
  case 5:
    v.kids.erase(v.kids.begin() + which);
    ok = false;
    break;
  case 6:
    v.kids.push_back({"extra", wsm::S("x")});
    break;
  case 7:
    v = which ? V{} : wsm::N("uint16", 1);
    ok = false;
    break;
  }
  MC_CHECK(Refused([&] { ToInstructionState(wsm::Build(v)); }) == !ok, v.Str() + ": state");
}
