// Registries: every history of registrations and creations agrees with a map from names to kinds; the built-in types.
// LIB: full
#include "mc.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace sup::oac_tree;
namespace
{
int g_made = 0;
template <int K>
struct Ins : public Instruction
{
  Ins() : Instruction(Type) { ++g_made; }
  static const std::string Type;
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
template <int K>
const std::string Ins<K>::Type = std::string("Kind") + static_cast<char>('A' + K);
template <int K>
struct Var : public Variable
{
  Var() : Variable(Type) { ++g_made; }
  static const std::string Type;
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
  bool IsAvailableImpl() const override { return false; }
};
template <int K>
const std::string Var<K>::Type = std::string("Kind") + static_cast<char>('A' + K);

// The two registries with one interface.
struct InsReg
{
  InstructionRegistry r;
  using T = Instruction;
  bool Add(const std::string& n, int k)
  {
    static InstructionRegistry::InstructionConstructor c[] = {[]() -> Instruction* { return new Ins<0>; }, []() -> Instruction* { return new Ins<1>; }};
    return r.RegisterInstruction(n, c[k]);
  }
  bool AddKind(int k) { return k ? RegisterInstruction<Ins<1>>(r) : RegisterInstruction<Ins<0>>(r); }
  std::unique_ptr<T> Create(const std::string& n) { return r.Create(n); }
  std::vector<std::string> Names() const { return r.RegisteredInstructionNames(); }
  bool Has(const std::string& n) const { return r.IsRegisteredInstructionName(n); }
};
struct VarReg
{
  VariableRegistry r;
  using T = Variable;
  bool Add(const std::string& n, int k)
  {
    static VariableRegistry::VariableConstructor c[] = {[]() -> Variable* { return new Var<0>; }, []() -> Variable* { return new Var<1>; }};
    return r.RegisterVariable(n, c[k]);
  }
  bool AddKind(int k) { return k ? RegisterVariable<Var<1>>(r) : RegisterVariable<Var<0>>(r); }
  std::unique_ptr<T> Create(const std::string& n) { return r.Create(n); }
  std::vector<std::string> Names() const { return r.RegisteredVariableNames(); }
  bool Has(const std::string& n) const { return r.IsRegisteredVariableName(n); }
};
const std::vector<std::string> kNames = {"a", "b", "ab", "A", "", "KindA"};
template <typename F>
bool Throws(F f)
{
  try
  {
    f();
  }
  catch (const InvalidOperationException&)
  {
    return true;
  }
  return false;
}
template <typename R>
void Verify(R& r, const std::map<std::string, int>& m, const std::string& trace)
{
  auto names = r.Names();
  std::set<std::string> all(names.begin(), names.end());
  MC_CHECK(all.size() == names.size(), trace + ": a name is reported twice");
  MC_CHECK(all.size() == m.size(), trace + ": " + std::to_string(all.size()) + " names instead of " + std::to_string(m.size()));
  for (auto& e : m)
    MC_CHECK(all.count(e.first), trace + ": name '" + e.first + "' is not reported");
  for (std::string n : {"a", "b", "ab", "A", "", "KindA", "KindB", "c", "a "})
  {
    auto it = m.find(n);
    MC_CHECK(r.Has(n) == (it != m.end()), trace + ": whether '" + n + "' is registered");
    int before = g_made;
    if (it == m.end())
    {
      MC_CHECK(Throws([&] { (void)r.Create(n); }), trace + ": creating the unknown '" + n + "' is not refused");
      MC_CHECK(g_made == before, trace + ": something was created for '" + n + "'");
      continue;
    }
    std::unique_ptr<typename R::T> x, y;
    MC_CHECK(!Throws([&] { x = r.Create(n); y = r.Create(n); }), trace + ": creating '" + n + "' is refused");
    MC_CHECK(x && y && x.get() != y.get() && g_made == before + 2, trace + ": two objects for two creations of '" + n + "'");
    const std::string type = it->second ? "KindB" : "KindA";
    MC_CHECK(x->GetType() == type && y->GetType() == type, trace + ": '" + n + "' creates a " + x->GetType() + " instead of a " + type);
  }
}
template <typename R>
void Histories()
{
  R r[2];
  std::map<std::string, int> m[2];
  std::string trace;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    const int n_ops = static_cast<int>(kNames.size()) * 2 + 2;
    const int op = mc::Choose(n_ops * 2);
    const int w = op / n_ops, o = op % n_ops;
    const int k = o % 2;
    const bool by_type = o / 2 == static_cast<int>(kNames.size());
    const std::string name = by_type ? (k ? "KindB" : "KindA") : kNames[o / 2];
    trace += " " + std::to_string(w) + ":" + name + "=" + std::to_string(k);
    bool ok = false;
    const bool refused = Throws([&] { ok = by_type ? r[w].AddKind(k) : r[w].Add(name, k); });
    const bool dup = m[w].count(name) > 0;
    MC_CHECK(refused == dup, trace + (dup ? ": a second registration is not refused" : ": the registration is refused"));
    MC_CHECK(refused || ok, trace + ": the registration reports a failure");
    if (!dup)
      m[w][name] = k;
    for (int i = 0; i < 2; ++i)
      Verify(r[i], m[i], trace);
  }
  std::string key;
  for (int i = 0; i < 2; ++i)
    for (auto& e : m[i])
      key += std::to_string(i) + e.first + std::to_string(e.second) + ",";
  mc::Outcome(key);
}

// Built-in types.
const std::vector<std::pair<std::string, Instruction::Category>> kBuiltIn = {
    {"Choice", Instruction::kCompound}, {"Fallback", Instruction::kCompound}, {"ParallelSequence", Instruction::kCompound},
    {"ReactiveFallback", Instruction::kCompound}, {"ReactiveSequence", Instruction::kCompound},
    {"Sequence", Instruction::kCompound}, {"UserChoice", Instruction::kCompound}, {"Async", Instruction::kDecorator},
    {"For", Instruction::kDecorator}, {"ForceSuccess", Instruction::kDecorator}, {"Include", Instruction::kDecorator},
    {"IncludeProcedure", Instruction::kDecorator}, {"Inverter", Instruction::kDecorator},
    {"Listen", Instruction::kDecorator}, {"Repeat", Instruction::kDecorator}, {"AddElement", Instruction::kAction},
    {"AddMember", Instruction::kAction}, {"Condition", Instruction::kAction}, {"CopyFromProcedure", Instruction::kAction},
    {"CopyToProcedure", Instruction::kAction}, {"Copy", Instruction::kAction}, {"Decrement", Instruction::kAction},
    {"Equals", Instruction::kAction}, {"Fail", Instruction::kAction}, {"GreaterThan", Instruction::kAction},
    {"GreaterThanOrEqual", Instruction::kAction}, {"Increment", Instruction::kAction}, {"Input", Instruction::kAction},
    {"LessThan", Instruction::kAction}, {"LessThanOrEqual", Instruction::kAction}, {"Log", Instruction::kAction},
    {"Message", Instruction::kAction}, {"Output", Instruction::kAction}, {"ResetVariable", Instruction::kAction},
    {"Succeed", Instruction::kAction}, {"UserConfirmation", Instruction::kAction}, {"VarExists", Instruction::kAction},
    {"Wait", Instruction::kAction}, {"WaitForVariable", Instruction::kAction}, {"WaitForVariables", Instruction::kAction}};

void VerifyGlobal(const std::string& trace)
{
  auto& reg = GlobalInstructionRegistry();
  auto names = reg.RegisteredInstructionNames();
  std::set<std::string> all(names.begin(), names.end());
  MC_CHECK(all.size() == names.size(), trace + ": a name is reported twice");
  for (auto& n : all)
    MC_CHECK(reg.IsRegisteredInstructionName(n), trace + ": " + n + " is reported but not registered");
  for (auto& b : kBuiltIn)
  {
    MC_CHECK(all.count(b.first), trace + ": built-in " + b.first + " is missing");
    auto x = reg.Create(b.first);
    MC_CHECK(x && x->GetType() == b.first, trace + ": " + b.first + " creates " + (x ? x->GetType() : "nothing"));
    MC_CHECK(x->GetCategory() == b.second, trace + ": category of " + b.first);
    MC_CHECK(x->GetStatus() == ExecutionStatus::NOT_STARTED && x->GetName().empty() && x->ChildInstructions().empty()
                 && x->GetStringAttributes().empty(),
             trace + ": a created " + b.first + " is not a new one");
  }
  auto& vreg = GlobalVariableRegistry();
  auto vnames = vreg.RegisteredVariableNames();
  std::set<std::string> vall(vnames.begin(), vnames.end());
  MC_CHECK(vall.size() == vnames.size(), trace + ": a variable name is reported twice");
  for (std::string n : {"Local", "File"})
  {
    MC_CHECK(vall.count(n) && vreg.IsRegisteredVariableName(n), trace + ": built-in variable " + n + " is missing");
    auto x = vreg.Create(n);
    MC_CHECK(x && x->GetType() == n && x->GetName().empty() && x->GetStringAttributes().empty(), trace + ": creating " + n);
  }
}
}  // namespace

SCENARIO(instruction_histories, s.quick = 3; s.thorough = 4) { Histories<InsReg>(); }
SCENARIO(variable_histories, s.quick = 3; s.thorough = 4) { Histories<VarReg>(); }
// Changing one created object, or trying to register a built-in name again, changes no other creation.
SCENARIO(builtin, s.quick = 1; s.thorough = 1)
{
  MC_CHECK(&GlobalInstructionRegistry() == &GlobalInstructionRegistry() && &GlobalVariableRegistry() == &GlobalVariableRegistry(),
           "there is more than one global registry");
  const int n = static_cast<int>(kBuiltIn.size());
  const int i = mc::Choose(n + 2);
  const int what = mc::Choose(2);
  if (i < n)
  {
    const std::string name = kBuiltIn[i].first;
    auto x = GlobalInstructionRegistry().Create(name);
    if (what == 0)
    {
      x->SetName("changed");
      x->AddAttribute("extra", "1");
      if (x->GetCategory() != Instruction::kAction)
        x->InsertInstruction(GlobalInstructionRegistry().Create("Succeed"), 0);
    }
    else
      MC_CHECK(Throws([&] { GlobalInstructionRegistry().RegisterInstruction(name, []() -> Instruction* { return new Ins<0>; }); }),
               "a second registration of " + name + " is not refused");
    VerifyGlobal(name + " " + std::to_string(what));
  }
  else
  {
    const std::string name = i == n ? "Local" : "File";
    auto x = GlobalVariableRegistry().Create(name);
    if (what == 0)
      x->AddAttribute("name", "changed");
    else
      MC_CHECK(Throws([&] { GlobalVariableRegistry().RegisterVariable(name, []() -> Variable* { return new Var<0>; }); }),
               "a second registration of " + name + " is not refused");
    VerifyGlobal(name + " " + std::to_string(what));
  }
  mc::Outcome(std::to_string(i) + "/" + std::to_string(what));
}
// Types of the user's next to the built-in ones (registered once in this process).
SCENARIO(additions, s.quick = 1; s.thorough = 1)
{
  static bool done = false;
  if (!done)
  {
    done = true;
    MC_CHECK(RegisterGlobalInstruction<Ins<2>>() && RegisterGlobalVariable<Var<3>>(), "registration fails");
  }
  const int k = mc::Choose(4);
  if (k == 0)
    MC_CHECK(Throws([] { RegisterGlobalInstruction<Ins<2>>(); }), "a second registration is not refused");
  if (k == 1)
    MC_CHECK(Throws([] { RegisterGlobalVariable<Var<3>>(); }), "a second registration is not refused");
  if (k == 2)
    MC_CHECK(Throws([] { (void)GlobalInstructionRegistry().Create("KindD"); }), "a variable type is created as an instruction");
  if (k == 3)
    MC_CHECK(Throws([] { (void)GlobalVariableRegistry().Create("KindC"); }), "an instruction type is created as a variable");
  MC_CHECK(GlobalInstructionRegistry().Create("KindC")->GetType() == "KindC", "type of the created instruction");
  MC_CHECK(GlobalVariableRegistry().Create("KindD")->GetType() == "KindD", "type of the created variable");
  MC_CHECK(!GlobalInstructionRegistry().IsRegisteredInstructionName("KindD") && !GlobalVariableRegistry().IsRegisteredVariableName("KindC"),
           "the two global registries are mixed up");
  VerifyGlobal("additions");
  mc::Outcome(std::to_string(k));
}
