// Texts and predicates of statuses, job states, severities; exceptions keep their message.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_commands.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/log_severity.h>
#include <memory>
#include <type_traits>
#include <vector>

using namespace sup::oac_tree;
namespace
{
const char* const kSev[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
std::string N(int n) { return std::to_string(n); }
}  // namespace
SCENARIO(status, s.quick = 0, s.thorough = 0)
{
  const char* names[] = {"Not started", "Not finished", "Running", "Success", "Failure"};
  int v = mc::Choose(5 + 6) - 3;
  // interleave with another query first: results may not depend on history
  int before = mc::Choose(6);
  if (before < 5)
  {
    auto b = static_cast<ExecutionStatus>(before);
    (void)StatusToString(b);
    (void)IsFinishedStatus(b);
  }
  auto s = static_cast<ExecutionStatus>(v);
  std::string expect = v >= 0 && v < 5 ? names[v] : "Unknown status";
  MC_CHECK(StatusToString(s) == expect, N(v));
  if (v >= 0 && v < 5)
  {
    MC_CHECK(IsFinishedStatus(s) == (v == 3 || v == 4), N(v));
    MC_CHECK(NeedsExecute(s) == !(v == 3 || v == 4), N(v));
    MC_CHECK(ReadyForExecute(s) == (v == 0 || v == 1), N(v));
    MC_CHECK(IsExecutingStatus(s) == (v == 1 || v == 2), N(v));
  }
  mc::Outcome("status " + N(v) + " " + StatusToString(s));
}
SCENARIO(job_state, s.quick = 0, s.thorough = 0)
{
  const char* names[] = {"Initial", "Paused", "Stepping", "Running", "Success", "Failure", "Halted"};
  const JobState vals[] = {JobState::kInitial, JobState::kPaused, JobState::kStepping, JobState::kRunning,
                           JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
  int before = mc::Choose(8);
  if (before < 7)
  {
    (void)ToString(vals[before]);
    (void)IsFinishedJobState(vals[before]);
  }
  int v = mc::Choose(7 + 4);
  JobState s = v < 7 ? vals[v] : static_cast<JobState>(v == 7 ? -1 : v == 8 ? 7 : v == 9 ? 99 : -100);
  MC_CHECK(ToString(s) == (v < 7 ? names[v] : "Unknown JobState"), N(v));
  MC_CHECK(IsFinishedJobState(s) == (v >= 4 && v < 7), N(v));
  mc::Outcome("job state " + N(v) + " " + ToString(s));
}
SCENARIO(severity_to_text, s.quick = 0, s.thorough = 0)
{
  int before = mc::Choose(10);
  if (before < 9)
    (void)log::SeverityString(before);
  const int odd[] = {-1, 9, 10, 100, -100, 2147483647, -2147483647 - 1, 256, 265, -256};
  int k = mc::Choose(19);
  int v = k < 9 ? k : odd[k - 9];
  std::string expect = k < 9 ? kSev[k] : "UNKNOWN";
  MC_CHECK(log::SeverityString(v) == expect, N(v));
  MC_CHECK(log::SeverityString(v) == expect, "second call " + N(v));
  if (k < 9)
    MC_CHECK(static_cast<int>(log::GetSeverityFromString(expect)) == v, expect);
  mc::Outcome("severity " + N(v) + " " + expect);
}
// All texts within edit distance one of a severity text (over a small alphabet), plus short texts.
SCENARIO(severity_from_text, s.quick = 0, s.thorough = 0)
{
  const std::string alpha = "AEGNORTYLDIBUCWaeinot \t\n_0";
  int base = mc::Choose(13);
  std::string t = base < 9 ? kSev[base] : base == 9 ? "" : base == 10 ? "UNKNOWN" : base == 11 ? "NUMBER_OF_LOG_LEVELS" : "INFOINFO";
  int n = static_cast<int>(t.size());
  int op = mc::Choose(6);
  if (op == 1 && n > 0)
    t.erase(mc::Choose(n), 1);
  else if (op == 2 && n > 0)
    t[mc::Choose(n)] = alpha[mc::Choose(static_cast<int>(alpha.size()))];
  else if (op == 3)
    t.insert(mc::Choose(n + 1), 1, alpha[mc::Choose(static_cast<int>(alpha.size()))]);
  else if (op == 4)
    for (auto& c : t)
      c = static_cast<char>(tolower(c));
  else if (op == 5)
    t.insert(mc::Choose(n + 1), 1, '\0');
  int expect = 9;
  for (int i = 0; i < 9; ++i)
    if (t == std::string(kSev[i]))
      expect = i;
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(t)) == expect, t);
  // repeated and mixed queries
  int other = mc::Choose(2) ? 3 : 8;
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(kSev[other])) == other, t);
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(t)) == expect, t + " again");
  mc::Outcome(t);
}
namespace
{
template <typename E>
void Exc(const std::string& msg)
{
  std::unique_ptr<E> e(new E(msg));
  MC_CHECK(std::string(e->what()) == msg.c_str(), "message");
  E copy(*e);
  E assigned(std::string("other"));
  assigned = copy;
  e.reset();
  MC_CHECK(std::string(copy.what()) == msg.c_str(), "message of a copy");
  MC_CHECK(std::string(assigned.what()) == msg.c_str(), "message of an assigned copy");
  int caught = 0;
  try
  {
    try
    {
      throw E(msg);
    }
    catch (...)
    {
      auto p = std::current_exception();
      std::rethrow_exception(p);
    }
  }
  catch (const E& x)
  {
    caught = 1;
    MC_CHECK(std::string(x.what()) == msg.c_str(), "message after rethrow");
    MC_CHECK(dynamic_cast<const MessageException*>(&x) != nullptr, "base type");
    MC_CHECK(typeid(x) == typeid(E), "exact type");
  }
  MC_CHECK(caught == 1, "caught by its own type");
  try
  {
    throw E(msg);
  }
  catch (const std::exception& x)
  {
    MC_CHECK(std::string(x.what()) == msg.c_str(), "message through std::exception");
  }
}
template <typename A, typename B>
void Distinct()
{
  bool caught = false;
  try
  {
    throw A(std::string("x"));
  }
  catch (const B&)
  {
    caught = true;
  }
  catch (...)
  {
  }
  MC_CHECK(!caught, "exception types are distinct");
}
}  // namespace
SCENARIO(exceptions, s.quick = 0, s.thorough = 0)
{
  int t = mc::Choose(7);
  int len = mc::Choose(6);
  std::string msg = len == 0 ? "" : len == 1 ? "m" : len == 2 ? "a message with %s and \n" : len == 3 ? std::string(5000, 'z') : len == 4 ? std::string(15, 'q') : std::string(16, 'r');
  switch (t)
  {
  case 0: Exc<MessageException>(msg); break;
  case 1: Exc<RuntimeException>(msg); Distinct<RuntimeException, ParseException>(); Distinct<RuntimeException, InvalidOperationException>(); break;
  case 2: Exc<InvalidOperationException>(msg); Distinct<InvalidOperationException, RuntimeException>(); break;
  case 3: Exc<ParseException>(msg); Distinct<ParseException, RuntimeException>(); break;
  case 4: Exc<ProcedureSetupException>(msg); Distinct<ProcedureSetupException, InstructionSetupException>(); break;
  case 5: Exc<InstructionSetupException>(msg); Distinct<InstructionSetupException, VariableSetupException>(); break;
  default: Exc<VariableSetupException>(msg); Distinct<VariableSetupException, ProcedureSetupException>(); break;
  }
  mc::Outcome(std::to_string(t) + msg.substr(0, 10));
}
SCENARIO(command_order, s.quick = 0, s.thorough = 0)
{
  const JobCommand c[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset,
                          JobCommand::kHalt, JobCommand::kTerminate};
  int a = mc::Choose(6), b = mc::Choose(6);
  MC_CHECK((c[a] <= c[b]) == (a <= b), N(a) + " " + N(b));
  mc::Outcome(N(a) + N(b));
}

namespace
{
// Exceptions kept beyond the handler, in containers, moved, assigned to themselves, handed on in layers.
template <typename E>
void Kept(const std::string& msg)
{
  std::vector<E> v;
  for (int i = 0; i < 9; ++i)
    v.push_back(E(msg + N(i)));
  for (int i = 0; i < 9; ++i)
    MC_CHECK(std::string(v[i].what()) == msg + N(i), "message in a container");
  // the text of one exception stays what it was while others are asked for theirs
  std::vector<const char*> texts;
  for (auto& e : v)
    texts.push_back(e.what());
  for (int i = 0; i < 9; ++i)
    MC_CHECK(std::string(texts[i]) == msg + N(i), "message among others");
  E moved(std::move(v[3]));
  MC_CHECK(std::string(moved.what()) == msg + "3", "message of a moved exception");
  E& self = moved;
  moved = self;
  MC_CHECK(std::string(moved.what()) == msg + "3", "message after self-assignment");
  v[0] = v[8];
  v.erase(v.begin() + 1, v.end());
  MC_CHECK(std::string(v[0].what()) == msg + "8", "message after assignment");
  MessageException sliced(v[0]);
  MC_CHECK(std::string(sliced.what()) == msg + "8", "message of the base");
  std::exception_ptr kept;
  try
  {
    throw v[0];
  }
  catch (const std::exception&)
  {
    kept = std::current_exception();
  }
  v.clear();
  for (int round = 0; round < 2; ++round)
  {
    bool caught = false;
    try
    {
      try
      {
        std::rethrow_exception(kept);
      }
      catch (const MessageException& x)
      {
        MC_CHECK(std::string(x.what()) == msg + "8", "message through the base");
        throw;
      }
    }
    catch (const E& x)
    {
      caught = true;
      const char* p = x.what();
      MC_CHECK(std::string(p) == msg + "8" && std::string(x.what()) == p, "message at the end");
    }
    MC_CHECK(caught, "type at the end");
  }
  const char* text = nullptr;
  E stay(msg);
  {
    E other(stay);
    text = stay.what();
    other = E(std::string("something else entirely, and long enough to need memory"));
  }
  MC_CHECK(std::string(text) == msg, "the text stays valid as long as its exception");
}
template <typename E, typename... Others>
bool CaughtAsOther()
{
  bool wrong = false;
  auto one = [&wrong](auto* t) {
    using O = std::remove_pointer_t<decltype(t)>;
    if constexpr (!std::is_same_v<O, E>)
    {
      try
      {
        throw E(std::string("m"));
      }
      catch (const O&)
      {
        wrong = true;
      }
      catch (const MessageException&)
      {
      }
    }
  };
  (one(static_cast<Others*>(nullptr)), ...);
  return wrong;
}
template <typename E>
void AgainstAll()
{
  bool wrong = CaughtAsOther<E, RuntimeException, InvalidOperationException, ParseException, ProcedureSetupException,
                             InstructionSetupException, VariableSetupException>();
  MC_CHECK(!wrong, "an exception is caught as another type");
}
}  // namespace
SCENARIO(exceptions_kept, s.quick = 0, s.thorough = 0)
{
  int t = mc::Choose(7);
  const int lengths[] = {0, 1, 7, 14, 15, 16, 22, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65536};
  std::string msg(lengths[mc::Choose(20)], static_cast<char>('a' + mc::Choose(2)));
  switch (t)
  {
  case 0: Kept<MessageException>(msg); break;
  case 1: Kept<RuntimeException>(msg); AgainstAll<RuntimeException>(); break;
  case 2: Kept<InvalidOperationException>(msg); AgainstAll<InvalidOperationException>(); break;
  case 3: Kept<ParseException>(msg); AgainstAll<ParseException>(); break;
  case 4: Kept<ProcedureSetupException>(msg); AgainstAll<ProcedureSetupException>(); break;
  case 5: Kept<InstructionSetupException>(msg); AgainstAll<InstructionSetupException>(); break;
  default: Kept<VariableSetupException>(msg); AgainstAll<VariableSetupException>(); break;
  }
  mc::Outcome(N(t) + " " + N(static_cast<int>(msg.size())));
}
// Results do not depend on what was asked before: every sequence of queries.
SCENARIO(query_sequences, s.quick = 4, s.thorough = 5)
{
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(14);
    w += N(k) + " ";
    if (k < 4)
    {
      const int v[] = {0, 8, 9, -1};
      const char* e[] = {"EMERGENCY", "TRACE", "UNKNOWN", "UNKNOWN"};
      MC_CHECK(log::SeverityString(v[k]) == e[k], w);
    }
    else if (k < 8)
    {
      const char* v[] = {"EMERGENCY", "TRACE", "UNKNOWN", "no such"};
      const int e[] = {0, 8, 9, 9};
      MC_CHECK(static_cast<int>(log::GetSeverityFromString(v[k - 4])) == e[k - 4], w);
    }
    else if (k < 11)
    {
      const int v[] = {0, 4, 17};
      const char* e[] = {"Not started", "Failure", "Unknown status"};
      MC_CHECK(StatusToString(static_cast<ExecutionStatus>(v[k - 8])) == e[k - 8], w);
    }
    else
    {
      const int v[] = {0, 6, 17};
      const char* e[] = {"Initial", "Halted", "Unknown JobState"};
      MC_CHECK(ToString(static_cast<JobState>(v[k - 11])) == e[k - 11], w);
    }
  }
  mc::Outcome(w);
}
// Every severity value in a range around the documented ones, and every text of up to two characters.
SCENARIO(severity_range, s.quick = 0, s.thorough = 0)
{
  int v = mc::Choose(1400) - 700;
  auto t = log::SeverityString(v);
  MC_CHECK(t == (v >= 0 && v < 9 ? kSev[v] : "UNKNOWN"), N(v) + " gives " + t);
  auto s = StatusToString(static_cast<ExecutionStatus>(v));
  MC_CHECK((s == "Unknown status") == (v < 0 || v > 4), N(v) + " gives " + s);
  auto j = ToString(static_cast<JobState>(v));
  MC_CHECK((j == "Unknown JobState") == (v < 0 || v > 6), N(v) + " gives " + j);
  mc::Outcome(N(v));
}
SCENARIO(severity_short_texts, s.quick = 0, s.thorough = 0)
{
  std::string t;
  int n = mc::Choose(3);
  for (int i = 0; i < n; ++i)
    t += static_cast<char>(mc::Choose(256));
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(t)) == 9, "text '" + t + "'");
  mc::Outcome("n");
}
// Combinations of two severity texts are none.
SCENARIO(severity_prefixes, s.quick = 0, s.thorough = 0)
{
  std::string base = kSev[mc::Choose(9)];
  int n = mc::Choose(static_cast<int>(base.size()) + 1), tail = mc::Choose(10);
  std::string t = base.substr(0, n) + (tail < 9 ? kSev[tail] : "");
  int expect = 9;
  for (int i = 0; i < 9; ++i)
    if (t == kSev[i])
      expect = i;
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(t)) == expect, t);
  t = base.substr(n) + (tail < 9 ? kSev[tail] : "");
  expect = 9;
  for (int i = 0; i < 9; ++i)
    if (t == kSev[i])
      expect = i;
  MC_CHECK(static_cast<int>(log::GetSeverityFromString(t)) == expect, t);
  mc::Outcome(t);
}
