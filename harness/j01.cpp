// Job command queue under all schedules: linearizable, nothing lost or duplicated, waiters always wake.
// LIB: core
#include "lin.h"
#include <sup/oac-tree/job_command_queue.h>
#include <sup/oac-tree/job_commands.h>
#include <deque>
#include <memory>
#include <thread>

using namespace sup::oac_tree;
namespace
{
using Model = std::deque<int>;
using Ops = std::vector<lin::Op<Model>>;

const JobCommand kCmds[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset,
                            JobCommand::kHalt, JobCommand::kTerminate};
std::string N(int c) { return std::to_string(c); }

void DoPush(JobCommandQueue& q, Ops& ops, int c)
{
  auto call = mc::Stamp();
  q.Push(kCmds[c]);
  auto ret = mc::Stamp();
  ops.push_back({call, ret, "push(" + N(c) + ")", [c](Model& m) { m.push_back(c); return true; }});
}
void DoPriority(JobCommandQueue& q, Ops& ops, int c)
{
  int ran = 0;
  auto call = mc::Stamp();
  bool ok = q.PriorityPush(kCmds[c], [&ran] { ++ran; });
  auto ret = mc::Stamp();
  MC_CHECK(ran == (ok ? 1 : 0), "action of a priority push runs exactly when the command is accepted");
  ops.push_back({call, ret, "priority(" + N(c) + ")=" + N(ok), [c, ok](Model& m) {
                   bool expect = m.empty() || c > m.front();
                   if (expect != ok)
                     return false;
                   if (ok)
                     m.push_front(c);
                   return true;
                 }});
}
void DoTryPop(JobCommandQueue& q, Ops& ops)
{
  JobCommand cmd = JobCommand::kStart;
  auto call = mc::Stamp();
  bool ok = q.TryPop(cmd);
  auto ret = mc::Stamp();
  int c = static_cast<int>(cmd);
  ops.push_back({call, ret, "trypop=" + (ok ? N(c) : std::string("none")), [c, ok](Model& m) {
                   if (m.empty())
                     return !ok;
                   if (!ok || m.front() != c)
                     return false;
                   m.pop_front();
                   return true;
                 }});
}
void DoWait(JobCommandQueue& q, Ops& ops)
{
  auto call = mc::Stamp();
  int c = static_cast<int>(q.WaitForNextCommand());
  auto ret = mc::Stamp();
  ops.push_back({call, ret, "wait=" + N(c), [c](Model& m) {
                   if (m.empty() || m.front() != c)
                     return false;
                   m.pop_front();
                   return true;
                 }});
}
void DoSize(JobCommandQueue& q, Ops& ops)
{
  auto call = mc::Stamp();
  auto n = q.GetSize();
  auto ret = mc::Stamp();
  ops.push_back({call, ret, "size=" + N(n), [n](Model& m) { return m.size() == n; }});
}
void DoEmpty(JobCommandQueue& q, Ops& ops)
{
  auto call = mc::Stamp();
  bool e = q.IsEmpty();
  auto ret = mc::Stamp();
  ops.push_back({call, ret, "empty=" + N(e), [e](Model& m) { return m.empty() == e; }});
}
void DoAny(JobCommandQueue& q, Ops& ops, int k)
{
  switch (k)
  {
  case 0: return DoPush(q, ops, 0);
  case 1: return DoPriority(q, ops, 4);
  case 2: return DoTryPop(q, ops);
  case 3: return DoPriority(q, ops, 5);
  case 4: return DoPush(q, ops, 2);
  case 5: return DoSize(q, ops);
  default: return DoEmpty(q, ops);
  }
}
void Drain(JobCommandQueue& q, Ops& ops)
{
  while (!q.IsEmpty())
    DoTryPop(q, ops);
  DoTryPop(q, ops);
}
std::string Text(const Ops& ops)
{
  std::string s;
  for (auto& o : ops)
    s += o.text + " ";
  return s;
}
Model Init(JobCommandQueue& q, int k)
{
  Model m;
  if (k >= 1)
  {
    q.Push(kCmds[1]);
    m.push_back(1);
  }
  if (k == 2)
  {
    q.Push(kCmds[4]);
    m.push_back(4);
  }
  if (k == 3)
  {
    q.PriorityPush(kCmds[4], {});
    m.push_front(4);
  }
  return m;
}
void Append(Ops& a, const Ops& b) { a.insert(a.end(), b.begin(), b.end()); }

void TwoThreads(int n1, int n2)
{
  JobCommandQueue q;
  auto init = Init(q, mc::Choose(4));
  std::vector<int> p1, p2;
  for (int i = 0; i < n1; ++i)
    p1.push_back(mc::Choose(7));
  for (int i = 0; i < n2; ++i)
    p2.push_back(mc::Choose(7));
  Ops a, b;
  std::thread t([&] {
    for (int k : p2)
      DoAny(q, b, k);
  });
  for (int k : p1)
    DoAny(q, a, k);
  t.join();
  Append(a, b);
  Drain(q, a);
  mc::Outcome(Text(a));
  lin::Check<Model>(a, init, "command queue");
}
}  // namespace

SCENARIO(ops_1x1, s.quick = 10, s.thorough = 50) { TwoThreads(1, 1); }
SCENARIO(ops_2x1, s.quick = 3, s.thorough = 50) { TwoThreads(2, 1); }
SCENARIO(ops_2x2, s.quick = 1, s.thorough = 6) { TwoThreads(2, 2); }

// One blocked consumer that must receive as many commands as are pushed, whatever the order.
SCENARIO(one_waiter, s.quick = 3, s.thorough = 50, s.spurious = true)
{
  JobCommandQueue q;
  int k1 = mc::Choose(4), k2 = mc::Choose(4);
  auto push = [&q](Ops& o, int k) {
    if (k == 0)
      DoPush(q, o, 0);
    if (k == 1)
      DoPush(q, o, 3);
    if (k == 2)
      DoPriority(q, o, 4);
    if (k == 3)
      DoPriority(q, o, 5);
  };
  Ops a, b, c;
  std::thread producer([&] { push(b, k1); });
  std::thread producer2([&] { push(c, k2); });
  // at least one push is accepted: the consumer may not block forever
  DoWait(q, a);
  producer.join();
  producer2.join();
  Append(a, b);
  Append(a, c);
  Drain(q, a);
  mc::Outcome(Text(a));
  lin::Check<Model>(a, {}, "command queue");
}

// Two blocked consumers and two accepted commands: both must return.
SCENARIO(two_waiters, s.quick = 3, s.thorough = 50)
{
  JobCommandQueue q;
  int k = mc::Choose(3);
  Ops a, b, c;
  std::thread w1([&] { DoWait(q, b); });
  std::thread w2([&] { DoWait(q, c); });
  DoPush(q, a, 0);
  if (k == 0)
    DoPush(q, a, 2);
  else if (k == 1)
    DoPriority(q, a, 4);
  else
  {
    DoPush(q, a, 4);
    DoTryPop(q, a);
    DoPush(q, a, 1);
  }
  // a try-pop may steal a command: push until both are served
  if (k == 2)
    DoPush(q, a, 3);
  w1.join();
  w2.join();
  Append(a, b);
  Append(a, c);
  Drain(q, a);
  mc::Outcome(Text(a));
  lin::Check<Model>(a, {}, "command queue");
}

// The action passed to a priority push takes effect before its command can be taken out.
SCENARIO(action_before_command, s.quick = 4, s.thorough = 50)
{
  JobCommandQueue q;
  if (mc::Choose(2))
    q.Push(kCmds[0]);
  int flag = 0;  // written by the action, read by the consumer after receiving the command
  std::thread consumer([&] {
    for (;;)
    {
      auto cmd = q.WaitForNextCommand();
      if (cmd == JobCommand::kHalt)
      {
        MC_CHECK(flag == 1, "command delivered before its action was executed");
        return;
      }
    }
  });
  q.PriorityPush(JobCommand::kHalt, [&] { flag = 1; });
  consumer.join();
}

// Two producers and two blocked consumers, the queue possibly filled already: every accepted command finds a consumer.
SCENARIO(producers_and_waiters, s.quick = 1, s.thorough = 3)
{
  JobCommandQueue q;
  auto init = Init(q, mc::Choose(2) * 3);
  int k1 = mc::Choose(3), k2 = mc::Choose(3);
  auto push = [&q](Ops& o, int k) {
    if (k == 0)
      DoPush(q, o, 0);
    if (k == 1)
      DoPush(q, o, 5);
    if (k == 2)
      DoPriority(q, o, 5);
  };
  Ops a, b, c, d;
  std::thread w1([&] { DoWait(q, b); });
  std::thread w2([&] { DoWait(q, c); });
  std::thread producer([&] { push(d, k1); });
  push(a, k2);
  DoPush(q, a, 2);
  w1.join();
  w2.join();
  producer.join();
  Append(a, b);
  Append(a, c);
  Append(a, d);
  Drain(q, a);
  mc::Outcome(Text(a));
  lin::Check<Model>(a, init, "command queue");
}

// One consumer serves a whole stream from two producers: each producer's commands arrive in its order.
SCENARIO(stream, s.quick = 2, s.thorough = 4)
{
  JobCommandQueue q;
  int n = 2 + mc::Choose(2);
  std::thread p1([&] {
    for (int i = 0; i < n; ++i)
      q.Push(kCmds[i]);
  });
  std::thread p2([&] {
    q.Push(kCmds[4]);
    q.Push(kCmds[5]);
  });
  std::string low, high;
  for (int i = 0; i < n + 2; ++i)
  {
    int c = static_cast<int>(q.WaitForNextCommand());
    (c < 4 ? low : high) += N(c);
  }
  p1.join();
  p2.join();
  MC_CHECK(low == std::string("0123").substr(0, n) && high == "45", "commands arrived as " + low + " and " + high);
  MC_CHECK(q.IsEmpty(), "nothing is left over");
  mc::Outcome(low + high);
}

// Priority pushes of several threads: each accepted one runs its action once, refused ones never.
SCENARIO(three_priority, s.quick = 2, s.thorough = 50)
{
  JobCommandQueue q;
  auto init = Init(q, mc::Choose(4));
  int k[3];
  for (int& c : k)
    c = 3 + mc::Choose(3);
  Ops a, b, c;
  std::thread t1([&] { DoPriority(q, b, k[0]); });
  std::thread t2([&] { DoPriority(q, c, k[1]); });
  DoPriority(q, a, k[2]);
  t1.join();
  t2.join();
  Append(a, b);
  Append(a, c);
  Drain(q, a);
  mc::Outcome(Text(a));
  lin::Check<Model>(a, init, "command queue");
}

// A consumer that waits for hours or days receives the command that is pushed in the end, and nothing before.
SCENARIO(patient_waiter, s.quick = 1, s.thorough = 3)
{
  JobCommandQueue q;
  const long hours[] = {0, 1, 30, 9000};
  long h = hours[mc::Choose(4)];
  bool priority = mc::Choose(2);
  std::thread producer([&] {
    std::this_thread::sleep_for(std::chrono::hours(h));
    mc::Log("push");
    if (priority)
      q.PriorityPush(JobCommand::kReset, {});
    else
      q.Push(JobCommand::kReset);
  });
  auto c = q.WaitForNextCommand();
  MC_CHECK(c == JobCommand::kReset && mc::GetLog().size() == 1, "the consumer received something else");
  MC_CHECK(q.IsEmpty() && q.GetSize() == 0, "the queue is not empty");
  producer.join();
}
