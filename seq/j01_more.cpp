// Job command queue: long queues, long histories, actions that fail.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/job_command_queue.h>
#include <sup/oac-tree/job_commands.h>
#include <deque>
#include <stdexcept>

using namespace sup::oac_tree;
namespace
{
const JobCommand kCmds[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset,
                            JobCommand::kHalt, JobCommand::kTerminate};
const int kSizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101,
                      127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097};
int Pattern(int p, int i)
{
  switch (p)
  {
  case 0: return 2;              // always the same
  case 1: return i % 6;          // all of them in turn
  case 2: return i % 2;          // start, step, start, step
  case 3: return i % 3 ? 1 : 0;  // runs
  case 4: return 5 - i % 6;
  default: return (i / 7) % 5;
  }
}
struct Pair
{
  JobCommandQueue q;
  std::deque<int> m;
  void Push(int c)
  {
    q.Push(kCmds[c]);
    m.push_back(c);
  }
  void Priority(int c, const std::string& w)
  {
    int ran = 0;
    bool ok = q.PriorityPush(kCmds[c], [&ran] { ++ran; });
    bool expect = m.empty() || c > m.front();
    MC_CHECK(ok == expect, w + ": priority push of " + std::to_string(c));
    MC_CHECK(ran == (expect ? 1 : 0), w + ": action");
    if (expect)
      m.push_front(c);
  }
  void Pop(bool wait, const std::string& w)
  {
    if (m.empty())
    {
      JobCommand c = JobCommand::kReset;
      MC_CHECK(!q.TryPop(c), w + ": pop from an empty queue");
      MC_CHECK(c == JobCommand::kReset, w + ": a failing pop changes nothing");
      return;
    }
    JobCommand c = JobCommand::kStart;
    if (wait)
      c = q.WaitForNextCommand();
    else
      MC_CHECK(q.TryPop(c), w + ": command lost");
    MC_CHECK(static_cast<int>(c) == m.front(), w + ": got " + std::to_string(static_cast<int>(c)) + " expected " +
                                                   std::to_string(m.front()));
    m.pop_front();
  }
  void Sizes(const std::string& w)
  {
    MC_CHECK(q.GetSize() == m.size(), w + ": size " + std::to_string(q.GetSize()) + " of " + std::to_string(m.size()));
    MC_CHECK(q.IsEmpty() == m.empty(), w + ": emptiness");
  }
};
}  // namespace

// n commands in a pattern, a priority push, then all of them out again (twice on the same queue).
SCENARIO(long_queue, s.quick = 0, s.thorough = 0)
{
  int n = kSizes[mc::Choose(static_cast<int>(sizeof kSizes / sizeof *kSizes))];
  int p = mc::Choose(6), prio = mc::Choose(7);
  bool wait = mc::Choose(2);
  Pair s;
  for (int round = 0; round < 2; ++round)
  {
    auto w = std::to_string(n) + " commands of pattern " + std::to_string(p) + " round " + std::to_string(round);
    for (int i = 0; i < n; ++i)
    {
      s.Push(Pattern(p, i));
      s.Sizes(w);
    }
    if (prio < 6)
      s.Priority(prio, w);
    s.Sizes(w);
    while (!s.m.empty())
    {
      s.Pop(wait, w);
      s.Sizes(w);
    }
    s.Pop(false, w);
  }
  mc::Outcome(std::to_string(n));
}
// A queue that is filled and emptied over and over, at every fill level.
SCENARIO(long_history, s.quick = 0, s.thorough = 0)
{
  int in = 1 + mc::Choose(4), out = 1 + mc::Choose(4), p = mc::Choose(6), every = mc::Choose(4);
  Pair s;
  for (int i = 0, k = 0; i < 300; ++i)
  {
    auto w = std::to_string(in) + " in, " + std::to_string(out) + " out, pattern " + std::to_string(p) + ", step " +
             std::to_string(i);
    for (int j = 0; j < in; ++j)
      s.Push(Pattern(p, k++));
    if (every && i % (3 * every) == 0)
      s.Priority(Pattern(1, i / 3), w);
    for (int j = 0; j < out; ++j)
      s.Pop((i + j) % 2, w);
    s.Sizes(w);
  }
  while (!s.m.empty())
    s.Pop(false, "drain");
  mc::Outcome(std::to_string(in) + std::to_string(out));
}
// Priority pushes one after the other: every chain of commands on top of every pending front.
SCENARIO(priority_chain, s.quick = 4, s.thorough = 6)
{
  Pair s;
  std::string w = "front";
  int pending = mc::Choose(4);
  for (int i = 0; i < pending; ++i)
    s.Push(i % 2 ? 5 : i);
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int c = mc::Choose(6);
    w += " " + std::to_string(c);
    s.Priority(c, w);
    s.Sizes(w);
  }
  while (!s.m.empty())
    s.Pop(false, w);
  s.Sizes(w);
  mc::Outcome(w);
}
// An action that throws: the exception reaches the caller once and the queue stays usable.
SCENARIO(throwing_action, s.quick = 0, s.thorough = 0)
{
  int before = mc::Choose(7), c = mc::Choose(6);
  JobCommandQueue q;
  if (before < 6)
    q.Push(kCmds[before]);
  bool expect = before == 6 || c > before;
  int ran = 0, caught = 0;
  try
  {
    MC_CHECK(!q.PriorityPush(kCmds[c], [&ran] { ++ran; throw std::runtime_error("x"); }), "refused");
  }
  catch (const std::runtime_error&)
  {
    ++caught;
  }
  MC_CHECK(caught == (expect ? 1 : 0) && ran == caught, "action runs exactly when accepted");
  q.Push(JobCommand::kPause);
  JobCommand last = JobCommand::kStart;
  int n = 0;
  while (q.TryPop(last))
    ++n;
  MC_CHECK(n >= (before < 6 ? 2 : 1) && last == JobCommand::kPause, "the queue stays usable");
  mc::Outcome(std::to_string(before) + std::to_string(c));
}
// Two queues do not know of each other.
SCENARIO(two_queues, s.quick = 4, s.thorough = 5)
{
  Pair s[2];
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(2), op = mc::Choose(4);
    w += std::to_string(k) + std::to_string(op) + " ";
    if (op == 0)
      s[k].Push(1);
    else if (op == 1)
      s[k].Push(3);
    else if (op == 2)
      s[k].Priority(4, w);
    else
      s[k].Pop(false, w);
    s[0].Sizes(w);
    s[1].Sizes(w);
  }
  for (auto& p : s)
    while (!p.m.empty())
      p.Pop(true, w);
  mc::Outcome(w);
}
