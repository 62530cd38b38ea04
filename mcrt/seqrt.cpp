// Driver of the sequential explorers: enumerates every sequence of mc::Choose() decisions of a scenario,
// depth first, executing the real code once per sequence.
#include "mc.h"

#include <execinfo.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cxxabi.h>
#include <exception>
#include <unordered_map>

namespace
{
struct Node
{
  int n;
  int chosen;
};
std::vector<Node> g_stack;
size_t g_pos = 0;
bool g_replaying = false;
std::vector<int> g_forced;
bool g_nondet = false;
sigjmp_buf g_jmp;
volatile sig_atomic_t g_running = 0;
std::string g_violation;
std::string g_outcome;
std::vector<std::string> g_log;
uint64_t g_transitions = 0;
volatile double g_case_start = 0;
int64_t g_vnow = 0;
int g_depth = 0;
const mc::Scenario* g_scn = nullptr;
int g_thread_id_main = 0;

double WallNow()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
struct FailException
{
};

void Crash(int sig, siginfo_t*, void*)
{
  if (!g_running)
    _exit(4);
  g_violation = std::string("crash: signal ") + strsignal(sig);
  siglongjmp(g_jmp, 2);
}
void Alarm(int, siginfo_t*, void*)
{
  if (g_running && WallNow() - g_case_start > 15)
  {
    g_violation = "no progress: one operation sequence does not terminate";
    siglongjmp(g_jmp, 2);
  }
}
void Terminate()
{
  if (!g_running)
    _exit(4);
  g_violation = "std::terminate called";
  siglongjmp(g_jmp, 2);
}
std::string JsonEscape(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += static_cast<char>(c);
    }
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += static_cast<char>(c);
  }
  return r;
}

// returns true when the case ended without violation
bool RunCase()
{
  g_pos = 0;
  g_violation.clear();
  g_outcome.clear();
  g_log.clear();
  g_vnow = 0;
  g_case_start = WallNow();
  if (sigsetjmp(g_jmp, 1) == 0)
  {
    g_running = 1;
    try
    {
      g_scn->fn();
    }
    catch (const std::exception& e)
    {
      g_violation = std::string("unexpected exception: ") + e.what();
    }
    catch (...)
    {
      g_violation = "unexpected exception";
    }
  }
  g_running = 0;
  return g_violation.empty();
}
}  // namespace

// Virtual time: sleeping advances the clock, waiting costs nothing.
extern "C"
{
int nanosleep(const struct timespec* req, struct timespec*)
{
  if (!g_running)
    return static_cast<int>(syscall(SYS_nanosleep, req, nullptr));
  g_vnow += req->tv_sec * 1000000000ll + req->tv_nsec;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) throw()
{
  if (!g_running)
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  int64_t t = 1700000000ll * 1000000000ll + g_vnow;
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
}

namespace mc
{
std::vector<Scenario>& Scenarios()
{
  static auto* v = new std::vector<Scenario>;
  return *v;
}
void Register(const Scenario& s) { Scenarios().push_back(s); }
void Fail(const std::string& message)
{
  g_violation = message;
  siglongjmp(g_jmp, 1);
}
void Log(const std::string& e) { g_log.push_back(e); }
std::vector<std::string> GetLog() { return g_log; }
int64_t Stamp() { return 0; }
int Depth() { return g_depth; }
void Point() {}
void Yield() {}
int64_t Now() { return g_vnow; }
int Tid() { return 0; }
void Outcome(const std::string& o) { g_outcome = o; }
int Choose(int n)
{
  if (n <= 1)
    return 0;
  ++g_transitions;
  if (g_replaying)
  {
    int c = g_pos < g_forced.size() ? g_forced[g_pos] : 0;
    ++g_pos;
    if (c >= n)
    {
      fprintf(stderr, "replay diverged\n");
      _exit(3);
    }
    return c;
  }
  if (g_pos < g_stack.size())
  {
    Node& d = g_stack[g_pos++];
    if (d.n != n)
    {
      g_nondet = true;
      Fail("nondeterminism");
    }
    return d.chosen;
  }
  g_stack.push_back({n, 0});
  ++g_pos;
  return 0;
}
}  // namespace mc

int main(int argc, char** argv)
{
  static char altstack[262144];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = &Crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
  sa.sa_sigaction = &Alarm;
  sa.sa_flags |= SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it{};
  it.it_interval.tv_sec = 3;
  it.it_value.tv_sec = 3;
  setitimer(ITIMER_REAL, &it, nullptr);
  std::set_terminate(&Terminate);

  std::string name, out, replay, ce;
  double time_limit = 60;
  bool trace = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--scenario")
      name = next();
    else if (a == "--bound")
      g_depth = atoi(next().c_str());
    else if (a == "--time")
      time_limit = atof(next().c_str());
    else if (a == "--out")
      out = next();
    else if (a == "--replay")
      replay = next();
    else if (a == "--ce")
      ce = next();
    else if (a == "--trace")
      trace = true;
    else if (a == "--list")
    {
      for (auto& s : mc::Scenarios())
        printf("%s %d %d\n", s.name, s.quick, s.thorough);
      return 0;
    }
  }
  (void)trace;
  if (!replay.empty())
  {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f)
      return 3;
    char line[65536];
    bool in_choices = false;
    while (fgets(line, sizeof line, f))
    {
      if (!strncmp(line, "scenario ", 9))
        name = std::string(line + 9, strcspn(line + 9, "\n"));
      else if (!strncmp(line, "depth ", 6))
        g_depth = atoi(line + 6);
      else if (!strncmp(line, "choices", 7))
        in_choices = true;
      else if (in_choices)
      {
        char* p = line;
        char* e;
        for (long v = strtol(p, &e, 10); e != p; v = strtol(p, &e, 10))
        {
          g_forced.push_back(static_cast<int>(v));
          p = e;
        }
      }
    }
    fclose(f);
    g_replaying = true;
  }
  for (auto& s : mc::Scenarios())
    if (name == s.name)
      g_scn = &s;
  if (!g_scn)
    return 3;
  if (g_replaying)
  {
    bool ok = RunCase();
    printf("%s%s\n", ok ? "no violation in the replayed sequence" : "violation reproduced: ",
           g_violation.c_str());
    for (auto& l : g_log)
      printf("  %s\n", l.c_str());
    return ok ? 0 : 1;
  }
  uint64_t cases = 0;
  bool violation = false, timed_out = false;
  std::unordered_map<std::string, uint64_t> outcomes;
  std::vector<std::string> samples;
  size_t max_len = 0;
  double t0 = WallNow();
  for (;;)
  {
    bool ok = RunCase();
    if (g_nondet)
    {
      fprintf(stderr, "seqrt: NONDETERMINISM in %s\n", name.c_str());
      return 3;
    }
    ++cases;
    max_len = std::max(max_len, g_pos);
    if (!ok)
    {
      g_stack.resize(std::min(g_pos, g_stack.size()));
      violation = true;
      break;
    }
    if (outcomes.size() < 3000000)
    {
      auto r = outcomes.emplace(g_outcome, 0);
      if (r.second && (samples.size() < 3 || (cases & (cases - 1)) == 0))
        samples.push_back(g_outcome);
      ++r.first->second;
    }
    g_stack.resize(g_pos);
    while (!g_stack.empty() && g_stack.back().chosen + 1 >= g_stack.back().n)
      g_stack.pop_back();
    if (g_stack.empty())
      break;
    ++g_stack.back().chosen;
    if ((cases & 63) == 0 && WallNow() - t0 > time_limit)
    {
      timed_out = true;
      break;
    }
  }
  if (violation)
  {
    std::string file = ce.empty() ? "/tmp/seqrt-" + name + ".replay" : ce;
    if (FILE* f = fopen(file.c_str(), "w"))
    {
      std::string one;
      for (char c : g_violation)
        one += c == '\n' ? ' ' : c;
      fprintf(f, "scenario %s\ndepth %d\nviolation %s\nchoices\n", name.c_str(), g_depth, one.c_str());
      for (auto& n : g_stack)
        fprintf(f, "%d ", n.chosen);
      fprintf(f, "\n");
      for (auto& l : g_log)
        fprintf(f, "# %s\n", l.c_str());
      fclose(f);
    }
  }
  std::string json = "{\"scenario\":\"" + JsonEscape(name) + "\"";
  json += ",\"cases\":" + std::to_string(cases);
  json += ",\"states\":" + std::to_string(outcomes.size());
  json += ",\"transitions\":" + std::to_string(g_transitions);
  json += ",\"max_decisions\":" + std::to_string(max_len);
  json += ",\"depth\":" + std::to_string(g_depth);
  json += std::string(",\"time_capped\":") + (timed_out ? "true" : "false");
  json += ",\"outcomes\":" + std::to_string(outcomes.size());
  json += ",\"outcome_samples\":[";
  for (size_t i = 0; i < samples.size() && i < 4; ++i)
    json += std::string(i ? "," : "") + "\"" + JsonEscape(samples[samples.size() - 1 - i].substr(0, 300)) + "\"";
  json += "]";
  char wall[64];
  snprintf(wall, sizeof wall, ",\"wall_s\":%.2f", WallNow() - t0);
  json += wall;
  if (violation)
    json += ",\"violation\":\"" + JsonEscape(g_violation) + "\"";
  json += "}\n";
  if (out.empty())
    printf("%s", json.c_str());
  else if (FILE* f = fopen(out.c_str(), "w"))
  {
    fputs(json.c_str(), f);
    fclose(f);
  }
  return violation ? 1 : 0;
}
