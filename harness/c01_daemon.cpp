// The daemon: every short procedure, command line and defective file.
// LIB: full
// APP: oac-tree-daemon/main.cpp oac-tree-daemon/daemon_interface.cpp
#include "program_util.h"
using namespace prog;
namespace
{
struct SysLog
{
  struct Entry
  {
    int severity;
    std::string text;
  };
  std::vector<Entry> entries;
  std::mutex mtx;
  SysLog()
  {
    sup::log::SysLogSink() = [this](int s, const std::string&, const std::string& m)
    {
      std::lock_guard<std::mutex> lk{mtx};
      entries.push_back({s, m});
    };
  }
  ~SysLog() { sup::log::SysLogSink() = nullptr; }
  std::string Text()
  {
    std::string r;
    for (auto& e : entries)
      r += Sev(e.severity) + " " + e.text + "\n";
    return r;
  }
};
void Compare(const std::vector<std::string>& steps, const std::string& level, bool give_level)
{
  auto file = Save("p.xml", Procedure_(steps));
  ReportUi rec;
  auto end = Reference(file, rec);
  std::string what = "-v " + level + ":";
  for (auto& s : steps)
    what += " " + s;
  Terminal t;
  SysLog log;
  std::vector<std::string> args = {"--file", file};
  if (give_level)
    args.insert(args.begin(), {"-v", level});
  int rc = Run(args);
  std::vector<Event> want;
  int max = log::GetSeverityFromString(level);
  for (auto& e : rec.events)
  {
    auto w = e;
    if (e.kind == 'v')
      continue;
    if (e.kind == 'p')
      w.words.push_back(sup::dto::ValuesToJSONString(e.value));
    if (w.severity <= max)
      want.push_back(w);
  }
  if (max >= 6)
    want.push_back({'m', 6, {end}, {}, {}, {}});
  auto& got = log.entries;
  for (size_t i = 0; i < want.size() || i < got.size(); ++i)
  {
    std::string words;
    if (i < want.size())
      for (auto& w : want[i].words)
        words += " '" + w + "'";
    MC_CHECK(i < got.size(), what + ": not logged:" + words + "\nin the log:\n" + log.Text());
    MC_CHECK(i < want.size(), what + ": unexpected entry " + got[i].text + "\nin the log:\n" + log.Text());
    MC_CHECK(got[i].severity == want[i].severity, what + ": severity of " + got[i].text + ": " + std::to_string(got[i].severity));
    size_t p = 0;
    for (auto& w : want[i].words)
    {
      p = got[i].text.find(w, p);
      MC_CHECK(p != std::string::npos, what + ": '" + got[i].text + "' instead of" + words);
      p += w.size();
    }
  }
  MC_CHECK(rc == 0, what + ": exit code " + std::to_string(rc));
  MC_CHECK(t.Text().empty(), what + ": output on the terminal: " + t.Text());
}
}  // namespace

void Programs(int n)
{
  auto all = Steps();
  std::vector<std::string> steps;
  for (int i = 0; i < n; ++i)
    steps.push_back(all[static_cast<size_t>(mc::Choose(static_cast<int>(all.size())))]);
  auto levels = Levels();
  int l = n < 2 ? mc::Choose(10) : std::vector<int>{6, 9, 3}[static_cast<size_t>(mc::Choose(3))];
  Compare(steps, l == 9 ? "WARNING" : levels[static_cast<size_t>(l)], l != 9);
}
SCENARIO(daemon_steps, s.quick = 0, s.thorough = 0) { Programs(1 + mc::Choose(2)); }
SCENARIO(daemon_long_programs, s.quick = -1, s.thorough = 0) { Programs(3); }

SCENARIO(daemon_bad_files, s.quick = 0, s.thorough = 0)
{
  Counted::Register();
  auto bad = BadFiles();
  int k = mc::Choose(static_cast<int>(bad.size()) + 2);
  auto levels = Levels();
  int l = mc::Choose(9);
  std::string what = k < static_cast<int>(bad.size()) ? bad[static_cast<size_t>(k)].what : k == static_cast<int>(bad.size()) ? "no file" : "directory";
  std::string file = what == "no file" ? Dir() + "/none.xml" : what == "directory" ? Dir() : Save("bad.xml", bad[static_cast<size_t>(k)].text);
  g_probes = 0;
  SysLog log;
  int rc = Run({"-f", file, "-v", levels[static_cast<size_t>(l)]});
  MC_CHECK(g_probes == 0, what + ": executed");
  MC_CHECK(rc != 0, what + ": exit code 0");
  MC_CHECK(log.entries.size() == (l >= 3), what + ": log:\n" + log.Text());
  if (l >= 3)
    MC_CHECK(log.entries[0].severity == 3 && log.entries[0].text.size() > 10, what + ": log:\n" + log.Text());
}

SCENARIO(daemon_command_lines, s.quick = 0, s.thorough = 0)
{
  Counted::Register();
  auto file = Save("p.xml", kHead + "<Sequence><Probe/><Message text=\"executed\"/></Sequence>" + kTail);
  const std::vector<std::vector<std::string>> words = {{"-f", file}, {"--file", file}, {"-v", "ERROR"}, {"--verbose", "INFO"}, {"-h"}, {"--nonsense"}, {"-f"}, {"-v"}};
  std::vector<std::string> args;
  bool has_file = false, help = false, bad = false, info = false;
  int n = mc::Choose(4);
  std::string what = "arguments";
  for (int i = 0; i < n && !bad; ++i)
  {
    int k = mc::Choose(static_cast<int>(words.size()));
    for (auto& w : words[static_cast<size_t>(k)])
    {
      args.push_back(w);
      what += " " + w;
    }
    has_file = has_file || k < 2;
    if (k == 2 || k == 3)
      info = k == 3;
    help = help || k == 4;
    bad = k > 4;
  }
  g_probes = 0;
  Terminal t;
  SysLog log;
  int rc = Run(args);
  bool run = has_file && !help && !bad;
  MC_CHECK(g_probes == run, what + ": executed " + std::to_string(g_probes) + " times");
  MC_CHECK(log.entries.empty() == !(run && info), what + ": log:\n" + log.Text());
  MC_CHECK((t.Text().find("Usage") != std::string::npos) == !run, what + ": usage: " + t.Text());
  if (run)
    MC_CHECK(rc == 0, what + ": exit code " + std::to_string(rc));
}

SCENARIO(daemon_schedules, s.quick = 3, s.thorough = 4)
{
  struct Case
  {
    std::vector<std::string> steps, parts;
    std::string end;
  };
  static const std::vector<Case> cases = {{{"<Message text=\"one\"/>", "<Fail name=\"f\"/>"}, {"one", "f) : Failure", "main) : Failure"}, "Failure"},
                                          {{"<Wait timeout=\"0.05\"/>", "<Log message=\"last\" severity=\"error\"/>"}, {"last", "main) : Success"}, "Success"},
                                          {{"<Input outputVar=\"z\" description=\"a value\"/>"}, {"[3]", "main) : Failure"}, "Failure"}};
  auto& c = cases[static_cast<size_t>(mc::Choose(3))];
  auto file = Save("p.xml", Procedure_(c.steps));
  SysLog log;
  int rc = Run({"-f", file, "-v", "INFO"});
  auto out = log.Text();
  size_t p = 0;
  for (auto& w : c.parts)
  {
    auto q = out.find(w, p);
    MC_CHECK(q != std::string::npos, "no '" + w + "' in the log:\n" + out);
    p = q + w.size();
  }
  MC_CHECK(out[p] == '\n', "log:\n" + out);
  auto last = out.substr(p + 1);
  MC_CHECK(last.find(c.end) != std::string::npos && last.find('\n') == last.size() - 1, "not the last entry: '" + last + "' in the log:\n" + out);
  MC_CHECK(rc == 0, "exit code " + std::to_string(rc));
}

SCENARIO(daemon_patience, s.quick = 1, s.thorough = 2)
{
  auto file = Save("p.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\" tickTimeout=\"20000\">\n<Sequence><Wait timeout=\"86400\"/><Message text=\"done\"/></Sequence></Procedure>\n");
  SysLog log;
  int rc = Run({"-f", file, "-v", "INFO"});
  auto out = log.Text();
  MC_CHECK(out.find("done\n") != std::string::npos && log.entries.back().text.find("Success") != std::string::npos && rc == 0, "log:\n" + out);
}
