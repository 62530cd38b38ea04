// The command line program: every short procedure, command line and defective file.
// LIB: full
// APP: oac-tree-cli/main.cpp oac-tree-cli/cl_interface.cpp
#include "program_util.h"
using namespace prog;
namespace
{
// Replies to what is typed
UserInputReply Reply(const UserInputRequest& r, const std::string& typed)
{
  if (r.m_request_type == InputRequestType::kUserValue)
    return typed == "bad" ? CreateUserValueReply(false, {}) : CreateUserValueReply(true, AnyValue{sup::dto::UnsignedInteger32Type, static_cast<sup::dto::uint32>(std::stoul(typed))});
  int i = typed == "bad" ? -1 : std::stoi(typed) - 1;
  return i < 0 || i > 1 ? CreateUserChoiceReply(false, -1) : CreateUserChoiceReply(true, i);
}
Expected Report(const std::vector<Event>& events, int level)
{
  Expected x;
  auto log = [&](int sev, std::vector<std::string> words)
  {
    words.insert(words.begin(), Sev(sev));
    if (sev <= level)
      x.Add(words);
  };
  for (auto& e : events)
    if (e.kind == 'm')
      x.Exact(e.words[0]);
    else if (e.kind == 'p')
    {
      if (!e.words[0].empty())
        x.Exact(e.words[0]);
      x.Exact(sup::dto::PrintAnyValue(e.value));
    }
    else if (e.kind != 'i')
      log(e.severity, e.words);
    else if (e.request.m_request_type == InputRequestType::kUserValue)
    {
      x.Open({"a value"});
      // what is typed is not on the screen: the next output follows the prompt
      if (!ParseUserValueReply(e.reply).first)
        log(3, {});
    }
    else
    {
      x.Add({"which one"});
      auto options = 2;
      for (int i = 1; i <= options; ++i)
        x.Add({std::to_string(i)});
      auto c = ParseUserChoiceReply(e.reply);
      if (c.first)
        x.Add({"selected"});
      else
        log(3, {});
    }
  return x;
}
void Compare(const std::vector<std::string>& steps, const std::string& level, bool give_level, const std::string& typed)
{
  auto file = Save("p.xml", Procedure_(steps));
  ReportUi rec;
  rec.answer = [&](const UserInputRequest& r) { return Reply(r, typed); };
  auto end = Reference(file, rec);
  std::string what = "-v " + level + ", typed '" + typed + "':";
  for (auto& s : steps)
    what += " " + s;
  Terminal t;
  t.Type(typed + "\n" + typed + "\n" + typed + "\n" + typed + "\n");
  std::vector<std::string> args = {"--file", file};
  if (give_level)
    args.insert(args.begin(), {"-v", level});
  int rc = Run(args);
  auto x = Report(rec.events, log::GetSeverityFromString(level));
  x.Add({end});
  auto problem = x.Check(t.Text());
  MC_CHECK(problem.empty(), what + ": " + problem + "\nin the output:\n" + t.Text());
  MC_CHECK(rc == 0, what + ": exit code " + std::to_string(rc));
}
}  // namespace

// Every sequence of steps at every level
void Programs(int n)
{
  auto all = Steps();
  std::vector<std::string> steps;
  for (int i = 0; i < n; ++i)
    steps.push_back(all[static_cast<size_t>(mc::Choose(static_cast<int>(all.size())))]);
  auto levels = Levels();
  bool asks = false;
  for (auto& s : steps)
    asks = asks || s.find("<Input") == 0 || s.find("<Fallback") == 0;
  // the default is WARNING
  // (what is asked is written by another thread, and may come before or after what is logged at INFO)
  std::vector<int> chosen = n < 2 ? std::vector<int>{0, 1, 2, 3, 4, 5, 9} : std::vector<int>{9, 3};
  if (!asks)
    for (int i : n < 2 ? std::vector<int>{6, 7, 8} : std::vector<int>{6})
      chosen.push_back(i);
  int l = chosen[static_cast<size_t>(mc::Choose(static_cast<int>(chosen.size())))];
  const char* const typed[] = {"1", "2", "bad", "7"};
  Compare(steps, l == 9 ? "WARNING" : levels[static_cast<size_t>(l)], l != 9, asks ? typed[mc::Choose(n < 2 ? 4 : 2) + (n < 2 ? 0 : 1)] : "");
}
SCENARIO(steps, s.quick = 0, s.thorough = 0) { Programs(1 + mc::Choose(2)); }
SCENARIO(long_programs, s.quick = -1, s.thorough = 0) { Programs(3); }

// Files that cannot be executed
SCENARIO(bad_files, s.quick = 0, s.thorough = 0)
{
  Counted::Register();
  auto bad = BadFiles();
  int k = mc::Choose(static_cast<int>(bad.size()) + 2);
  auto levels = Levels();
  int l = mc::Choose(9);
  bool validate = mc::Choose(2);
  std::string what = k < static_cast<int>(bad.size()) ? bad[static_cast<size_t>(k)].what : k == static_cast<int>(bad.size()) ? "no file" : "directory";
  std::string file = what == "no file" ? Dir() + "/none.xml" : what == "directory" ? Dir() : Save("bad.xml", bad[static_cast<size_t>(k)].text);
  if (validate)
    what += ", validated";
  g_probes = 0;
  Terminal t;
  std::vector<std::string> args = {"-f", file, "-v", levels[static_cast<size_t>(l)]};
  if (validate)
    args.push_back("-V");
  int rc = Run(args);
  MC_CHECK(g_probes == 0, what + ": executed");
  MC_CHECK(rc != 0, what + ": exit code 0");
  Expected x;
  auto out = t.Text();
  if (l < 3)
    MC_CHECK(out.empty(), what + ": output below the level: " + out);
  else
  {
    // what the set-up reports at lower levels comes first
    auto p = out.find(Sev(3) + " ");
    MC_CHECK(p != std::string::npos && (p == 0 || out[p - 1] == '\n') && out.size() > p + 20 && out.back() == '\n', what + ": no error message: " + out);
  }
  MC_CHECK(out.find("ended") == std::string::npos && out.find("successful") == std::string::npos && out.find("executed") == std::string::npos, what + ": reported as executed: " + out);
}

// Command lines
SCENARIO(command_lines, s.quick = 0, s.thorough = 0)
{
  Counted::Register();
  auto file = Save("p.xml", kHead + "<Sequence><Probe/><Message text=\"executed\"/></Sequence>" + kTail);
  const std::vector<std::vector<std::string>> words = {{"-f", file}, {"--file", file}, {"-V"}, {"--validate"}, {"-v", "ERROR"}, {"--verbose", "INFO"}, {"-h"}, {"--nonsense"}, {"-f"}, {"-v"}};
  std::vector<std::string> args;
  bool has_file = false, validate = false, help = false, bad = false, info = false;
  int n = mc::Choose(4);
  std::string what = "arguments";
  for (int i = 0; i < n && !bad; ++i)
  {
    int k = mc::Choose(static_cast<int>(words.size()));
    for (auto& w : words[static_cast<size_t>(k)])
    {
      args.push_back(w);
      what += " " + w;
    }
    has_file = has_file || k < 2;
    validate = validate || k == 2 || k == 3;
    if (k == 4 || k == 5)
      info = k == 5;
    help = help || k == 6;
    bad = k > 6;  // the last two lack their value
  }
  g_probes = 0;
  Terminal t;
  int rc = Run(args);
  auto out = t.Text();
  bool run = has_file && !help && !bad;
  MC_CHECK(g_probes == (run && !validate), what + ": executed " + std::to_string(g_probes) + " times\n" + out);
  MC_CHECK((out.find("executed\n") != std::string::npos) == (run && !validate), what + ": output:\n" + out);
  MC_CHECK((out.find("Instruction (") != std::string::npos) == (run && !validate && info), what + ": output:\n" + out);
  MC_CHECK((out.find("Usage") != std::string::npos) == !run, what + ": usage: " + out);
  MC_CHECK(!out.empty(), what + ": no output");
  if (run)
    MC_CHECK(rc == 0, what + ": exit code " + std::to_string(rc));
  if (run && validate)
    MC_CHECK(out.find(file) != std::string::npos && out.find("ended") == std::string::npos, what + ": output: " + out);
}

// Every schedule: the last line is the final state, after everything that was reported
SCENARIO(schedules, s.quick = 2, s.thorough = 4)
{
  struct Case
  {
    std::vector<std::string> steps, parts;
    std::string level, end;
  };
  static const std::vector<Case> cases = {{{"<Message text=\"one\"/>", "<Fail name=\"f\"/>"}, {"one\n", "f) : Failure", "main) : Failure\n"}, "INFO", "Failure"},
                                          {{"<Wait timeout=\"0.05\"/>", "<Log message=\"last\" severity=\"error\"/>"}, {"last\n"}, "WARNING", "Success"},
                                          {{"<Input outputVar=\"z\" description=\"a value\"/>", "<Output fromVar=\"z\"/>"}, {"a value", ": ", "7", "\n"}, "WARNING", "Success"}};
  auto& c = cases[static_cast<size_t>(mc::Choose(3))];
  auto file = Save("p.xml", Procedure_(c.steps));
  Terminal t;
  t.Type("7\n");
  int rc = Run({"-f", file, "-v", c.level});
  auto out = t.Text();
  size_t p = 0;
  for (auto& w : c.parts)
  {
    auto q = out.find(w, p);
    MC_CHECK(q != std::string::npos, "no '" + w + "' in the output:\n" + out);
    p = q + w.size();
  }
  auto last = out.substr(p);
  MC_CHECK(last.find(c.end) != std::string::npos && last.find('\n') == last.size() - 1, "not the last line: '" + last + "' in the output:\n" + out);
  MC_CHECK(rc == 0, "exit code " + std::to_string(rc));
}

// A procedure that takes a day
SCENARIO(patience, s.quick = 1, s.thorough = 2)
{
  auto file = Save("p.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\" tickTimeout=\"20000\">\n<Sequence><Wait timeout=\"86400\"/><Message text=\"done\"/></Sequence></Procedure>\n");
  Terminal t;
  int rc = Run({"-f", file});
  auto out = t.Text();
  MC_CHECK(out.find("done\n") == 0 && out.find("Success") != std::string::npos && rc == 0, "output:\n" + out);
}
