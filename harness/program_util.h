// Runs the main function of a program on procedure files and compares what it reports with what the procedure does.
#ifndef VERIF_PROGRAM_UTIL_H_
#define VERIF_PROGRAM_UTIL_H_
#include "user_util.h"
#include <sup/dto/anyvalue_helper.h>
#include <sup/log/default_loggers.h>
#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_input_request.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

int ProgramMain(int argc, char* argv[]);

namespace prog
{
using namespace uu;

inline int g_probes = 0;
// Counts its executions.
class Counted : public Instruction
{
public:
  Counted() : Instruction("Probe") {}
  static void Register()
  {
    if (!GlobalInstructionRegistry().IsRegisteredInstructionName("Probe"))
      GlobalInstructionRegistry().RegisterInstruction("Probe", []() -> Instruction* { return new Counted; });
  }

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    ++g_probes;
    return ES::SUCCESS;
  }
};

// The terminal; every piece of output is a step of the schedule.  An execution can be abandoned at any step: the
// buffers outlive it, and own no memory.
struct Screen : std::streambuf
{
  char text[1 << 16], typed[256];
  size_t size = 0;
  std::mutex mtx;
  void Put(const char* s, size_t n)
  {
    std::lock_guard<std::mutex> lk{mtx};
    MC_CHECK(size + n <= sizeof text, "the program writes without end");
    for (size_t i = 0; i < n; ++i)
      text[size++] = s[i];
  }
  void Type(const std::string& t)
  {
    t.copy(typed, sizeof typed);
    setg(typed, typed, typed + t.size());
  }
  int overflow(int c) override
  {
    char ch = static_cast<char>(c);
    if (c != EOF)
      Put(&ch, 1);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    Put(s, static_cast<size_t>(n));
    return n;
  }
};
class Terminal
{
public:
  Terminal()
  {
    static Screen& s = *new Screen;
    m_screen = &s;
    s.size = 0;
    s.Type("");
    std::cin.rdbuf(&s);
    std::cin.clear();
    std::cout.rdbuf(&s);
    std::cout.clear();
  }
  void Type(const std::string& t) { m_screen->Type(t); }
  std::string Text() { return std::string(m_screen->text, m_screen->size); }

private:
  Screen* m_screen;
};

// What a user interface is told, in order.
struct Event
{
  char kind;  // m(essage), l(og), p(ut), s(tatus), v(ariable), i(nput)
  int severity;
  std::vector<std::string> words;
  AnyValue value;
  UserInputRequest request;
  UserInputReply reply;
};
class ReportUi : public UserInterface
{
public:
  std::vector<Event> events;
  std::function<UserInputReply(const UserInputRequest&)> answer;  // none: not supported
  bool put_ok = true;

private:
  class Ready : public IUserInputFuture
  {
  public:
    explicit Ready(UserInputReply r) : m_r{std::move(r)} {}
    sup::dto::uint64 GetId() const override { return 1; }
    bool IsValid() const override { return m_valid; }
    bool IsReady() const override { return m_valid; }
    bool WaitFor(double) const override { return m_valid; }
    UserInputReply GetValue() override
    {
      m_valid = false;
      return m_r;
    }

  private:
    UserInputReply m_r;
    bool m_valid = true;
  };
  void Add(Event e)
  {
    std::lock_guard<std::mutex> lk{m_mtx};
    events.push_back(std::move(e));
  }
  void UpdateInstructionStatus(const Instruction* i) override { Add({'s', 6, {i->GetType(), i->GetName(), StatusToString(i->GetStatus())}, {}, {}, {}}); }
  void VariableUpdated(const std::string& n, const AnyValue& v, bool connected) override { Add({'v', 6, {n, connected ? sup::dto::ValuesToJSONString(v) : "disconnected"}, {}, {}, {}}); }
  bool PutValue(const AnyValue& v, const std::string& d) override
  {
    Add({'p', 6, {d}, v, {}, {}});
    return true;
  }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    UserInputReply reply = answer ? answer(r) : UserInputReply{};
    Add({'i', 3, {}, {}, r, reply});
    if (!answer)
      return std::unique_ptr<IUserInputFuture>{new UnsupportedInputFuture};
    return std::unique_ptr<IUserInputFuture>{new Ready{reply}};
  }
  void Message(const std::string& m) override { Add({'m', 6, {m}, {}, {}, {}}); }
  void Log(int s, const std::string& m) override { Add({'l', s, {m}, {}, {}, {}}); }
  std::mutex m_mtx;
};

inline std::string Dir()
{
  // every explorer has its own files
  static std::string dir = []
  {
    std::string t = std::filesystem::absolute("c01-XXXXXX").string();
    MC_CHECK(mkdtemp(&t[0]), "no scratch directory");
    return t;
  }();
  return dir;
}
inline std::string Save(const std::string& name, const std::string& text)
{
  std::string f = Dir() + "/" + name;
  std::ofstream{f} << text;
  return f;
}
inline int Run(std::vector<std::string> args)
{
  args.insert(args.begin(), "program");
  std::vector<char*> argv;
  for (auto& a : args)
    argv.push_back(&a[0]);
  argv.push_back(nullptr);
  return ProgramMain(static_cast<int>(args.size()), argv.data());
}

// The state in which a procedure ends, run on a user interface.
inline std::string Reference(const std::string& file, UserInterface& ui)
{
  utils::SimpleJobStateMonitor monitor;
  std::string error;
  auto p = utils::SafeParseProcedure(file, error);
  MC_CHECK(p, "reference: " + error);
  auto r = utils::CreateAsyncRunner(*p, ui, monitor, error);
  MC_CHECK(r, "reference: " + error);
  r->Start();
  return ToString(monitor.WaitForFinished());
}

inline const std::string kHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure name=\"p\">\n";
inline const std::string kTail =
  "<Workspace>\n<Local name=\"n\" type='{\"type\":\"uint32\"}' value='5'/>\n<Local name=\"z\" type='{\"type\":\"uint32\"}' value='0'/>\n"
  "<Local name=\"t\" type='{\"type\":\"string\"}' value='\"txt\"'/>\n</Workspace>\n</Procedure>\n";

// Procedures: every sequence of steps up to a length, wrapped or not.
inline std::vector<std::string> Steps()
{
  std::vector<std::string> r = {"<Message name=\"msg\" text=\"hello  world\"/>",
                                "<Output name=\"o1\" fromVar=\"n\" description=\"the number\"/>",
                                "<Output name=\"o2\" fromVar=\"t\"/>",
                                "<Output name=\"o3\" fromVar=\"missing\" description=\"nothing\"/>",
                                "<Copy name=\"cp\" inputVar=\"n\" outputVar=\"z\"/>",
                                "<Inverter name=\"no\"><Fail name=\"f\"/></Inverter>",
                                "<Repeat maxCount=\"2\"><Log message=\"again\" severity=\"info\"/></Repeat>",
                                "<Input outputVar=\"z\" description=\"a value\"/>",
                                "<Fallback><UserChoice description=\"which one\"><Message text=\"first\"/><Fail name=\"second\"/></UserChoice><Message text=\"none\"/></Fallback>"};
  for (const char* s : {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "nonsense"})
    r.push_back("<Log message=\"of " + std::string{s} + "\" severity=\"" + s + "\"/>");
  return r;
}
inline std::string Procedure_(const std::vector<std::string>& steps)
{
  std::string r = kHead + "<Sequence name=\"main\">\n";
  for (auto& s : steps)
    r += s + "\n";
  return r + "</Sequence>\n" + kTail;
}
inline std::vector<std::string> Levels() { return {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"}; }

// Files that are no executable procedure; the probe before the fault must not run.
struct Bad
{
  std::string what, text;
};
inline std::vector<Bad> BadFiles()
{
  std::string probe = "<Sequence><Probe/><Message text=\"executed\"/>";
  return {{"empty", ""},
          {"text", "not a procedure"},
          {"not closed", kHead + probe},
          {"wrong element", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Tree>" + probe + "</Sequence></Tree>\n"},
          {"unknown instruction", kHead + probe + "<Nonsense/></Sequence>" + kTail},
          {"missing attribute", kHead + probe + "<Copy inputVar=\"n\"/></Sequence>" + kTail},
          {"unparsable attribute", kHead + probe + "<Wait timeout=\"soon\"/></Sequence>" + kTail},
          {"no child", kHead + probe + "<Inverter/></Sequence>" + kTail},
          {"unknown include", kHead + probe + "<Include path=\"no.such\"/></Sequence>" + kTail},
          {"no root", kHead + "<Sequence><Probe/></Sequence><Sequence><Probe/></Sequence>" + kTail},
          {"no instruction", kHead + kTail},
          {"unknown variable", kHead + probe + "</Sequence><Workspace><Strange name=\"n\"/></Workspace></Procedure>"},
          {"same variable twice", kHead + probe + "</Sequence><Workspace><Local name=\"n\"/><Local name=\"n\"/></Workspace></Procedure>"},
          {"bad variable", kHead + probe + "</Sequence><Workspace><Local name=\"n\" type='{\"type\":\"uint99\"}'/></Workspace></Procedure>"},
          {"plugin", kHead + "<Plugin>no-such-library.so</Plugin>" + probe + "</Sequence>" + kTail}};
}

// Text that has to be there, line by line; the words of a line in order. A line may be left open.
struct Expected
{
  struct Line
  {
    std::vector<std::string> words;
    bool open = false;
    bool exact = false;
  };
  std::vector<Line> lines;
  void Add(std::vector<std::string> words) { lines.push_back({std::move(words), false, false}); }
  void Exact(const std::string& text)
  {
    std::istringstream is(text);
    std::string l;
    while (std::getline(is, l))
      lines.push_back({{l}, false, true});
  }
  void Open(std::vector<std::string> words) { lines.push_back({std::move(words), true, false}); }
  std::string Check(const std::string& text) const
  {
    size_t pos = 0;
    for (auto& l : lines)
    {
      size_t end = text.find('\n', pos);
      if (end == std::string::npos)
        end = text.size();
      std::string all;
      for (auto& w : l.words)
        all += "'" + w + "' ";
      if (l.exact && text.substr(pos, end - pos) != l.words[0])
        return "expected line " + all + "at '" + text.substr(pos, 80) + "'";
      size_t p = pos;
      for (auto& w : l.words)
      {
        p = text.find(w, p);
        if (p == std::string::npos || p + w.size() > end)
          return "expected a line with " + all + "at '" + text.substr(pos, 80) + "'";
        p += w.size();
      }
      if (l.open)
      {
        // up to the end of the prompt
        pos = text.find(": ", p);
        if (pos == std::string::npos)
          return "expected a prompt at '" + text.substr(p, 80) + "'";
        pos += 2;
      }
      else
      {
        if (end == text.size())
          return "no end of line after '" + text.substr(pos, 80) + "'";
        pos = end + 1;
      }
    }
    return pos == text.size() ? "" : "unexpected text '" + text.substr(pos, 200) + "'";
  }
};
inline std::string Sev(int s) { return "[" + std::to_string(s) + "]"; }
}  // namespace prog
#endif
