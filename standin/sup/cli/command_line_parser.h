#ifndef STANDIN_SUP_CLI_COMMAND_LINE_PARSER_H_
#define STANDIN_SUP_CLI_COMMAND_LINE_PARSER_H_
#include <list>
#include <sstream>
#include <string>
#include <vector>
namespace sup
{
namespace cli
{
class CommandLineOption
{
public:
  explicit CommandLineOption(const std::vector<std::string>& names, const std::string& description = {})
    : m_names{names}, m_description{description} {}
  CommandLineOption& SetParameter(bool v) { m_parameter = v; return *this; }
  CommandLineOption& SetRequired(bool v) { m_required = v; return *this; }
  CommandLineOption& SetValueName(const std::string& v) { m_value_name = v; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { m_value = v; m_has_value = true; return *this; }

private:
  friend class CommandLineParser;
  bool Is(const std::string& n) const
  {
    for (auto& x : m_names)
      if (x == n)
        return true;
    return false;
  }
  std::vector<std::string> m_names;
  std::string m_description, m_value_name, m_value;
  bool m_parameter = false, m_required = false, m_has_value = false, m_set = false;
};
// A command line is accepted if all options are known, have their parameter, and all required ones are given.
class CommandLineParser
{
public:
  CommandLineParser& SetDescription(const std::string& header, const std::string& footer = {})
  {
    m_text = header + "\n" + footer + "\n";
    return *this;
  }
  CommandLineOption& AddHelpOption()
  {
    m_help = &AddOption({"-h", "--help"}, "Displays help on command line options");
    return *m_help;
  }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& description = {})
  {
    m_options.emplace_back(names, description);
    return m_options.back();
  }
  bool Parse(int argc, const char* const* argv)
  {
    for (int i = 1; i < argc; ++i)
    {
      auto* o = Find(argv[i]);
      if (!o)
        return false;
      o->m_set = true;
      if (o->m_parameter)
      {
        if (++i == argc)
          return false;
        o->m_value = argv[i];
        o->m_has_value = true;
      }
    }
    for (auto& o : m_options)
      if (o.m_required && !o.m_set)
        return false;
    return !(m_help && m_help->m_set);
  }
  bool IsSet(const std::string& name) const
  {
    auto* o = Find(name);
    return o && o->m_set;
  }
  template <typename T>
  T GetValue(const std::string& name) const
  {
    T result{};
    auto* o = Find(name);
    if (o)
      Convert(o->m_value, result);
    return result;
  }
  std::string GetUsageString() const
  {
    std::string r = "Usage:\n";
    for (auto& o : m_options)
      r += o.m_names[0] + " " + o.m_value_name + " " + o.m_description + "\n";
    return r + m_text;
  }

private:
  static void Convert(const std::string& s, std::string& v) { v = s; }
  template <typename T>
  static void Convert(const std::string& s, T& v)
  {
    std::istringstream is(s);
    is >> v;
  }
  const CommandLineOption* Find(const std::string& n) const { return const_cast<CommandLineParser*>(this)->Find(n); }
  CommandLineOption* Find(const std::string& n)
  {
    for (auto& o : m_options)
      if (o.Is(n))
        return &o;
    return nullptr;
  }
  std::list<CommandLineOption> m_options;
  CommandLineOption* m_help = nullptr;
  std::string m_text;
};
}  // namespace cli
}  // namespace sup
#endif
