// Stand-in implementation of the part of sup-utils (xml) used by oac-tree.
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace sup
{
namespace xml
{
TreeData::TreeData(const std::string& node_name) : m_name{node_name} {}
TreeData::~TreeData() = default;
TreeData::TreeData(const TreeData&) = default;
TreeData::TreeData(TreeData&&) = default;
TreeData& TreeData::operator=(const TreeData&) = default;
TreeData& TreeData::operator=(TreeData&&) = default;
bool TreeData::operator==(const TreeData& o) const
{
  return m_name == o.m_name && m_content == o.m_content && m_attributes == o.m_attributes
         && m_children == o.m_children;
}
bool TreeData::operator!=(const TreeData& o) const { return !(*this == o); }
std::string TreeData::GetNodeName() const { return m_name; }
void TreeData::SetNodeName(const std::string& name) { m_name = name; }
std::size_t TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
bool TreeData::HasAttribute(const std::string& name) const
{
  for (const auto& a : m_attributes)
  {
    if (a.first == name)
    {
      return true;
    }
  }
  return false;
}
void TreeData::AddAttribute(const std::string& name, const std::string& value)
{
  if (name.empty() || HasAttribute(name))
  {
    throw InvalidOperationException("TreeData: attribute exists already or has an empty name");
  }
  m_attributes.emplace_back(name, value);
}
void TreeData::SetAttribute(const std::string& name, const std::string& value)
{
  for (auto& a : m_attributes)
  {
    if (a.first == name)
    {
      a.second = value;
      return;
    }
  }
  AddAttribute(name, value);
}
std::string TreeData::GetAttribute(const std::string& name) const
{
  for (const auto& a : m_attributes)
  {
    if (a.first == name)
    {
      return a.second;
    }
  }
  throw InvalidOperationException("TreeData: unknown attribute [" + name + "]");
}
const std::vector<std::pair<std::string, std::string>>& TreeData::Attributes() const
{
  return m_attributes;
}
std::size_t TreeData::GetNumberOfChildren() const { return m_children.size(); }
void TreeData::AddChild(const TreeData& child) { m_children.push_back(child); }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
void TreeData::SetContent(const std::string& content) { m_content = content; }
std::string TreeData::GetContent() const { return m_content; }

namespace
{
class Reader
{
public:
  explicit Reader(const std::string& s) : m_s{s}, m_p{0} {}
  TreeData Document()
  {
    if (m_s.compare(0, 3, "\xEF\xBB\xBF") == 0)
    {
      m_p = 3;
    }
    Misc();
    TreeData root = Element();
    Misc();
    if (m_p != m_s.size())
    {
      Fail("trailing content");
    }
    return root;
  }

private:
  const std::string& m_s;
  std::size_t m_p;
  [[noreturn]] void Fail(const char* what)
  {
    throw ParseException(std::string("XML: ") + what + " at " + std::to_string(m_p));
  }
  bool Starts(const char* t) const { return m_s.compare(m_p, std::strlen(t), t) == 0; }
  void Space()
  {
    while (m_p < m_s.size() && std::strchr(" \t\r\n", m_s[m_p]) != nullptr && m_s[m_p] != 0)
    {
      ++m_p;
    }
  }
  bool SkipTo(const char* end)
  {
    auto pos = m_s.find(end, m_p);
    if (pos == std::string::npos)
    {
      Fail("unterminated markup");
    }
    m_p = pos + std::strlen(end);
    return true;
  }
  void Misc()
  {
    while (true)
    {
      Space();
      if (Starts("<?"))
      {
        SkipTo("?>");
      }
      else if (Starts("<!--"))
      {
        SkipTo("-->");
      }
      else if (Starts("<!DOCTYPE"))
      {
        SkipTo(">");
      }
      else
      {
        return;
      }
    }
  }
  static bool NameChar(char c)
  {
    return std::strchr(" \t\r\n/><=\"'&", c) == nullptr && c != 0;
  }
  std::string Name()
  {
    std::size_t start = m_p;
    while (m_p < m_s.size() && NameChar(m_s[m_p]))
    {
      ++m_p;
    }
    if (start == m_p || std::strchr("-.0123456789", m_s[start]) != nullptr)
    {
      Fail("name expected");
    }
    return m_s.substr(start, m_p - start);
  }
  void Entity(std::string& out)
  {
    auto end = m_s.find(';', m_p);
    if (end == std::string::npos)
    {
      Fail("entity");
    }
    std::string e = m_s.substr(m_p + 1, end - m_p - 1);
    m_p = end + 1;
    if (e == "lt") out.push_back('<');
    else if (e == "gt") out.push_back('>');
    else if (e == "amp") out.push_back('&');
    else if (e == "quot") out.push_back('"');
    else if (e == "apos") out.push_back('\'');
    else if (e.size() > 1 && e[0] == '#')
    {
      auto v = e[1] == 'x' ? std::strtoul(e.c_str() + 2, nullptr, 16)
                           : std::strtoul(e.c_str() + 1, nullptr, 10);
      if (v < 0x80)
      {
        out.push_back(static_cast<char>(v));
      }
      else if (v < 0x800)
      {
        out.push_back(static_cast<char>(0xC0 | (v >> 6)));
        out.push_back(static_cast<char>(0x80 | (v & 0x3F)));
      }
      else
      {
        out.push_back(static_cast<char>(0xE0 | (v >> 12)));
        out.push_back(static_cast<char>(0x80 | ((v >> 6) & 0x3F)));
        out.push_back(static_cast<char>(0x80 | (v & 0x3F)));
      }
    }
    else
    {
      Fail("unknown entity");
    }
  }
  TreeData Element()
  {
    if (m_p >= m_s.size() || m_s[m_p] != '<')
    {
      Fail("element expected");
    }
    ++m_p;
    std::string name = Name();
    auto strip = [](const std::string& n) {
      auto c = n.find(':');
      return c == std::string::npos ? n : n.substr(c + 1);
    };
    TreeData result{strip(name)};
    while (true)
    {
      std::size_t before = m_p;
      Space();
      if (Starts("/>"))
      {
        m_p += 2;
        return result;
      }
      if (Starts(">"))
      {
        ++m_p;
        break;
      }
      if (before == m_p)
      {
        Fail("space expected");
      }
      std::string attr = Name();
      Space();
      if (m_p >= m_s.size() || m_s[m_p] != '=')
      {
        Fail("'=' expected");
      }
      ++m_p;
      Space();
      if (m_p >= m_s.size() || (m_s[m_p] != '"' && m_s[m_p] != '\''))
      {
        Fail("quote expected");
      }
      char q = m_s[m_p++];
      std::string value;
      while (m_p < m_s.size() && m_s[m_p] != q)
      {
        if (m_s[m_p] == '<')
        {
          Fail("'<' in attribute value");
        }
        if (m_s[m_p] == '&')
        {
          Entity(value);
        }
        else
        {
          char c = m_s[m_p++];
          value.push_back(std::strchr("\t\r\n", c) != nullptr && c != 0 ? ' ' : c);
        }
      }
      if (m_p >= m_s.size())
      {
        Fail("unterminated attribute");
      }
      ++m_p;
      if (attr == "xmlns" || attr.compare(0, 6, "xmlns:") == 0)
      {
        continue;  // namespace declarations are no attributes
      }
      attr = strip(attr);
      if (result.HasAttribute(attr))
      {
        Fail("duplicate attribute");
      }
      result.AddAttribute(attr, value);
    }
    std::string content;
    while (true)
    {
      if (m_p >= m_s.size())
      {
        Fail("unterminated element");
      }
      if (Starts("</"))
      {
        m_p += 2;
        if (Name() != name)
        {
          Fail("mismatched end tag");
        }
        Space();
        if (m_p >= m_s.size() || m_s[m_p] != '>')
        {
          Fail("'>' expected");
        }
        ++m_p;
        break;
      }
      if (Starts("<!--"))
      {
        SkipTo("-->");
      }
      else if (Starts("<![CDATA["))
      {
        auto start = m_p + 9;
        SkipTo("]]>");
        content += m_s.substr(start, m_p - 3 - start);
      }
      else if (Starts("<?"))
      {
        SkipTo("?>");
      }
      else if (m_s[m_p] == '<')
      {
        result.AddChild(Element());
      }
      else if (m_s[m_p] == '&')
      {
        Entity(content);
      }
      else
      {
        content.push_back(m_s[m_p++]);
      }
    }
    auto b = content.find_first_not_of(" \t\r\n");
    auto e = content.find_last_not_of(" \t\r\n");
    if (b != std::string::npos)
    {
      result.SetContent(content.substr(b, e - b + 1));
    }
    return result;
  }
};

std::string Escape(const std::string& s)
{
  std::string r;
  for (char c : s)
  {
    switch (c)
    {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    case '\n': r += "&#10;"; break;
    case '\r': r += "&#13;"; break;
    case '\t': r += "&#9;"; break;
    default: r.push_back(c);
    }
  }
  return r;
}

void Write(const TreeData& t, std::string& out, int level)
{
  out += std::string(2 * level, ' ') + "<" + t.GetNodeName();
  for (const auto& a : t.Attributes())
  {
    out += " " + a.first + "=\"" + Escape(a.second) + "\"";
  }
  if (t.GetNumberOfChildren() == 0)
  {
    out += t.GetContent().empty() ? "/>\n"
                                  : ">" + Escape(t.GetContent()) + "</" + t.GetNodeName() + ">\n";
    return;
  }
  out += ">" + Escape(t.GetContent()) + "\n";
  for (const auto& c : t.Children())
  {
    Write(c, out, level + 1);
  }
  out += std::string(2 * level, ' ') + "</" + t.GetNodeName() + ">\n";
}
}  // unnamed namespace

std::unique_ptr<TreeData> TreeDataFromString(const std::string& str)
{
  return std::make_unique<TreeData>(Reader{str}.Document());
}
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename)
{
  FILE* f = std::fopen(filename.c_str(), "rb");
  if (f == nullptr)
  {
    throw ParseException("XML: could not open file [" + filename + "]");
  }
  std::string content;
  char buf[4096];
  std::size_t n;
  while ((n = std::fread(buf, 1, sizeof buf, f)) > 0)
  {
    content.append(buf, n);
  }
  std::fclose(f);
  return TreeDataFromString(content);
}
std::string TreeDataToString(const TreeData& tree_data)
{
  std::string out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Write(tree_data, out, 0);
  return out;
}
void TreeDataToFile(const std::string& filename, const TreeData& tree_data)
{
  auto s = TreeDataToString(tree_data);
  FILE* f = std::fopen(filename.c_str(), "wb");
  bool ok = f != nullptr && std::fwrite(s.data(), 1, s.size(), f) == s.size();
  if (f == nullptr || std::fclose(f) != 0 || !ok)
  {
    throw SerializeException("XML: could not write file [" + filename + "]");
  }
}
}  // namespace xml
}  // namespace sup
