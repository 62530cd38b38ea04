#ifndef STANDIN_SUP_XML_TREE_DATA_H_
#define STANDIN_SUP_XML_TREE_DATA_H_
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  explicit TreeData(const std::string& node_name);
  ~TreeData();
  TreeData(const TreeData&);
  TreeData(TreeData&&);
  TreeData& operator=(const TreeData&);
  TreeData& operator=(TreeData&&);
  bool operator==(const TreeData& other) const;
  bool operator!=(const TreeData& other) const;

  std::string GetNodeName() const;
  void SetNodeName(const std::string& name);
  std::size_t GetNumberOfAttributes() const;
  bool HasAttribute(const std::string& name) const;
  void AddAttribute(const std::string& name, const std::string& value);
  void SetAttribute(const std::string& name, const std::string& value);
  std::string GetAttribute(const std::string& name) const;
  const std::vector<std::pair<std::string, std::string>>& Attributes() const;
  std::size_t GetNumberOfChildren() const;
  void AddChild(const TreeData& child);
  const std::vector<TreeData>& Children() const;
  void SetContent(const std::string& content);
  std::string GetContent() const;

private:
  std::string m_name;
  std::string m_content;
  std::vector<std::pair<std::string, std::string>> m_attributes;
  std::vector<TreeData> m_children;
};
}  // namespace xml
}  // namespace sup
#endif
