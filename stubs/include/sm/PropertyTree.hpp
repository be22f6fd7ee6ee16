#ifndef VSTUB_PROPERTY_TREE_HPP
#define VSTUB_PROPERTY_TREE_HPP
#include <string>
#include <map>
#include <stdexcept>
namespace sm {
class PropertyTree {
public:
  PropertyTree() {}
  PropertyTree(const PropertyTree& parent, const std::string& ns) : values(parent.values), prefix(parent.prefix + ns + "/") {}
  double getDouble(const std::string& k) const { return get(k); }
  double getDouble(const std::string& k, double d) const { return getOr(k, d); }
  int getInt(const std::string& k) const { return static_cast<int>(get(k)); }
  int getInt(const std::string& k, int d) const { return static_cast<int>(getOr(k, d)); }
  bool getBool(const std::string& k) const { return get(k) != 0; }
  bool getBool(const std::string& k, bool d) const { return getOr(k, d) != 0; }
  std::string getString(const std::string& k) const { return svalues.at(prefix + k); }
  std::string getString(const std::string& k, const std::string& d) const { auto it = svalues.find(prefix + k); return it == svalues.end() ? d : it->second; }
  std::map<std::string, double> values;
  std::map<std::string, std::string> svalues;
  std::string prefix;
private:
  double get(const std::string& k) const { auto it = values.find(prefix + k); if (it == values.end()) throw std::runtime_error("missing key " + prefix + k); return it->second; }
  double getOr(const std::string& k, double d) const { auto it = values.find(prefix + k); return it == values.end() ? d : it->second; }
};
}
#endif
