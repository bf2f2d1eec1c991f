#pragma once
// Stand-in for pluginlib: classes register themselves under their name, libraries are not loaded.
#include <boost/shared_ptr.hpp>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& s) : std::runtime_error(s) {} };
template <class B>
std::map<std::string, std::function<boost::shared_ptr<B>()>>& classes()
{
  static std::map<std::string, std::function<boost::shared_ptr<B>()>> m;
  return m;
}
template <class T, class B>
bool add(const std::string& name)
{
  classes<B>()[name] = [] { return boost::shared_ptr<B>(new T); };
  return true;
}
template <class B>
class ClassLoader
{
public:
  ClassLoader(const std::string&, const std::string&) {}
  boost::shared_ptr<B> createInstance(const std::string& name)
  {
    auto f = classes<B>().find(name);
    if (f == classes<B>().end()) throw PluginlibException("no class " + name);
    return f->second();
  }
  bool isClassAvailable(const std::string& name) { return classes<B>().count(name) > 0; }
};
}
