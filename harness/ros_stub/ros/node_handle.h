#pragma once
// Stand-in for the parameter server of ROS: one tree of values in the process.
#include <ros/bus.h>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <xmlrpcpp/XmlRpcValue.h>
namespace ros_stub
{
inline XmlRpc::XmlRpcValue& params() { static XmlRpc::XmlRpcValue v; return v; }
}
namespace ros
{
class NodeHandle
{
public:
  NodeHandle(const std::string& = "") {}
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
  {
    const XmlRpc::XmlRpcValue* p = find(key);
    if (p) v = *p;
    return p;
  }
  bool getParam(const std::string& key, std::string& v) const { return get(key, v, XmlRpc::XmlRpcValue::TypeString); }
  bool getParam(const std::string& key, bool& v) const { return get(key, v, XmlRpc::XmlRpcValue::TypeBoolean); }
  bool getParam(const std::string& key, int& v) const
  {
    double d;
    if (get(key, v, XmlRpc::XmlRpcValue::TypeInt)) return true;
    if (!get(key, d, XmlRpc::XmlRpcValue::TypeDouble)) return false;
    v = (int)(d < 0 ? d - 0.5 : d + 0.5);
    return true;
  }
  bool getParam(const std::string& key, double& v) const
  {
    int i;
    if (get(key, v, XmlRpc::XmlRpcValue::TypeDouble)) return true;
    if (!get(key, i, XmlRpc::XmlRpcValue::TypeInt)) return false;
    v = i;
    return true;
  }
  template <class T, class Q, class A>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(Q&, A&), T* o)
  {
    ros_stub::bus().services[ros_stub::plain(name)] = [o, f] { Q q; A a; return (o->*f)(q, a); };
    return ServiceServer(ros_stub::plain(name));
  }
  template <class Q, class A>
  ServiceServer advertiseService(const std::string& name, bool (*f)(Q&, A&))
  {
    ros_stub::bus().services[ros_stub::plain(name)] = [f] { Q q; A a; return f(q, a); };
    return ServiceServer(ros_stub::plain(name));
  }
  bool hasParam(const std::string& key) const { return find(key); }
private:
  template <typename T>
  static bool get(const std::string& key, T& v, XmlRpc::XmlRpcValue::Type t)
  {
    const XmlRpc::XmlRpcValue* p = find(key);
    if (!p || p->getType() != t) return false;
    XmlRpc::XmlRpcValue c = *p;
    v = static_cast<T&>(c);
    return true;
  }
  static const XmlRpc::XmlRpcValue* find(const std::string& key)
  {
    const XmlRpc::XmlRpcValue* p = &ros_stub::params();
    for (size_t at = 0; at <= key.size();)
    {
      size_t e = key.find('/', at);
      if (e == std::string::npos) e = key.size();
      const std::string part = key.substr(at, e - at);
      at = e + 1;
      if (part.empty()) continue;
      if (!p->hasMember(part)) return nullptr;
      p = &(*p)[part];
    }
    return p;
  }
};
}
