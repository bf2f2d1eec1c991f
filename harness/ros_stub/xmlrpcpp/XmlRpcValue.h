#pragma once
// Stand-in for the value type of ROS: the same types, conversions and errors, without the wire format.
#include <xmlrpcpp/XmlRpcException.h>
#include <map>
#include <ostream>
#include <string>
#include <vector>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool v) : type_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : type_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : type_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : type_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : type_(TypeString), s_(v) {}
  operator bool&() { want(TypeBoolean); return b_; }
  operator int&() { want(TypeInt); return i_; }
  operator double&() { want(TypeDouble); return d_; }
  operator std::string&() { want(TypeString); return s_; }
  XmlRpcValue const& operator[](int i) const { array(i + 1); return a_[i]; }
  XmlRpcValue& operator[](int i) { grow(i + 1); return a_[i]; }
  XmlRpcValue& operator[](const std::string& k) { want(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { want(TypeStruct); return m_[k]; }
  XmlRpcValue const& operator[](const std::string& k) const { return at(k); }
  XmlRpcValue const& operator[](const char* k) const { return at(k); }
  iterator begin() { want(TypeStruct); return m_.begin(); }
  iterator end() { want(TypeStruct); return m_.end(); }
  const_iterator begin() const { is(TypeStruct); return m_.begin(); }
  const_iterator end() const { is(TypeStruct); return m_.end(); }
  bool valid() const { return type_ != TypeInvalid; }
  Type const& getType() const { return type_; }
  int size() const
  {
    switch (type_)
    {
      case TypeString: return (int)s_.size();
      case TypeArray: return (int)a_.size();
      case TypeStruct: return (int)m_.size();
      default: throw XmlRpcException("type error");
    }
  }
  void setSize(int n) { grow(n); }
  bool hasMember(const std::string& k) const { return type_ == TypeStruct && m_.count(k) > 0; }
private:
  void is(Type t) const { if (type_ != t) throw XmlRpcException("type error"); }
  void want(Type t) { if (type_ == TypeInvalid) type_ = t; else is(t); }
  void array(int n) const { is(TypeArray); if ((int)a_.size() < n) throw XmlRpcException("range error: array index too large"); }
  void grow(int n) { want(TypeArray); if ((int)a_.size() < n) a_.resize(n); }
  const XmlRpcValue& at(const std::string& k) const
  {
    is(TypeStruct);
    auto f = m_.find(k);
    if (f == m_.end()) throw XmlRpcException("unknown member");
    return f->second;
  }
  Type type_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  ValueArray a_;
  ValueStruct m_;
};
inline std::ostream& operator<<(std::ostream& os, const XmlRpcValue& v) { return os << "value of type " << (int)v.getType(); }
}
