#pragma once
#include <utility>
#include <cstdint>
#include <deque>
#include <cstring>
#include <cstdio>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>
#include <ostream>
namespace folly {
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
class dynamic {
 public:
  using Array = std::vector<dynamic>;
  struct Less { bool operator()(const dynamic& a, const dynamic& b) const; };
  using Object = std::map<dynamic, dynamic, Less>;
  enum Type { NULLT, BOOL, INT64, DOUBLE, STRING, ARRAY, OBJECT };
  struct ObjectMaker;
  static ObjectMaker object();
  static ObjectMaker object(std::string k, dynamic v);
  dynamic() : v_(nullptr) {}
  dynamic(std::nullptr_t) : v_(nullptr) {}
  dynamic(const char* s) : v_(std::string(s)) {}
  dynamic(std::string s) : v_(std::move(s)) {}
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
  dynamic(T t) {
    if constexpr (std::is_same_v<T, bool>) v_ = t;
    else if constexpr (std::is_floating_point_v<T>) v_ = (double)t;
    else v_ = (int64_t)t;
  }
  // `= folly::dynamic::object` (function pointer conversion)
  dynamic(ObjectMaker (*)()) : v_(Object{}) {}
  dynamic(Object o) : v_(std::move(o)) {}
  dynamic(Array a) : v_(std::move(a)) {}
  inline dynamic(const ObjectMaker& m);
  template <class C> static dynamic array_range(const C& c) {
    Array a; for (auto&& x : c) { using U = std::decay_t<decltype(x)>; if constexpr (std::is_convertible_v<U, dynamic>) a.push_back(dynamic(x)); else a.push_back(array_range(x)); }
    return dynamic(std::move(a));
  }
  bool isNull() const { return std::holds_alternative<std::nullptr_t>(v_); }
  bool isInt() const { return std::holds_alternative<int64_t>(v_); }
  bool isDouble() const { return std::holds_alternative<double>(v_); }
  bool isNumber() const { return isInt() || isDouble(); }
  bool isString() const { return std::holds_alternative<std::string>(v_); }
  bool isBool() const { return std::holds_alternative<bool>(v_); }
  bool isObject() const { return std::holds_alternative<Object>(v_); }
  bool isArray() const { return std::holds_alternative<Array>(v_); }
  int64_t asInt() const {
    if (isInt()) return std::get<int64_t>(v_);
    if (isDouble()) return (int64_t)std::get<double>(v_);
    if (isBool()) return std::get<bool>(v_);
    if (isString()) return std::stoll(std::get<std::string>(v_));
    throw TypeError("asInt");
  }
  int64_t getInt() const { if (!isInt()) throw TypeError("getInt"); return std::get<int64_t>(v_); }
  double asDouble() const { return isDouble() ? std::get<double>(v_) : (double)asInt(); }
  bool asBool() const { return isBool() ? std::get<bool>(v_) : asInt() != 0; }
  std::string asString() const {
    if (isString()) return std::get<std::string>(v_);
    if (isInt()) return std::to_string(std::get<int64_t>(v_));
    if (isBool()) return std::get<bool>(v_) ? "true" : "false";
    throw TypeError("asString");
  }
  const std::string& getString() const { if (!isString()) throw TypeError("getString"); return std::get<std::string>(v_); }
  const Object& obj() const { if (!isObject()) throw TypeError("expected object"); return std::get<Object>(v_); }
  Object& obj() { if (!isObject()) throw TypeError("expected object"); return std::get<Object>(v_); }
  const Array& arr() const { if (!isArray()) throw TypeError("expected array"); return std::get<Array>(v_); }
  Array& arr() { if (!isArray()) throw TypeError("expected array"); return std::get<Array>(v_); }
  // items() yields pairs (dynamic key, dynamic value)
  template <class It> struct View { It b, e; It begin() const { return b; } It end() const { return e; } };
  auto items() const { return View<Object::const_iterator>{obj().begin(), obj().end()}; }
  auto items() { return View<Object::iterator>{obj().begin(), obj().end()}; }
  std::vector<dynamic> keys() const { std::vector<dynamic> r; for (auto& kv : obj()) r.push_back(kv.first); return r; }
  std::vector<dynamic> values() const { std::vector<dynamic> r; for (auto& kv : obj()) r.push_back(kv.second); return r; }
  auto find(const dynamic& k) const { return obj().find(k); }
  auto find(const dynamic& k) { return obj().find(k); }
  template <class V> void insert(const dynamic& k, V&& v) { obj()[k] = dynamic(std::forward<V>(v)); }
  template <class V> auto insert_or_assign(const dynamic& k, V&& v) { return obj().insert_or_assign(k, dynamic(std::forward<V>(v))); }
  template <class V> auto emplace(const dynamic& k, V&& v) { return obj().emplace(k, dynamic(std::forward<V>(v))); }
  template <class V> auto try_emplace(const dynamic& k, V&& v) { return obj().try_emplace(k, dynamic(std::forward<V>(v))); }
  size_t count(const dynamic& k) const { return obj().count(k); }
  bool contains(const dynamic& k) const { return obj().count(k) != 0; }
  size_t erase(const dynamic& k) { return obj().erase(k); }
  dynamic& setDefault(const dynamic& k, dynamic v) { return obj().try_emplace(k, std::move(v)).first->second; }
  dynamic getDefault(const dynamic& k, dynamic v = nullptr) const { auto it = obj().find(k); return it == obj().end() ? v : it->second; }
  const dynamic* get_ptr(const dynamic& k) const { auto it = obj().find(k); return it == obj().end() ? nullptr : &it->second; }
  dynamic* get_ptr(const dynamic& k) { auto it = obj().find(k); return it == obj().end() ? nullptr : &it->second; }
  void update(const dynamic& o) { for (auto& kv : o.obj()) obj()[kv.first] = kv.second; }
  void merge(const dynamic& o) { update(o); }
  size_t size() const { return isArray() ? arr().size() : isObject() ? obj().size() : isString() ? getString().size() : throw TypeError("size"); }
  bool empty() const { return size() == 0; }
  // a missing key is created by the non-const operator only
  dynamic& operator[](const std::string& k) { return obj()[dynamic(k)]; }
  dynamic& operator[](const char* k) { return obj()[dynamic(k)]; }
  dynamic& operator[](const dynamic& k) { return k.isInt() ? arr().at(k.getInt()) : obj()[k]; }
  const dynamic& operator[](const dynamic& k) const { return k.isInt() ? arr().at(k.getInt()) : at(k.getString()); }
  const dynamic& operator[](const std::string& k) const { return at(k); }
  const dynamic& operator[](const char* k) const { return at(std::string(k)); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> dynamic& operator[](I i) { return arr().at(i); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> const dynamic& operator[](I i) const { return arr().at(i); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> const dynamic& at(I i) const { return arr().at(i); }
  dynamic& at(const std::string& k) { return const_cast<dynamic&>(std::as_const(*this).at(k)); }
  const dynamic& at(const std::string& k) const { auto it = obj().find(k); if (it == obj().end()) throw std::out_of_range("couldn't find key " + k); return it->second; }
  template <class... A> static dynamic array(A&&... a) { return dynamic(Array{dynamic(std::forward<A>(a))...}); }
  double getDouble() const { if (!isDouble()) throw TypeError("getDouble"); return std::get<double>(v_); }
  bool getBool() const { if (!isBool()) throw TypeError("getBool"); return std::get<bool>(v_); }
  Type type() const { return (Type)v_.index(); }
  void resize(size_t n, const dynamic& d = nullptr) { arr().resize(n, d); }
  void reserve(size_t) {}
  void push_back(dynamic d) { arr().push_back(std::move(d)); }
  auto begin() const { return arr().begin(); }
  auto end() const { return arr().end(); }
  dynamic& operator+=(const dynamic& o) {
    if (isInt() && o.isInt()) v_ = std::get<int64_t>(v_) + std::get<int64_t>(o.v_);
    else if (isNumber() && o.isNumber()) v_ = asDouble() + o.asDouble();
    else throw TypeError("+=");
    return *this;
  }
  friend dynamic operator+(dynamic a, const dynamic& b) { a += b; return a; }
  bool operator==(const dynamic& o) const { return isNumber() && o.isNumber() && type() != o.type() ? asDouble() == o.asDouble() : v_ == o.v_; }
  bool operator!=(const dynamic& o) const { return !(*this == o); }
 private:
  std::variant<std::nullptr_t, bool, int64_t, double, std::string, Array, Object> v_;
};
inline bool dynamic::Less::operator()(const dynamic& a, const dynamic& b) const {
  if (a.isString() && b.isString()) return a.getString() < b.getString();
  if (a.type() != b.type()) return a.type() < b.type();
  return a.isNumber() && a.asDouble() < b.asDouble();
}
struct dynamic::ObjectMaker {
  dynamic::Object o;
  ObjectMaker& operator()(std::string k, dynamic v) { o[dynamic(std::move(k))] = std::move(v); return *this; }
};
inline dynamic::ObjectMaker dynamic::object() { return ObjectMaker{}; }
inline dynamic::ObjectMaker dynamic::object(std::string k, dynamic v) { ObjectMaker m; m(std::move(k), std::move(v)); return m; }
inline dynamic::dynamic(const ObjectMaker& m) : v_(m.o) {}
}
#include "folly/json.h"
