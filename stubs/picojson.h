// Analysis stand-in for the picojson submodule (absent from the tree). A value keeps its members where the analysis can follow them: the
// member called KEY of an object is the element va_json_key(KEY) of its fields.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
extern "C" long va_json_key(const char *key) noexcept;
namespace picojson {
  struct null {};
  class value;
  class object {
  public:
    value *fields; std::vector<value> *items; double num; const char *txt; bool flag;
    value &operator[](const char *k); value &operator[](const std::string &k);
  };
  class value {
  public:
    typedef std::vector<value> array;
    typedef picojson::object object;
    object d;
    value() = default; explicit value(bool); explicit value(double); explicit value(const array &); explicit value(const object &);
    explicit value(const std::string &); explicit value(const char *);
    template <typename T> bool is() const;
    template <typename T> decltype(auto) get();
    template <typename T> void set(const T &);
    bool contains(const std::string &) const; bool contains(size_t) const;
    const value &get(const std::string &) const; const value &get(size_t) const;
    value &get(const std::string &); value &get(size_t);
    std::string to_str() const; std::string serialize(bool prettify = false) const; bool evaluate_as_boolean() const;
  };
  template <> inline decltype(auto) value::get<object>() { return (d); }
  template <> inline decltype(auto) value::get<double>() { return (d.num); }
  template <> inline decltype(auto) value::get<bool>() { return (d.flag); }
  template <> inline decltype(auto) value::get<std::string>() { return std::string(d.txt); }
  template <> inline decltype(auto) value::get<std::vector<value>>() { return (*d.items); }
  inline value &object::operator[](const char *k) { return fields[va_json_key(k)]; }
  inline value &object::operator[](const std::string &k) { return fields[va_json_key(k.c_str())]; }
  typedef value::array array;
  const std::string &get_last_error();
  std::istream &operator>>(std::istream &, value &);
  std::ostream &operator<<(std::ostream &, const value &);
  std::string parse(value &, std::istream &); std::string parse(value &, const std::string &);
}
