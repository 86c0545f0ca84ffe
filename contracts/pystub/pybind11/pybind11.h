// Contracts of the part of pybind11 that <upd/python.hpp> relies on (the real pybind11 and CPython are not verified).
//  - class_<T>::def(name, f): the method `name` of T calls f; recorded in vp_py::cls<T>
//  - module::attr(name) = value: the module exposes `value` under `name`
//  - object: a key, a bytes object seen through its iterator, a bound method, or a result of a Python function
//  - function::operator(): calls the Python function (its contract: any result), with these very arguments
#pragma once
#include "../../vp.hpp"
#include <cstddef>
#include <functional>
#include <type_traits>
#include <utility>

namespace pybind11 {
class object;
class bytes;
class function;
} // namespace pybind11

namespace vp_py {
inline bool eq(const char *a, const char *b) {
  for (; *a && *a == *b; ++a, ++b) {}
  return *a == *b;
}
//! Methods of the keys, by key (index in the keyring under contract)
using index_fn = std::size_t (*)();
struct keys_table {
  index_fn index[300];
  void *(*make_action[300])(pybind11::function);
};
template<class Tag> struct globals_ {
  static keys_table keys;
  static const unsigned char *bytes; // bytes of the Python bytes object
  static std::size_t size, taken;
};
template<class Tag> keys_table globals_<Tag>::keys = {};
template<class Tag> const unsigned char *globals_<Tag>::bytes = nullptr;
template<class Tag> std::size_t globals_<Tag>::size = 0;
template<class Tag> std::size_t globals_<Tag>::taken = 0;
using globals = globals_<void>;

// Defined by the contract file
template<class T> struct cls {                                         // binding of a C++ class
  template<class F> static void def(const char *name, F f);
};
template<class T> struct enums {                                       // binding of an enumeration
  static void declared(const char *name);
  static void value(const char *name, T v);
};
template<class T> void expose(const char *name, const T &value);       // module attribute
template<class R> R result_of(int who);                                // result of the Python function
template<class... A> void called(int who, const A &...a);              // call of the Python function
} // namespace vp_py

namespace pybind11 {

//! What iterating over a bytes object yields
struct item {
  unsigned char v;
  template<class T> T cast() const { return static_cast<T>(v); }
};
class iterator {
  mutable item value;
  mutable bool has;
  void advance() const {
    vp_assert(vp_py::globals::taken < vp_py::globals::size, "no byte is read beyond the needed ones");
    value.v = vp_py::globals::bytes[vp_py::globals::taken++];
    has = true;
  }

public:
  iterator() : value{0}, has{false} {}
  iterator &operator++() { advance(); return *this; }
  iterator operator++(int) { auto rv = *this; advance(); return rv; }
  const item &operator*() const { if (!has) advance(); return value; }
  const item *operator->() const { return &**this; }
};

class object {
public:
  enum kind_t { NONE, KEY, METHOD, INTEGER, ACTION, RESULT, BYTES } kind = NONE;
  int id = 0;          // key or function
  const char *name = nullptr;
  std::size_t integer = 0;
  void *act = nullptr;

  object attr(const char *n) const {
    vp_assert(kind == KEY, "an attribute of a key is looked up");
    object r;
    r.kind = METHOD;
    r.id = id;
    r.name = n;
    return r;
  }
  object operator()() const {
    vp_assert(kind == METHOD && vp_py::eq(name, "index"), "`index` takes no argument");
    object r;
    r.kind = INTEGER;
    r.integer = vp_py::globals::keys.index[id]();
    return r;
  }
  inline object operator()(const function &f) const;
  template<class T> T cast() const {
    if constexpr (std::is_integral<T>::value) {
      if (kind == INTEGER) return static_cast<T>(integer);
      return from_result<T>();
    } else if constexpr (std::is_copy_constructible<T>::value || std::is_array<T>::value) {
      return from_result<T>();
    } else {
      vp_assert(kind == ACTION, "an action is unwrapped");
      return static_cast<T &&>(*static_cast<T *>(act));
    }
  }
  iterator begin() const { return iterator{}; }

private:
  template<class T> T from_result() const {
    vp_assert(kind == RESULT, "the result of the Python function is unwrapped");
    return vp_py::result_of<T>(id);
  }
};
using handle = object;

class function : public object {
public:
  template<class... A> object operator()(const A &...a) const {
    vp_py::called(id, a...);
    object r;
    r.kind = RESULT;
    r.id = id;
    return r;
  }
};
inline object object::operator()(const function &f) const {
  vp_assert(kind == METHOD && vp_py::eq(name, "__make_action"), "`__make_action` takes a function");
  object r;
  r.kind = ACTION;
  r.act = vp_py::globals::keys.make_action[id](f);
  return r;
}

//! A Python bytes object: a copy of the characters it is made from
class bytes : public object {
public:
  unsigned char b[64];
  std::size_t n;
  bytes(const char *p, std::size_t size) : n{size} {
    vp_assert(size <= sizeof b, "room in the contract of bytes");
    for (std::size_t i = 0; i < size; ++i) b[i] = static_cast<unsigned char>(p[i]);
  }
};

class module {
public:
  struct accessor {
    const char *name;
    template<class T> void operator=(const T &x) { vp_py::expose(name, x); }
  };
  accessor attr(const char *name) { return {name}; }
};
using module_ = module;

template<class... A> struct init {};
template<class T> class class_ {
public:
  class_(module &, const char *name) { vp_py::cls<T>::declared(name); }
  template<class F> class_ &def(const char *name, F f) {
    vp_py::cls<T>::def(name, static_cast<F &&>(f));
    return *this;
  }
  template<class... A> class_ &def(init<A...>) {
    static_assert(std::is_constructible<T, A...>::value, "constructor");
    vp_py::cls<T>::template constructible<A...>();
    return *this;
  }
};
//! An enumeration: the values and the names they are given
template<class T> class enum_ {
public:
  enum_(module &, const char *name) { vp_py::enums<T>::declared(name); }
  enum_ &value(const char *name, T v, const char * = nullptr) {
    vp_py::enums<T>::value(name, v);
    return *this;
  }
  enum_ &export_values() { return *this; }
};
namespace literals {}
} // namespace pybind11
#define PYBIND11_MODULE(name, variable) void vp_init_##name(pybind11::module &variable)
