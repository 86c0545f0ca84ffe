// P19: the module of the Python package (py/unpadded/_details.cpp), over the contracts of pybind11
#include "pystub/pybind11/pybind11.h"
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>

namespace vp_py {
template<> struct cls<upd::action> { // opaque: made by a key, taken by a dispatcher
  static bool known;
  static void declared(const char *) { known = true; }
  template<class F> static void def(const char *, F) {}
};
bool cls<upd::action>::known = false;
//! The names of the statuses, as seen from Python
template<> struct enums<upd::packet_status> {
  static const char *enum_name;
  static const char *names[8];
  static upd::packet_status values[8];
  static std::size_t n;
  static void declared(const char *name) { enum_name = name; }
  static void value(const char *name, upd::packet_status v) {
    vp_assert(n < 8, "room for the names");
    names[n] = name;
    values[n++] = v;
  }
};
const char *enums<upd::packet_status>::enum_name = nullptr;
const char *enums<upd::packet_status>::names[8] = {};
upd::packet_status enums<upd::packet_status>::values[8] = {};
std::size_t enums<upd::packet_status>::n = 0;
} // namespace vp_py

#include <_details.cpp>

static void module_() {
  using E = vp_py::enums<upd::packet_status>;
  const struct { const char *name; upd::packet_status v; } want[] = {{"LOADING_PACKET", upd::packet_status::LOADING_PACKET}, {"RESOLVED_PACKET", upd::packet_status::RESOLVED_PACKET}, {"DROPPED_PACKET", upd::packet_status::DROPPED_PACKET}};
  E::n = 0;
  E::enum_name = nullptr;
  vp_py::cls<upd::action>::known = false;
  pybind11::module m;
  vp_init__details(m);
  vp_assert(E::enum_name && vp_py::eq(E::enum_name, "PacketStatus"), "the statuses are exposed as PacketStatus");
  for (auto &w : want) {
    std::size_t found = 0;
    for (std::size_t i = 0; i < E::n; ++i)
      if (vp_py::eq(E::names[i], w.name)) {
        ++found;
        vp_assert(E::values[i] == w.v, "a status has the same name in Python and in C++");
      }
    vp_assert(found == 1, "every status has its name in Python");
  }
  vp_assert(vp_py::cls<upd::action>::known, "actions can be passed from a key to a dispatcher");
  // the values of the enumeration are distinguishable
  vp_assert(want[0].v != want[1].v && want[1].v != want[2].v && want[0].v != want[2].v, "the statuses are distinct");
  vp_cover("module");
}
VP_TABLE({"P19", "module", 0, &module_})
