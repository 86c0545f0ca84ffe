// Iterators used by the contracts: non-contiguous forward iterator over a scrambled linked list, counting single-pass
// iterators which refuse to go past the range they are bound to.
#pragma once
#include "vp.hpp"
#include <cstddef>
#include <iterator>

namespace it {

struct node {
  unsigned char b;
  node *next;
};

//! A list of N nodes laid out in memory in another order than the list order
template<std::size_t N>
struct list {
  node nodes[N + 1];
  static std::size_t slot(std::size_t i) { return N % 7 == 0 ? N - 1 - i : (i * 7 + 3) % N; } // a bijection on [0, N)
  list() {
    for (std::size_t i = 0; i < N; ++i) {
      nodes[slot(i)].b = 0;
      nodes[slot(i)].next = i + 1 < N ? &nodes[slot(i + 1)] : nullptr;
    }
  }
  node *head() { return N == 0 ? nullptr : &nodes[slot(0)]; }
  unsigned char &at(std::size_t i) { return nodes[slot(i)].b; }
};

//! Forward iterator over a linked list (dereferencing or incrementing the end is a null dereference)
template<class B>
struct fwd {
  using iterator_category = std::forward_iterator_tag;
  using value_type = unsigned char;
  using difference_type = std::ptrdiff_t;
  using pointer = B *;
  using reference = B &;
  node *p;
  B &operator*() const { return p->b; }
  fwd &operator++() { p = p->next; return *this; }
  fwd operator++(int) { fwd r = *this; p = p->next; return r; }
  bool operator==(const fwd &o) const { return p == o.p; }
  bool operator!=(const fwd &o) const { return p != o.p; }
};

//! Single-pass source: counts the bytes taken, fails beyond `end`
struct source_state {
  const unsigned char *bytes;
  std::size_t taken, size;
};
struct input {
  using iterator_category = std::input_iterator_tag;
  using value_type = unsigned char;
  using difference_type = std::ptrdiff_t;
  using pointer = const unsigned char *;
  using reference = const unsigned char &;
  source_state *s;
  struct proxy {
    unsigned char v;
    unsigned char operator*() const { return v; }
  };
  unsigned char operator*() const { return s->bytes[s->taken]; }
  input &operator++() { ++s->taken; return *this; }
  proxy operator++(int) {
    vp_assert(s->taken < s->size, "no byte is read beyond the needed ones");
    return proxy{s->bytes[s->taken++]};
  }
  bool operator==(const input &o) const { return s == o.s; }
  bool operator!=(const input &o) const { return s != o.s; }
};

//! Single-pass sink: counts the bytes given
struct sink_state {
  unsigned char *bytes;
  std::size_t given, size;
};
struct output {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  sink_state *s;
  struct proxy {
    sink_state *s;
    void operator=(unsigned char b) {
      vp_assert(s->given < s->size, "no byte is written beyond the needed ones");
      s->bytes[s->given++] = b;
    }
  };
  proxy operator*() { return proxy{s}; }
  output &operator++() { return *this; }
  output &operator++(int) { return *this; }
};

} // namespace it
