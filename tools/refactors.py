# Edits that keep the behaviour: every check has to stay quiet on them. id -> (properties to run, [(file, old, new)] or a function)
import re
R = {}
def r(i, props, *edits): R[i] = (props.split(), [('include/upd/' + f, a, b) for f, a, b in edits])
BD = 'buffered_dispatcher.hpp'
BUF = 'P10 P11 P12 P13 P14'
def rename(f, *pairs):
    def go(s):
        for a, b in pairs: s = re.sub(r'\b%s\b' % a, b, s)
        return s
    return ('include/upd/' + f, go, None)

R['buf-rename'] = (BUF.split(), [rename(BD, ('m_load_count', 'm_remaining'), ('m_ibuf_next', 'm_in_pos'), ('m_obuf_next', 'm_out_pos'), ('m_obuf_bottom', 'm_out_size'), ('m_is_index_loaded', 'm_has_index'))])
r('buf-helpers', BUF, (BD, '''        m_load_count = sizeof(index_t);
        m_ibuf_next = 0;
        return packet_status::DROPPED_PACKET;
      }
    }
  }
''', '''        restart();
        return packet_status::DROPPED_PACKET;
      }
    }
  }

  void restart() {
    m_ibuf_next = 0;
    m_load_count = sizeof(index_t);
    m_is_index_loaded = false;
  }
'''), (BD, '''    m_is_index_loaded = false;
    m_load_count = sizeof(index_t);
    m_ibuf_next = 0;
  }
''', '''    restart();
  }
'''), (BD, '''    m_obuf_bottom = 0;
    m_obuf_next = 0;
''', '''    m_obuf_next = m_obuf_bottom = 0;
'''))
r('buf-readloop', BUF, (BD, '''    packet_status status = packet_status::LOADING_PACKET;
    while (!m_is_index_loaded && status == packet_status::LOADING_PACKET)
      status = put(src());
    while (m_is_index_loaded)
      status = put(src());
    return status;''', '''    for (;;) {
      const packet_status status = put(src());
      if (status != packet_status::LOADING_PACKET)
        return status;
    }'''), (BD, '''    while (is_loaded())
      dest(get());''', '''    for (; m_obuf_next != m_obuf_bottom; ++m_obuf_next)
      dest(derived().obuf_begin()[m_obuf_next]);'''))
# the members change their meaning: m_load_count counts the bytes loaded
r('buf-countup', BUF, (BD, 'm_load_count{sizeof(index_t)}', 'm_load_count{0}'),
 (BD, '''    if (--m_load_count > 0)
      return packet_status::LOADING_PACKET;

    if (m_is_index_loaded) {
      call();''', '''    ++m_load_count;
    if (!m_is_index_loaded && m_load_count < sizeof(index_t))
      return packet_status::LOADING_PACKET;

    if (m_is_index_loaded) {
      auto *ptr = derived().ibuf_begin();
      if (m_load_count < m_dispatcher[get_index([&]() { return *ptr++; })].input_size())
        return packet_status::LOADING_PACKET;
      call();'''),
 (BD, '''        m_load_count = m_dispatcher[index].input_size();
        m_is_index_loaded = true;

        if (m_load_count == 0) {''', '''        m_load_count = 0;
        m_is_index_loaded = true;

        if (m_dispatcher[index].input_size() == 0) {'''),
 (BD, '''        m_load_count = sizeof(index_t);
        m_ibuf_next = 0;
        return packet_status::DROPPED_PACKET;''', '''        m_load_count = 0;
        m_ibuf_next = 0;
        return packet_status::DROPPED_PACKET;'''),
 (BD, '''    m_is_index_loaded = false;
    m_load_count = sizeof(index_t);
    m_ibuf_next = 0;
  }
''', '''    m_is_index_loaded = false;
    m_load_count = 0;
    m_ibuf_next = 0;
  }
'''))
r('buf-callptr', BUF + ' P15', (BD, '''    auto *ibuf_ptr = derived().ibuf_begin();
    auto index = get_index([&]() { return *ibuf_ptr++; });
    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
''', '''    const byte_t *request = derived().ibuf_begin();
    const auto fetch = [&request]() -> byte_t { return *request++; };
    action_t &target = m_dispatcher[get_index(fetch)];
    byte_t *const response = derived().obuf_begin();
    std::size_t count = 0;
    target(fetch, [&](byte_t byte) {
      response[count] = byte;
      ++count;
    });
    m_obuf_bottom = count;
'''), (BD, '''  byte_t get() { return is_loaded() ? derived().obuf_begin()[m_obuf_next++] : byte_t{}; }''', '''  byte_t get() {
    if (!is_loaded())
      return byte_t{};
    const byte_t next = derived().obuf_begin()[m_obuf_next];
    m_obuf_next += 1;
    return next;
  }'''))
r('reply-guards', 'P14 P12', (BD, '''    if (!(m_obuf_next == 0 && m_obuf_bottom <= buf_size))
      return false;
''', '''    const bool untouched = m_obuf_next == 0;
    const bool fits = !(m_obuf_bottom > buf_size);
    if (!untouched || !fits)
      return false;
'''), (BD, '''    buf_t buf{};
    write_to(std::begin(buf));
''', '''    buf_t buf{};
    auto it = std::begin(buf);
    write_to([&](byte_t byte) { *it++ = byte; });
'''))
END = 'P01 P02 P03 P04'
r('endian-loops', END + ' P16', ('detail/endianess.hpp', '''  auto retval = T(0);
  std::size_t shift = 0;

  for (std::size_t i = 0; i < n; i++, shift += 8) {
    retval = T(retval | (T(raw_data[i]) << shift));
  }

  return retval;''', '''  unsigned long long retval = 0;

  for (std::size_t i = n; i-- > 0;)
    retval = retval << 8 | raw_data[i];

  return T(retval);'''), ('detail/endianess.hpp', '''  auto retval = T(0);
  unsigned int shift = 0;

  for (std::size_t i = 0; i < n; i++, shift += 8)
    retval = T(retval | T(raw_data[(n - i - 1)]) << shift);

  return retval;''', '''  unsigned long long retval = 0;

  while (n-- > 0)
    retval = retval << 8 | *raw_data++;

  return T(retval);'''), ('detail/endianess.hpp', '''  for (std::size_t i = 0; i < n; i++, x = T(x >> 8))
    raw_data[i] = x & 0xff;''', '''  for (byte_t *const end = raw_data + n; raw_data != end; ++raw_data) {
    *raw_data = static_cast<byte_t>(x);
    x = static_cast<T>(x / 256);
  }'''), ('detail/endianess.hpp', '''  for (std::size_t i = 0; i < n; i++, x = T(x >> 8))
    raw_data[(n - i - 1)] = x & 0xff;''', '''  for (std::size_t i = 0; i < n; i++)
    raw_data[i] = byte_t(static_cast<unsigned long long>(x) >> 8 * (n - 1 - i) & 0xff);'''))
r('signed-exprs', END, ('detail/signed_representation.hpp', '''  return T(value - offset);''', '''  // Flip the sign bit to get the two's complement representation
  const auto twos_complement = static_cast<same_size_unsigned_t<T>>(value ^ offset);
  T retval;
  memcpy(&retval, &twos_complement, sizeof(retval));
  return retval;'''), ('detail/signed_representation.hpp', '''  return value & sign_mask ? T(-T(~value)) : T(value);''', '''  if (!(value & sign_mask))
    return T(value);
  const T magnitude = T(~value);
  return T(-magnitude);'''), ('detail/signed_representation.hpp', '''  return value >= 0 ? static_cast<unsigned long long>(value) : ~static_cast<unsigned long long>(-value);''',
 '''  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(value) - 1;'''),
 ('detail/signed_representation.hpp', '''  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-(value + 1)));''', '''  return static_cast<unsigned long long>(value);'''))
r('array-loops', 'P04 P05 P06 P07 P08 P09', ('detail/serialization.hpp', '''  for (std::size_t i = 0; i < size; i++)
    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * serialization_size<element_t>::value);
''', '''  static_assert(size > 0, "");
  for (auto &element : retval) {
    element = read_as<element_t, Endianess, Signed_Mode>(sequence);
    sequence += serialization_size<element_t>::value;
  }
'''), ('detail/serialization.hpp', '''  constexpr auto array_size = sizeof(array) / sizeof(array[0]);
  for (std::size_t i = 0; i < array_size; i++)
    write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);''', '''  for (const auto &element : array) {
    write_as<Endianess, Signed_Mode>(element, sequence);
    sequence += serialization_size<element_t>::value;
  }'''), ('detail/serialization.hpp', '''  for (byte_t &byte : buf)
    byte = *it++;
''', '''  for (std::size_t i = 0; i < sizeof buf; ++i, ++it)
    buf[i] = *it;
'''), ('detail/serialization.hpp', '''  for (const byte_t &byte : buf)
    *it++ = byte;
''', '''  std::copy(std::begin(buf), std::end(buf), it);
'''), ('detail/serialization.hpp', '#include <array>\n', '#include <algorithm>\n#include <array>\n'))
r('tuple-offset', 'P04 P05 P06 P07', ('tuple.hpp', '''  using arg_t = detail::at<types_t, I>;
''', '''  using arg_t = detail::at<types_t, I>;

  template<std::size_t I>
  constexpr static std::size_t offset_of() {
    return detail::sum<detail::clip<sizes_t, 0, I>>::value;
  }
'''), ('tuple.hpp', '''    using detail::clip;
    using detail::sum;

    constexpr auto offset = sum<clip<sizes_t, 0, I>>::value;
    return read_as<arg_t<I>, Endianess, Signed_Mode>(derived().src(), offset);''', '''    return read_as<arg_t<I>, Endianess, Signed_Mode>(derived().src(), offset_of<I>());'''), ('tuple.hpp', '''    using detail::clip;
    using detail::sum;

    constexpr auto offset = sum<clip<sizes_t, 0, I>>::value;
    write_as<Endianess, Signed_Mode>(value, derived().src(), offset);''', '''    const auto first = std::next(derived().src(), offset_of<I>());
    write_as<Endianess, Signed_Mode>(value, first);'''), ('tuple.hpp', '''    using discard = int[];
    (void)discard{0, (set<Is>(args), 0)...};
  }
''', '''    lay_from<0>(args...);
  }

  template<std::size_t I>
  void lay_from() {}
  template<std::size_t I, typename Arg, typename... Args>
  void lay_from(const Arg &arg, const Args &...args) {
    lay_from<I + 1>(args...);
    set<I>(arg);
  }
'''), ('tuple.hpp', '''m_begin{src}, m_end{src} { std::advance(m_end, base_t::size); }''', '''m_begin{src}, m_end{std::next(src, base_t::size)} {}'''))
r('action-helpers', 'P09 P15 P16 P18 P06', ('action.hpp', '''//! \\brief Invoke `ftor` on the unserialized arguments from `src` and write the serialized return value to `dest`
template<typename Tuple, typename F>
void call(src_t &src, F &&ftor) {
  Tuple input_args;
  for (auto &byte : input_args)
    byte = src();
  input_args.invoke(FWD(ftor));
}
''', '''template<typename Tuple>
Tuple fetch(src_t &src) {
  Tuple args;
  auto it = args.begin();
  while (it != args.end())
    *it++ = src();
  return args;
}
'''), ('action.hpp', '''  Tuple input_args;
  for (auto &byte : input_args)
    byte = src();
  input_args.invoke(UPD_FWD(ftor));
}
''', '''  fetch<Tuple>(src).invoke(UPD_FWD(ftor));
}
'''), ('action.hpp', '''  Tuple input_args;
  for (auto &byte : input_args)
    byte = src();

  return insert<Tuple::storage_endianess, Tuple::storage_signed_mode>(dest, input_args.invoke(UPD_FWD(ftor)));''', '''  const Tuple input_args = fetch<Tuple>(src);
  const auto result = input_args.invoke(UPD_FWD(ftor));
  insert<Tuple::storage_endianess, Tuple::storage_signed_mode>(dest, result);'''), ('action.hpp', '''    action_model::input_size = tuple_t::size;
    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;''', '''    action_concept::output_size = return_type_size<F>::value;
    action_concept::input_size = parameters_size<F>::value;'''), ('action.hpp', '''    if (m_concept_uptr)
      (*m_concept_uptr)(detail::make_function_reference(src), detail::make_function_reference(dest));''', '''    auto *const model = m_concept_uptr.get();
    if (model == nullptr)
      return;
    auto input = detail::make_function_reference(src);
    auto output = detail::make_function_reference(dest);
    (*model)(std::move(input), std::move(output));'''))
r('disp-rewrite', 'P09 P10 P13 P15 P16 P17', ('dispatcher.hpp', '''    auto index = get_index(src);

    if (index < size)
      m_actions.content[index](src, dest);

    return index;''', '''    const index_t index = get_index(src);
    if (index >= size)
      return index;

    auto &target = (*this)[index];
    target(src, dest);
    return index;'''), ('dispatcher.hpp', '''    auto index = get_index(UPD_FWD(src));
    return index < size ? m_actions.content + index : nullptr;''', '''    const auto index = get_index(UPD_FWD(src));
    if (index < size)
      return &m_actions.content[index];
    return nullptr;'''), ('dispatcher.hpp', '''    tuple<endianess, signed_mode, index_t> index_tuple;

    for (auto &byte : index_tuple)
      byte = src();

    return get<0>(index_tuple);''', '''    byte_t raw[sizeof(index_t)];

    for (std::size_t i = 0; i < sizeof(index_t); ++i)
      raw[i] = src();

    return detail::read_as<index_t, endianess, signed_mode>(raw);'''), ('dispatcher.hpp', '''    m_actions.content[Index] = action{UPD_FWD(ftor), endianess_h<endianess>{}, signed_mode_h<signed_mode>{}};''', '''    action replacement{UPD_FWD(ftor), endianess_h<endianess>{}, signed_mode_h<signed_mode>{}};
    std::swap(m_actions.content[Index], replacement);'''))
r('io-iters', 'P16 P08 P09', ('detail/io/immediate_process.hpp', '''    byte_t operator()() { return *it++; }''', '''    byte_t operator()() {
      const byte_t byte = *it;
      ++it;
      return byte;
    }'''), ('detail/io/immediate_process.hpp', '''    void operator()(byte_t byte) { *it++ = byte; }''', '''    void operator()(byte_t byte) {
      *it = byte;
      ++it;
    }'''), ('detail/serialized_message.hpp', '''    for (auto byte : content)
      insert_byte(byte);''', '''    const auto end = content.end();
    for (auto it = content.begin(); it != end; ++it)
      insert_byte(*it);'''), ('key.hpp', '''    for (auto &byte : retval)
      byte = UPD_FWD(src)();

    return retval.template get<0>();''', '''    for (std::size_t i = 0; i != retval.size; ++i)
      retval[i] = src();

    return upd::get<0>(retval);'''))
r('smallest-cond', 'P17 P08 P01 P02', ('detail/type_traits/smallest.hpp', '''  using type = typename decltype(smallest_unsigned_impl<std::uint64_t, X>{}
                                     .template try_promote(std::declval<std::uint32_t>())
                                     .template try_promote(std::declval<std::uint16_t>())
                                     .template try_promote(std::declval<std::uint8_t>()))::type;''', '''  using type = typename std::conditional<
      (X <= 0xff),
      std::uint8_t,
      typename std::conditional<(X <= 0xffff),
                                std::uint16_t,
                                typename std::conditional<(X <= 0xffffffff), std::uint32_t, std::uint64_t>::type>::type>::type;'''))
r('py-strings', 'P19', ('python.hpp', '''      .def("index", [](key_t) { return I; })''', '''      .def("index", [](const key_t &self) { return self.index; })'''),
 ('python.hpp', '''        self[pykey.attr("index")().cast<std::size_t>()] = pykey.attr("__make_action")(pyfunction).cast<action>();''', '''        const auto index = pykey.attr("index")().cast<std::size_t>();
        auto replacement = pykey.attr("__make_action")(pyfunction).cast<action>();
        self[index] = std::move(replacement);'''),
 ('python.hpp', '''      .def("put", &dispatcher_t::put)
      .def("get", &dispatcher_t::get)''', '''      .def("put", [](dispatcher_t &self, byte_t byte) { return self.put(byte); })
      .def("get", [](dispatcher_t &self) { return self.get(); })'''))
