#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
H='include/upd/'
def P(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=H+c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    return d
L=[]
L.append(P('P01','Integers are encoded exactly as the chosen wire format says',
 'For every value of every built-in integer type (bool, character types, 8 to 64 bits, signed and unsigned), each of the two endiannesses and each of the four signed representations, serializing the value produces exactly sizeof(type) bytes whose content is the mathematical encoding of that value in that format, and touches no other byte. The most negative value has no encoding in sign-magnitude and ones\' complement and is excluded there. No undefined behaviour (overflow, bad shift) happens on the way.',
 ['inputs','configurations'],'all values of each integer type x {LITTLE,BIG} x {SIGNED_MAGNITUDE,ONES_COMPLEMENT,TWOS_COMPLEMENT,OFFSET_BINARY} x platform-hint builds',
 'The tests encode about a dozen hand-picked constants (a few per mode); 2^64 values per type and mode are not enumerable, and boundaries such as INT64_MIN or 0x8000 are not sampled.',
 ['detail/endianess.hpp','detail/signed_representation.hpp','detail/serialization.hpp'],
 [('to_endianess / to_endianess_impl','detail/endianess.hpp'),('to_signed_mode / to_signed_mode_impl','detail/signed_representation.hpp'),('write_as (integer overloads)','detail/serialization.hpp')],
 ['bytes of upd::make_tuple(...), tuple::set, key packets']))
L.append(P('P02','Integer decoding is total and inverts encoding',
 'For every byte string of the right length, reading a built-in integer yields exactly the value that the chosen endianness and signed representation assign to those bytes (negative zero reads as 0), without undefined behaviour. In particular reading back a serialized value returns that value, for every integer type, endianness and signed representation.',
 ['inputs','configurations'],'all byte strings of length sizeof(T), all integer types, 2 endiannesses, 4 signed modes',
 'Tests read back a few constants that the library itself encoded; arbitrary received bytes (a peer, line noise) are never enumerated.',
 ['detail/endianess.hpp','detail/signed_representation.hpp','detail/serialization.hpp','tuple.hpp'],
 [('from_endianess / from_endianess_impl','detail/endianess.hpp'),('from_signed_mode / from_signed_mode_impl','detail/signed_representation.hpp'),('read_as (integer overloads)','detail/serialization.hpp')],
 ['upd::get<I>(tuple), tuple::invoke, key::read_from']))
L.append(P('P03','Platform hints and C++ standard never change bytes or values',
 'The bytes produced and the values read are the same whether or not the user declares the platform endianness and/or signed representation (truthfully), and whether the headers are compiled as C++11 or C++17, on any target. The hints only select faster code.',
 ['configurations','inputs'],'{no hint, endianness hint, signed-mode hint, both} x {C++11, C++17} x targets (x86-64, 32-bit, unsigned-char ARM, 16-bit int, big-endian) for all values and byte strings',
 'Tests run in two of the hint combinations on one little-endian 64-bit host with a few constants; never the single-hint builds, nor another target.',
 ['upd.hpp','detail/endianess.hpp','detail/signed_representation.hpp','detail/type_traits/typelist.hpp'],
 [('platform_info dispatch (UPD_REQUIRE(platform_info...))','detail/endianess.hpp'),('memcpy fast paths','detail/signed_representation.hpp')],
 ['bytes and values of tuples/keys under every build configuration']))
L.append(P('P04','Tuples store their fields packed, isolated and recoverable',
 'A tuple occupies exactly the sum of its fields\' serialized sizes; field I lies right after field I-1 with no padding. Setting or constructing a field writes exactly that field\'s bytes with that value\'s encoding and leaves every other field\'s bytes unchanged, and getting any field returns what was last stored in it. Default construction, value construction and assignment from another tuple or view (even of another wire format or other convertible types) give the same result as setting every field in order.',
 ['inputs','programs','configurations'],'all field values, all prior contents, all field positions, over a matrix of field-type lists including arrays',
 'Tests use three or four fixed tuples; the frame condition (no neighbouring byte changes) and arbitrary previous content are not examined.',
 ['tuple.hpp','detail/serialization.hpp','detail/type_traits/typelist.hpp'],
 [('tuple_base::get/set/lay/operator=','tuple.hpp'),('sum/clip offsets','detail/type_traits/typelist.hpp'),('write_as/read_as with offset, array overloads','detail/serialization.hpp')],
 ['tuple::begin()..end(), get, set, structured bindings']))
L.append(P('P05','Views alias exactly the bytes they are bound to',
 'A view over a byte sequence (raw buffer, slice of a tuple, or any forward iterator such as a linked list) reads and writes exactly the bytes of the range it is bound to: set through the view is visible in the underlying bytes and nothing outside the addressed field changes; get reflects any later change of the underlying bytes. A slice view of I fields from position F exposes fields F..F+I-1 of the tuple.',
 ['inputs','programs'],'all contents and values, pointer and non-contiguous iterators, const and non-const slices, all slice positions of the matrix',
 'Tests bind views to two buffers with fixed bytes; aliasing after later modification, frame of untouched bytes and non-contiguous iterators with arbitrary data are not covered.',
 ['tuple.hpp','detail/serialization.hpp'],
 [('tuple_view, tuple::view<I,L>, make_view','tuple.hpp'),('read_as/write_as for non-pointer iterators','detail/serialization.hpp')],
 ['tuple_view get/set/begin/end, underlying buffer']))
L.append(P('P06','Invoking a callback on a tuple passes every decoded field in order',
 'Invoking a functor on a tuple or view calls it exactly once, with argument k equal to the decoded value of field k (arrays included), and returns exactly the functor\'s result. The stored bytes are not modified.',
 ['inputs','programs'],'all stored bytes, all return values, free functions, functors and lambdas over the type matrix',
 'Tests invoke two functions on fixed values with distinct argument types only.',
 ['tuple.hpp','detail/type_traits/signature.hpp'],
 [('tuple_base::invoke / invoke_impl / normalize','tuple.hpp')],['callback arguments and invoke() result']))
L.append(P('P07','User-extension types take exactly their declared wire size everywhere',
 'A type serialized through a user extension occupies, in tuples, views over any kind of iterator, arrays, packets, advertised sizes and buffers, exactly the number of bytes of the extension\'s fields (whatever sizeof the C++ type is), neighbours are untouched, and reading returns what the extension\'s unserialize yields from what its serialize stored.',
 ['inputs','programs'],'all field values of extension types whose sizeof is smaller than, equal to and larger than their wire size, in every position of the matrix',
 'The single test extension has sizeof equal to its wire size, so every confusion between the two is invisible.',
 ['detail/serialization.hpp','tuple.hpp','detail/type_traits/signature.hpp','action.hpp','key.hpp','buffered_dispatcher.hpp'],
 [('serialization_size','tuple.hpp'),('read_as/write_as user-serializable overloads','detail/serialization.hpp'),('parameters_size / return_type_size','detail/type_traits/signature.hpp')],
 ['tuple bytes, key::payload_length, action input/output sizes']))
L.append(P('P08','A request packet is the index followed by the encoded arguments',
 'For every key and all argument values, the packet that the key outputs is the key\'s index encoded on the keyring\'s index type followed by each argument in order in the keyring\'s format, nothing more. Its length always equals the advertised payload length.',
 ['inputs','programs'],'all argument values of every key of the keyring matrix (arities 0..N, arrays, both endiannesses, four modes, 1- and 2-byte indices)',
 'Tests check one packet per keyring with constants on 1-byte indices.',
 ['key.hpp','keyring.hpp','detail/serialized_message.hpp'],
 [('key::operator(), payload_length','key.hpp'),('serialized_message::write_to','detail/serialized_message.hpp')],
 ['bytes given to write_to / operator>>']))
L.append(P('P09','A dispatched request runs exactly its callback and returns its result',
 'When a dispatcher (with either kind of action) or an action processes a packet made by a key, exactly the callback of that key is called, once, with the argument values given to the key; exactly the packet\'s bytes are consumed; and the bytes output are exactly the encoding of the callback\'s result (none for void), from which the key reads back that result. The dispatcher returns the index.',
 ['inputs','programs'],'all argument values, all callback results, every key of the keyring matrix, both action kinds, both keyring sides',
 'Tests make one call per style with constants; wrong routing, over-consumption, argument order and result corruption for other values or keyring positions are not sampled.',
 ['action.hpp','dispatcher.hpp','key.hpp','detail/function_reference.hpp'],
 [('dispatcher::operator(), get_index, get_action','dispatcher.hpp'),('detail::call / static_storage_duration_callback_wrapper','action.hpp'),('key::read_from','key.hpp')],
 ['callback log, output bytes, key.read_from result']))
L.append(P('P10','A request with an unknown index is harmless',
 'A packet whose index is not smaller than the keyring size calls no callback, outputs nothing and reads only the index bytes: the plain dispatcher returns that index (its action lookup returns null), the buffered dispatcher reports DROPPED_PACKET and is immediately ready for the next packet (a double-buffered one keeps its pending output).',
 ['inputs','histories'],'all out-of-range index values for 1- and 2-byte index types, in any reachable dispatcher state',
 'Tests send one invalid index once.',
 ['dispatcher.hpp','buffered_dispatcher.hpp'],
 [('index < size guards','dispatcher.hpp'),('buffered_dispatcher::put drop branch','buffered_dispatcher.hpp')],
 ['returned status/index, callback log, bytes consumed']))
L.append(P('P11','Buffered dispatchers frame packets correctly for any byte history',
 'For every sequence of bytes fed to a buffered dispatcher, each byte is answered LOADING_PACKET until its packet is complete, and the byte completing the packet is answered RESOLVED_PACKET with the callback of that index called exactly once on the decoded arguments; the next byte starts a new packet. Feeding byte by byte, or through read_from, is equivalent, and read_from returns at the end of exactly one packet (resolved or dropped), continuing a partially fed one.',
 ['histories','inputs'],'all byte histories of any length interleaved with output reads, single- and double-buffered, both action kinds, keyring matrix',
 'Tests feed one or two well-formed packets; long mixed histories (dropped, partial, interleaved with reads) are not covered.',
 ['buffered_dispatcher.hpp'],
 [('put / read_from / call','buffered_dispatcher.hpp')],
 ['put/read_from statuses, callback log'],
 [('m_is_index_loaded, m_load_count, m_ibuf_next','input framing state','buffered_dispatcher.hpp'),('m_obuf_next, m_obuf_bottom','output window','buffered_dispatcher.hpp')]))
L.append(P('P12','Buffered output is exactly the last response, once and in order',
 'After a packet is resolved, successive get() calls (or write_to) deliver exactly the encoded result of the callback, in order, each byte once; is_loaded() is true exactly while bytes remain, and when none remain get() changes nothing. Output not yet read is unaffected by loading further bytes into a double-buffered dispatcher until the next packet is resolved, and operator() outputs the response only when a packet was resolved.',
 ['histories','inputs'],'all callback results, all interleavings of get/write_to/put between two resolutions, single- and double-buffered',
 'Tests drain one response completely right after one packet.',
 ['buffered_dispatcher.hpp'],
 [('get / write_to / is_loaded / operator()','buffered_dispatcher.hpp')],['bytes returned by get/write_to, is_loaded()']))
L.append(P('P13','No request, valid or not, makes a dispatcher touch memory out of bounds',
 'Whatever bytes arrive and whatever results the callbacks return, for every keyring, the buffers of a buffered dispatcher are large enough for every request and every response of that keyring and no read or write happens outside them (or outside any tuple, action or caller-supplied range); indices beyond the keyring are never used to address an action.',
 ['inputs','histories','programs'],'all byte histories and callback results over a keyring matrix where requests are larger than responses and vice versa, including void/parameterless keyrings',
 'The test keyrings happen to have responses no larger than their requests, and out-of-bounds writes are silent in the test build.',
 ['buffered_dispatcher.hpp','dispatcher.hpp','tuple.hpp','action.hpp'],
 [('needed_input_buffer_size / needed_output_buffer_size','buffered_dispatcher.hpp'),('index < size','dispatcher.hpp')],
 ['memory accesses of put/get/read_from/write_to']))
L.append(P('P14','reply() forwards the complete pending response or does nothing',
 'reply() sends, as one request of the given key, a byte buffer that begins with exactly the pending response and is zero beyond it, returns true and leaves the output empty. If part of the response was already read or it does not fit in the key\'s buffer, it returns false, writes nothing and leaves the dispatcher unchanged.',
 ['histories','inputs'],'all responses and sizes around the buffer size, any number of bytes already read',
 'Tests call reply with one exact-fit buffer and one refusal.',
 ['buffered_dispatcher.hpp','key.hpp'],
 [('buffered_dispatcher::reply','buffered_dispatcher.hpp')],['reply return value, emitted packet, is_loaded()']))
L.append(P('P15','Replacing an action changes only that index and keeps its own callback',
 'After replace<I>(f), requests with index I call f and every other index still calls what it called before; index, sizes and wire format are unaffected, at any point of the dispatcher\'s life between packets. An action made from a callback keeps its own copy: it does not depend on the lifetime or later changes of the object it was made from.',
 ['histories','inputs','programs'],'every index of the keyring matrix, sequences of replacements, free functions / static functors / stateful functors (lvalue and rvalue), both dispatchers',
 'Tests replace one index once and call it; the other indices, repeated replacement and the lifetime of an lvalue functor are not examined.',
 ['dispatcher.hpp','action.hpp','buffered_dispatcher.hpp'],
 [('dispatcher::replace','dispatcher.hpp'),('action constructor / action_model_impl','action.hpp')],['callback log after replacement']))
L.append(P('P16','Every stream form behaves as the functor form',
 'Reading from or writing to an iterator, using operator<< / operator>>, const or non-const objects, and combining a functor with an iterator all transfer exactly the same bytes in the same order and give the same results as the plain functor form, for tuples\' keys, actions, dispatchers and buffered dispatchers. Exactly the needed bytes are read or written through the iterator and no more.',
 ['inputs','programs'],'all bytes and values, every combination of {functor, pointer, non-pointer iterator} for input and output, const/non-const',
 'Tests exercise each overload once with constants and do not check over-reads or over-writes.',
 ['detail/io/immediate_reader.hpp','detail/io/immediate_writer.hpp','detail/io/immediate_process.hpp'],
 [('immediate_reader','detail/io/immediate_reader.hpp'),('immediate_writer','detail/io/immediate_writer.hpp'),('immediate_process','detail/io/immediate_process.hpp')],
 ['bytes transferred, statuses, results']))
L.append(P('P17','Keys are numbered by position on the smallest sufficient index type',
 'In every keyring the key of the k-th callback has index k, and the index type is the smallest unsigned integer type able to represent the number of callbacks (1 byte up to 255, 2 bytes from 256). Caller-side and callee-side keyrings listing signatures in the same order therefore agree, and routing reaches the k-th callback, including the first and last ones.',
 ['programs','configurations'],'keyrings of 1, 2, 3, 8, 255, 256 and 257 callbacks, C++11 and C++17',
 'Tests only have keyrings of up to three callbacks.',
 ['keyring.hpp','detail/type_traits/smallest.hpp','detail/type_traits/typelist.hpp'],
 [('keyring::index_t, key_t, get','keyring.hpp'),('smallest_unsigned','detail/type_traits/smallest.hpp'),('find','detail/type_traits/typelist.hpp')],
 ['key::index, packet bytes, dispatched callback']))
L.append(P('P18','Actions advertise exactly the bytes they consume and produce',
 'For every callback and both kinds of action, input_size() equals the number of bytes a call reads from its source and output_size() the number of bytes it writes to its destination, on every call. A call on an empty action reads, writes and calls nothing.',
 ['inputs','programs'],'signature matrix (void/non-void, arrays, references, extension types), both action kinds, all input bytes and results',
 'Tests compare the advertised sizes with constants for one signature, and never with the bytes actually transferred.',
 ['action.hpp','detail/type_traits/signature.hpp'],
 [('action_model, no_storage_action sizes','action.hpp'),('parameters_size/return_type_size','detail/type_traits/signature.hpp')],
 ['input_size(), output_size(), bytes transferred']))
L.append(P('P19','The Python bindings expose keys and dispatchers faithfully',
 'For every key exposed to Python, encode returns exactly the packet of the C++ key, decode returns what the C++ key reads from those bytes, and index is the key\'s index. An exposed dispatcher forwards put, get, read_from, write_to and is_loaded unchanged, and replace installs the Python callable at exactly that key\'s index; a packet status has the same name as in C++. A client call sends the key\'s packet and returns what the key decodes from the response.',
 ['inputs','programs'],'all argument values and byte strings, key and dispatcher matrix',
 'The Python tests use one module with constants.',
 ['python.hpp'],[('define_pykey, declare_dispatcher','python.hpp')],['return values of encode/decode/index and of the dispatcher methods']))
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in L: f.write(json.dumps(d)+'\n')
