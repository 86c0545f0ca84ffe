"""Which contract files decide which property, under which build configurations."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLE = {}
for l in open(os.path.join(VERIF, 'properties.jsonl')):
    if l.strip():
        p = json.loads(l); TITLE[p['id']] = p['title']

LE = ['-DUPD_PLATFORM_ENDIANESS=LITTLE']
BE = ['-DUPD_PLATFORM_ENDIANESS=BIG']
C2 = ['-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT']
def C(std, flags, native=True): return dict(std=std, flags=flags, native=native)
CONFIGS = {
    'c11': C('c++11', []), 'c17': C('c++17', []),
    'c11h': C('c++11', LE + C2), 'c17h': C('c++17', LE + C2),
    'c11le': C('c++11', LE), 'c17le': C('c++17', LE),
    'c11tc': C('c++11', C2), 'c17tc': C('c++17', C2),
    'c20': C('c++20', []), 'c20h': C('c++20', LE + C2), 'c14': C('c++14', []), 'c14h': C('c++14', LE + C2),
}
CROSS = ['-ffreestanding', '-nostdinc++', '-isystem', VERIF + '/contracts/cross', '-isystem', '/usr/include/c++/13',
         '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include']
TARGETS = {'i686': 'i686-linux-gnu', 'armv7': 'armv7-linux-gnueabihf', 'aarch64': 'aarch64-linux-gnu', 'ppc': 'powerpc-linux-gnu',
           'ppc64': 'powerpc64-linux-gnu', 'msp430': 'msp430', 'avr': 'avr'}
BIGT = ('ppc', 'ppc64')
for n, t in TARGETS.items():
    f = ['--target=' + t] + CROSS
    E = BE if n in BIGT else LE
    for s, std in (('11', 'c++11'), ('17', 'c++17')):
        CONFIGS['%s_c%s' % (n, s)] = C(std, f, False)
        CONFIGS['%s_c%sh' % (n, s)] = C(std, f + E + C2, False)
        CONFIGS['%s_c%se' % (n, s)] = C(std, f + E, False)
        CONFIGS['%s_c%st' % (n, s)] = C(std, f + C2, False)

Q2 = ['c11', 'c17h']
STD4 = ['c11', 'c17', 'c11h', 'c17h']
ALLN = ['c11', 'c17', 'c11h', 'c17h', 'c11le', 'c17le', 'c11tc', 'c17tc', 'c14', 'c14h', 'c20', 'c20h']
CROSSQ = ['i686_c11', 'i686_c11h', 'ppc64_c11', 'ppc64_c11h', 'ppc64_c17e', 'ppc64_c17t', 'ppc_c17h', 'avr_c11', 'avr_c11h', 'msp430_c17h']
CROSSALL = [c for c in CONFIGS if '_' in c]

# other builds of contract files, executed on random inputs only
BOUNDED = {
    'gcc17': dict(cc='g++', flags=['-std=c++17', '-DVP_GCC', '-w', '-O1', '-g', '-fsanitize=undefined', '-fno-sanitize-recover=all']),
    'pybind11': dict(probe='#include <pybind11/embed.h>\n#include <pybind11/functional.h>\n#include <pybind11/stl.h>\n', cc='g++', flags=['-std=c++17', '-w', '-O0', '-g1', '$python3-config --includes', '-I{REPO}/py/unpadded', '-DVP_CLIENT="{REPO}/py/unpadded/client.py"'], ld=['$python3-config --ldflags --embed']),
}

TRUSTED = [
    'clang 18 front end: translation of the headers to LLVM IR (no optimisation pass run)',
    'engine/ir.py and engine/symex.py: obligation generator over LLVM IR',
    'z3 (QF_BV) for the obligations that are not syntactic; cvc5 rechecks a sample in the thorough tier',
    'contracts/wire.hpp and contracts/model.hpp: the mathematical specification of the wire format',
]
A_INST = 'templates are verified on the instantiations listed in the contract files (all built-in integer types, all 8 wire formats, the listed field lists and keyrings), for all values'
A_ARCH = 'x86-64 Linux data model unless a cross target is named in the configuration'
A_CB = 'user callbacks are represented by contracts: any arguments, any result, no access to the library objects'
A_PY = ('pybind11 and CPython are represented by contracts (contracts/pystub): def() binds the callable it is given, a bytes object is read through its iterator, '
        'cast<T>() yields the value, a Python callable gets the very arguments; the extraction of the name of a callback from its mangled name (std::regex) is a contract; '
        'both are cross-checked by executions over the real pybind11 and CPython (bounded)')

PLAN = {
    'P01': dict(quick=[('codec.cpp', STD4)], thorough=[('codec.cpp', ALLN)], assumptions=[A_INST, A_ARCH]),
    'P02': dict(quick=[('codec.cpp', STD4)], thorough=[('codec.cpp', ALLN)], assumptions=[A_INST, A_ARCH]),
    'P04': dict(quick=[('tuple.cpp', Q2), ('large.cpp', ['c11'])], thorough=[('tuple.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH]),
    'P05': dict(quick=[('view.cpp', Q2), ('large.cpp', ['c11'])], thorough=[('view.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH]),
    'P06': dict(quick=[('invoke.cpp', Q2), ('large.cpp', ['c11'])], thorough=[('invoke.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH, A_CB]),
    'P07': dict(quick=[('ext.cpp', Q2), ('key.cpp', ['c11']), ('dispatch.cpp', ['c17h']), ('buffered.cpp', ['c11'])], thorough=[('ext.cpp', ALLN), ('key.cpp', ALLN), ('dispatch.cpp', ALLN), ('buffered.cpp', ALLN)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P08': dict(bounded=[('refs.cpp', 'gcc17')], quick=[('key.cpp', Q2), ('keyring.cpp', Q2), ('keyring257.cpp', ['c11']), ('large.cpp', ['c11'])], thorough=[('key.cpp', ALLN), ('keyring.cpp', ALLN), ('keyring255.cpp', ['c17h']), ('keyring256.cpp', Q2), ('keyring257.cpp', ['c11']), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH]),
    'P09': dict(bounded=[('refs.cpp', 'gcc17')], quick=[('dispatch.cpp', Q2), ('key.cpp', ['c17h']), ('large.cpp', ['c11']), ('keyring257.cpp', ['c17h'])], thorough=[('dispatch.cpp', ALLN), ('key.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH, A_CB]),
    'P10': dict(quick=[('dispatch.cpp', ['c17h']), ('buffered.cpp', ['c11']), ('buffered255.cpp', ['c17h']), ('buffered256.cpp', ['c11']), ('keyring.cpp', ['c17h']), ('keyring256.cpp', ['c11']), ('large_buf.cpp', ['c17h'])], thorough=[('dispatch.cpp', ALLN), ('buffered.cpp', ALLN), ('buffered255.cpp', ['c17h']), ('buffered256.cpp', Q2), ('keyring.cpp', ALLN), ('keyring256.cpp', Q2), ('large_buf.cpp', Q2)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P15': dict(bounded=[('refs.cpp', 'gcc17')], quick=[('dispatch.cpp', Q2), ('buffered.cpp', ['c17h']), ('large.cpp', ['c11'])], thorough=[('dispatch.cpp', ALLN), ('buffered.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH, A_CB]),
    'P18': dict(bounded=[('refs.cpp', 'gcc17')], quick=[('dispatch.cpp', Q2), ('large.cpp', ['c11'])], thorough=[('dispatch.cpp', ALLN), ('large.cpp', ALLN[:4])], assumptions=[A_INST, A_ARCH, A_CB]),
    'P17': dict(bounded=[('refs.cpp', 'gcc17')], quick=[('keyring255.cpp', ['c11']), ('keyring256.cpp', ['c17h']), ('keyring257.cpp', ['c11']), ('keyring.cpp', Q2)], thorough=[('keyring255.cpp', STD4), ('keyring256.cpp', STD4), ('keyring257.cpp', STD4), ('keyring.cpp', ALLN)], assumptions=[A_INST, A_ARCH]),
    'P11': dict(quick=[('buffered255.cpp', ['c11']), ('buffered256.cpp', ['c17h']), ('buffered.cpp', ['c11']), ('large_buf.cpp', ['c17h'])], thorough=[('buffered255.cpp', ['c17h']), ('buffered256.cpp', Q2), ('buffered.cpp', ALLN), ('large_buf.cpp', Q2)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P12': dict(quick=[('buffered256.cpp', ['c11']), ('buffered.cpp', ['c17h']), ('large_buf.cpp', ['c17h'])], thorough=[('buffered255.cpp', ['c17h']), ('buffered256.cpp', Q2), ('buffered.cpp', ALLN), ('large_buf.cpp', Q2)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P13': dict(memory=dict(quick=[('dispatch.cpp', ['c11'])], thorough=[('dispatch.cpp', Q2), ('tuple.cpp', Q2), ('view.cpp', Q2), ('key.cpp', Q2), ('invoke.cpp', Q2), ('ext.cpp', Q2), ('stream.cpp', Q2)]),
                quick=[('buffered256.cpp', ['c11']), ('keyring256.cpp', ['c11']), ('buffered.cpp', ['c17h']), ('large_buf.cpp', ['c11'])], thorough=[('large_buf.cpp', Q2), ('buffered255.cpp', ['c17h']), ('buffered256.cpp', Q2), ('keyring256.cpp', Q2), ('buffered.cpp', ALLN)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P14': dict(quick=[('buffered.cpp', Q2), ('large_buf.cpp', ['c17h'])], thorough=[('buffered.cpp', ALLN), ('large_buf.cpp', Q2)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P16': dict(quick=[('stream.cpp', ['c11']), ('bstream.cpp', ['c17h']), ('large.cpp', ['c17h']), ('large_buf.cpp', ['c11'])], thorough=[('stream.cpp', ALLN), ('bstream.cpp', ALLN), ('large.cpp', Q2), ('large_buf.cpp', Q2)], assumptions=[A_INST, A_ARCH, A_CB]),
    'P19': dict(quick=[('python.cpp', ['c17', 'c17h']), ('pymodule.cpp', ['c17'])], thorough=[('python.cpp', ['c17', 'c17h', 'c17le', 'c17tc', 'c20', 'c20h']), ('pymodule.cpp', ['c17', 'c20'])], exceptions=True, soft=True, bounded=[('pyembed.cpp', 'pybind11')],
                assumptions=[A_INST, A_ARCH, A_CB, A_PY]),
    'P03': dict(quick=[('codec.cpp', ALLN[:8] + CROSSQ), ('tuple.cpp', ['c17', 'c11h', 'ppc64_c11h', 'msp430_c17h']), ('key.cpp', ['c17le', 'c11tc'])],
                thorough=[('codec.cpp', ALLN + CROSSALL), ('tuple.cpp', ALLN + CROSSQ), ('key.cpp', ALLN)], assumptions=[A_INST]),
}

NOTE = {
    'default': 'Every obligation generated from the LLVM IR that clang 18 emits for the current headers (at the instantiations listed in contracts/) is '
               'discharged for all values, contents and callback results. Trusted: clang front end, the obligation generator (engine/), z3, and the wire-format specification.',
}
NA = {}
