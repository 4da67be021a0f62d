#!/usr/bin/env python3
"""Generates and runs the build of the simulation binaries from /repo's tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PSI_REPO', '/repo')
OUT = os.environ.get('PSI_SIM_BUILD', V + '/build')
sys.path.insert(0, V)
from build_lists import TARGETS, PROTOS, SHIM_PROTOS

CXX = 'clang++'
SRC = OUT + '/src'   # content-synchronised copy of /repo's sources: a change is seen whatever its time stamp
COMMON = '-std=c++17 %s ' % os.environ.get('PSI_SIM_G', '-g0') + '-fno-omit-frame-pointer -march=native -I%s -I%s/shim -I%s -I%s/gen' % (V, V, SRC, OUT)
WARN = '-w'
DEFS = '-DFMT_HEADER_ONLY_NOT=1 -DSPDLOG_FMT_EXTERNAL=1 -DSPDLOG_COMPILED_LIB=1 -DNDEBUG_NOT'
SIM_FLAGS = '-O2'
INS_FLAGS = '-O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0'

def q(s): return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text: open(path, 'w').write(text)

def mirror():
    seen = set()
    for top in ('psi', 'experiment'):
        for d, dirs, fs in os.walk(REPO + '/' + top):
            for f in fs:
                if not f.endswith(('.cc', '.h', '.proto', '.hpp', '.inc')): continue
                rel = os.path.relpath(d + '/' + f, REPO)
                seen.add(rel)
                b = open(d + '/' + f, 'rb').read()
                t = SRC + '/' + rel
                if os.path.exists(t) and open(t, 'rb').read() == b: continue
                os.makedirs(os.path.dirname(t), exist_ok=True)
                open(t, 'wb').write(b)
    for d, dirs, fs in os.walk(SRC):
        for f in fs:
            if os.path.relpath(d + '/' + f, SRC) not in seen: os.remove(d + '/' + f)

def absl_compat():
    # The installed absl has a string_view class of its own; the code under test
    # is written for one that is std::string_view.  The few library functions
    # that take one are in shim/absl_shim.cc.
    p = '/usr/include/absl/base/options.h'
    s = open(p).read()
    a = '#define ABSL_OPTION_USE_STD_STRING_VIEW 0'
    if a in s: put(OUT + '/gen/absl/base/options.h', s.replace(a, a[:-1] + '1'))

def pb_compat():
    # protobuf seeds its hash maps from the clock and the address; the
    # simulator needs the order of map fields on the wire to be repeatable.
    s = open('/usr/include/google/protobuf/map.h').read()
    a = 'size_type Seed() const {'
    assert s.count(a) == 1
    s = s.replace('(reinterpret_cast<uintptr_t>(node) ^ seed_) % 13 > 6', 'node == nullptr')
    put(OUT + '/gen/google/protobuf/map.h', s.replace(a, a + ' return 0x5eed; }\n    size_type UnusedSeed() const {'))

def gen(targets):
    os.makedirs(OUT + '/gen', exist_ok=True)
    mirror()
    absl_compat()
    pb_compat()
    L = ['ninja_required_version = 1.5', 'builddir = ' + OUT]
    L.append('rule pch\n command = %s %s %s %s $flags -Xclang -fpch-instantiate-templates -MMD -MF $out.d -x c++-header -c $in -o $out\n depfile = $out.d\n deps = gcc' % (CXX, COMMON, WARN, DEFS))
    L.append('rule sim\n command = %s %s %s %s %s -MMD -MF $out.d $pch -c $in -o $out\n depfile = $out.d\n deps = gcc' % (CXX, COMMON, WARN, DEFS, SIM_FLAGS))
    L.append('rule ins\n command = %s %s %s %s %s -MMD -MF $out.d $pch -c $in -o $out\n depfile = $out.d\n deps = gcc' % (CXX, COMMON, WARN, DEFS, INS_FLAGS))
    L.append('rule proto\n command = protoc -I%s -I%s/shim/proto --cpp_out=%s/gen $in' % (SRC, V, OUT))
    L.append('rule link\n command = %s -fuse-ld=gold -no-pie -rdynamic $in -o $out $libs' % CXX)
    done = {}
    order = []
    gens = []
    protos = set()
    for t in targets:
        if TARGETS[t].get('protos', True): protos |= set(PROTOS) | set(SHIM_PROTOS)
    pobjs = []
    for p in sorted(protos):
        root = V + '/shim/proto/' if p in SHIM_PROTOS else SRC + '/'
        base = OUT + '/gen/' + p[:-6]
        L.append('build %s.pb.cc %s.pb.h: proto %s' % (base, base, root + p))
        gens += [base + '.pb.h']
    pch = {}
    big = bool(gens)
    for kind, fl in (('sim', SIM_FLAGS), ('ins', INS_FLAGS)):
        pch[kind] = '%s/pch-%s-%s.pch' % (OUT, kind, 'big' if big else 'small')
        L.append('build %s: pch %s/shim/%s || %s\n flags = %s' % (pch[kind], V, 'prelude_big.h' if big else 'prelude.h', ' '.join(gens), fl))
    def raw(src):
        o = '%s/obj/v/%s.o' % (OUT, src)
        if src not in done: L.append('build %s: sim %s/%s' % (o, V, src)); done[src] = o
        return o
    def obj(kind, src):
        key = (kind, src)
        if key in done: return done[key]
        tag = src
        for pre, r in ((OUT + '/gen/', 'gen/'), (SRC + '/', 'repo/'), (V + '/', 'v/')):
            if src.startswith(pre): tag = r + src[len(pre):]; break
        o = '%s/obj/%s.o' % (OUT, tag)
        L.append('build %s: %s %s | %s || %s\n pch = -include-pch %s' % (o, kind, src, pch[kind], ' '.join(gens), pch[kind]))
        done[key] = o
        return o
    outs = []
    for t in targets:
        T = TARGETS[t]
        objs = [raw(s) for s in ('sim/main.cc', 'sim/sim.cc', 'sim/alloc.cc', 'sim/tsan_rt.cc')]
        for s in T['repo']: objs.append(obj('ins', SRC + '/' + s))
        for s in T.get('repo_fast', []): objs.append(obj('sim', SRC + '/' + s))
        for s in T.get('ins', []): objs.append(obj('ins', V + '/' + s))
        if T.get('protos', True):
            for p in sorted(protos): objs.append(obj('sim', OUT + '/gen/' + p[:-6] + '.pb.cc'))
        for s in T.get('plain', []): objs.append(obj('sim', V + '/' + s))
        L.append('build %s/%s: link %s\n libs = %s' % (OUT, t, ' '.join(objs), T.get('libs', '')))
        outs.append('%s/%s' % (OUT, t))
    L.append('default ' + ' '.join(outs))
    f = OUT + '/build-%s.ninja' % '-'.join(targets)
    open(f, 'w').write('\n'.join(L) + '\n')
    return f

def build(targets, quiet=False):
    f = gen(targets)
    cmd = ['ninja', '-f', f, '-C', OUT]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
    elif not quiet:
        sys.stdout.write(r.stdout.strip().split('\n')[-1] + '\n')
    return r.returncode

if __name__ == '__main__':
    sys.exit(build(sys.argv[1:] or sorted(TARGETS)))
