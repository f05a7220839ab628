"""Front end: turn /repo's current working tree into an analysable program.

 1. configure the project with its own CMake files in a scratch directory, so
    the analysed units, defines and include paths are those of the real build;
 2. compile every library unit to LLVM IR (clang, -O0, debug info);
 3. irdump links the IR, inlines every function that is not part of the frozen
    API list (so an extracted or renamed helper is seen inside its callers),
    promotes locals to SSA and dumps JSON.
Nothing under /repo is written and nothing from the analysed code is run.
"""
import json, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('ONION_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
CLANGXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (exit 3, neither pass nor violation)."""


def tool():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    bdir = os.path.join(VERIF, 'build')
    out = os.path.join(bdir, 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(bdir, exist_ok=True)
    def cfg(a):
        return subprocess.check_output(['llvm-config-18'] + a, text=True).split()
    flags = [f for f in cfg(['--cxxflags']) if not f.startswith('-std=')]
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', src, '-o', tmp] + flags + cfg(['--ldflags']) + ['-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build irdump:\n' + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def configure(tmp, extra=()):
    cfg = os.path.join(tmp, 'cfg')
    r = subprocess.run(['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                        '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                        '-DONION_USE_TESTS=false', '-DONION_EXAMPLES=false',
                        '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
                        '-DCMAKE_C_FLAGS=-Wno-error', '-DCMAKE_CXX_FLAGS=-Wno-error', '-Wno-dev'] + list(extra),
                       capture_output=True, text=True, env=dict(os.environ, CC='gcc', CXX='g++'))
    f = os.path.join(cfg, 'compile_commands.json')
    if not os.path.exists(f):
        raise AnalysisBroken('cmake configure failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
    return json.load(open(f))


def units(cc, pred):
    seen = {}
    for e in cc:
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        rel = os.path.relpath(f, os.path.realpath(REPO))
        if f in seen or not pred(rel):
            continue
        fl = []
        av = shlex.split(e['command'])
        i = 1
        while i < len(av):
            a = av[i]
            if a in ('-isystem', '-include', '-I', '-D'):
                fl += [a, av[i + 1]]; i += 2; continue
            if a.startswith(('-I', '-D', '-std=', '-U')):
                fl.append(a)
            i += 1
        seen[f] = (rel, fl)
    return seen


def compile_units(us, tmp):
    def one(item):
        f, (rel, fl) = item
        out = os.path.join(tmp, rel.replace('/', '__') + '.bc')
        cxx = f.endswith(('.cpp', '.cc', '.cxx'))
        cmd = [CLANGXX if cxx else CLANG, '-c', '-emit-llvm', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
               '-fno-discard-value-names', '-w'] + (['-std=gnu++17'] if cxx and not any(x.startswith('-std=') for x in fl) else []) + \
              (['-std=gnu17'] if not cxx and not any(x.startswith('-std=') for x in fl) else []) + fl + [f, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return rel, out, r
    outs = []
    with ThreadPoolExecutor(8) as ex:
        for rel, out, r in ex.map(one, sorted(us.items())):
            if r.returncode:
                raise AnalysisBroken('clang cannot compile %s:\n%s' % (rel, r.stderr[-2000:]))
            outs.append((rel, out))
    return outs


def dump(bcs, tmp, name, keep):
    out = os.path.join(tmp, name + '.json')
    r = subprocess.run([tool(), out, keep] + [b for _, b in bcs], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('irdump failed: ' + r.stderr[-2000:])
    return json.load(open(out))


def lib_pred(rel):
    return rel.startswith('src/onion/') and rel.endswith('.c')


def cpp_pred(rel):
    return rel.startswith('src/bindings/cpp/') and rel.endswith('.cpp')


def load(what='c', keep=None):
    """what: 'c' (library + handlers + extras) or 'cpp' (C++ bindings)."""
    tmp = tempfile.mkdtemp(prefix='onion-static-')
    try:
        cc = configure(tmp)
        us = units(cc, lib_pred if what == 'c' else cpp_pred)
        if not us:
            raise AnalysisBroken('no compilation units found')
        bcs = compile_units(us, tmp)
        if keep is None:
            keep = os.path.join(HERE, 'keep_c.txt' if what == 'c' else 'keep_cpp.txt')
        js = dump(bcs, tmp, what, keep)
        js['units'] = [r for r, _ in bcs]
        return js
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
