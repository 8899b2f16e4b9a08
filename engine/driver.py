"""Extraction driver: builds the AST extractor, re-reads /repo's current sources, loads the resolved program."""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from prog import Prog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CORE = REPO + '/cppcore'
BUILD = VERIF + '/build'
LLVM = '/usr/lib/llvm-18'
COMPAT = '/opt/vp/cmake/compat'


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def extractor():
    src = VERIF + '/tool/extract.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = '%s/extract-%s' % (BUILD, h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
            '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
            '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18'])
    if r.returncode:
        raise CheckError('extractor does not build:\n' + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def flags():
    fl = ['-std=c++11', '-DNDEBUG', '-DFMT_SHARED', '-I' + VERIF + '/tu/stub', '-I' + CORE + '/include']
    if os.path.exists(COMPAT + '/compat.hpp'):
        fl += ['-I' + COMPAT, '-include', 'compat.hpp']
    fl += ['-isystem', '/usr/include/eigen3', '-resource-dir', LLVM + '/lib/clang/18', '-Wno-everything']
    return fl


def units():
    out = []
    for root, _, fs in os.walk(CORE + '/src'):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, CORE + '/src')
            if f.endswith('.cpp') and not rel.startswith('cuda'):
                out.append((rel[:-4].replace('/', '_'), p))
    for p in sorted(glob.glob(VERIF + '/tu/*.cpp')):
        out.append(('tu_' + os.path.basename(p)[:-4], p))
    return sorted(out)


def tree_hash(ex):
    h = hashlib.sha256()
    h.update(ex.encode())
    h.update(' '.join(flags()).encode())
    fs = []
    for d in (CORE + '/include', CORE + '/src', VERIF + '/tu'):
        for root, _, names in os.walk(d):
            fs += [os.path.join(root, n) for n in names]
    for f in sorted(fs):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def extract():
    """-> (dir with one .jsonl per translation unit, info)"""
    ex = extractor()
    us = units()
    if len(us) < 5:
        raise CheckError('only %d translation units found under %s' % (len(us), CORE))
    hv = tree_hash(ex)
    out = '%s/x-%s' % (BUILD, hv)
    if os.path.exists(out + '/ok'):
        return out, dict(units=len(us), tree=hv, cached=True)
    for old in glob.glob(BUILD + '/x-*'):
        try:
            if os.path.getmtime(old) < time.time() - 1800 and os.path.basename(old).startswith('x-'):
                for f in glob.glob(old + '/*'):
                    os.unlink(f)
                os.rmdir(old)
        except OSError:
            pass    # another check is at it
    os.makedirs(out, exist_ok=True)
    fl = flags()

    def one(u):
        tag, src = u
        dst = '%s/%s.jsonl' % (out, tag)
        tmp = dst + '.%d' % os.getpid()
        r = sh([ex, tmp, tag, CORE, src, '--'] + fl, cwd='/')
        if r.returncode or not os.path.exists(tmp):
            return '%s: %s' % (src, r.stdout[-2000:])
        os.replace(tmp, dst)
        return None
    us.sort(key=lambda u: -os.path.getsize(u[1]))
    with ThreadPoolExecutor(8) as tp:
        res = list(tp.map(one, us))
    # our own instantiation units may stop compiling when an internal interface changes: then only what they add is missing
    errs = [e for u, e in zip(us, res) if e and not u[0].startswith('tu_')]
    if errs:
        raise CheckError('%d translation units do not parse:\n%s' % (len(errs), '\n'.join(errs)[:4000]))
    open(out + '/ok', 'w').close()
    return out, dict(units=len(us), tree=hv, cached=False)


def load():
    d, info = extract()
    P = Prog()
    for f in sorted(glob.glob(d + '/*.jsonl')):
        P.load(f, os.path.basename(f)[:-6])
    P.finish()
    P.info = info
    return P
