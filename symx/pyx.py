"""Cython sources.  The current .pyx of the repository is used twice: translated to Python
(types, casts and C-level imports removed) for symbolic execution, and compiled with Cython in a
scratch directory for replaying models against the real code."""
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import types

LIBC = {'fabs': 'np.abs', 'M_PI': 'np.pi', 'pow': 'np.power', 'atan2': 'np.arctan2', 'asin': 'np.arcsin',
        'acos': 'np.arccos', 'atan': 'np.arctan', 'isnan': 'np.isnan', 'fmin': 'np.minimum', 'fmax': 'np.maximum'}
WORD = r'[A-Za-z_]\w*'


def _split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur.strip() else out


def _param(p):
    p = p.strip()
    if p.startswith('*') or p == '/' or re.match(r'%s\s*:' % WORD, p):
        return p
    try:
        left, default = _assign(p)
        default = '=' + default
    except SyntaxError:
        left, default = p, ''
    left = re.sub(r'not\s+None', '', re.sub(r'\[[^]]*\]', ' ', left))
    return re.findall(WORD, left)[-1] + default


def _close(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == '(':
            d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0:
                return k
    raise SyntaxError('unbalanced')


def translate(src):
    """Cython -> Python with the same arithmetic"""
    out, lines, i = ['import numpy as np'], src.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        i += 1
        ind = l[:len(l) - len(l.lstrip())]
        t = l.strip()
        if re.match(r'@cython\b', t) or re.match(r'cimport\b', t):
            continue
        m = re.match(r'from\s+([\w.]+)\s+cimport\s+(.*)$', t)
        if m:
            if m.group(1) in ('libc.math', 'libcpp.cmath', 'numpy.math'):
                for nm in m.group(2).strip('()').split(','):
                    a, _, b = nm.partition(' as ')
                    a = a.strip()
                    out.append('%s%s = %s' % (ind, (b or a).strip(), LIBC.get(a, 'np.' + a)))
            continue
        if re.match(r'with\s+(no)?gil\b', t):
            out.append(ind + 'if True:')
            continue
        m = re.match(r'(def|cdef|cpdef)\b', t)
        if m and (m.group(1) == 'def' or re.match(r'c(p)?def\s+[^=]*?\w\s*\(', t)):
            while t.count('(') > t.count(')') or not t.split('#')[0].rstrip().endswith(':'):
                t += '\n' + lines[i]
                i += 1
            a = t.index('(')
            b = _close(t, a)
            name = re.findall(WORD, t[:a])[-1]
            out.append('%sdef %s(%s):' % (ind, name, ', '.join(_param(p) for p in _split(t[a + 1:b]) if p.strip())))
            continue
        if m:
            t = re.sub(r'^c(p)?def\s+', '', t)
            if not t or t.endswith(':'):
                raise SyntaxError('cdef block')
            while t.count('(') > t.count(')') or t.count('[') > t.count(']'):
                t += ' ' + lines[i].strip()
                i += 1
            # TYPE a, b = 1, c
            parts = _split(t)
            for k, p in enumerate(parts):
                if re.search(r'(?<![=<>!])=(?!=)', re.sub(r'\[[^]]*\]|\([^)]*\)', '', p)):
                    lhs, rhs = _assign(p)
                    out.append('%s%s = %s' % (ind, re.findall(WORD, lhs)[-1], rhs))
                else:
                    out.append(ind + 'pass')
            continue
        l = re.sub(r'<\s*(?:unsigned\s+)?(?:double|float|int|long|Py_ssize_t|object|np\.\w+_t)\s*\*?>', '', l)
        out.append(l)
    return '\n'.join(out)


def _assign(p):
    d = 0
    for k, c in enumerate(p):
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '=' and d == 0:
            return p[:k], p[k + 1:].strip()
    raise SyntaxError(p)


def as_python(path, name):
    """module executing the translated source; part of the package, so it is patched with it"""
    with open(path) as f:
        src = translate(f.read())
    m = types.ModuleType(name)
    m.__file__ = path
    exec(compile(src, path, 'exec'), m.__dict__)
    sys.modules[name] = m
    return m


def compiled(path, name):
    """module compiled from the current source, in a scratch directory"""
    import numpy as np
    d = tempfile.mkdtemp(prefix='symx_pyx_')
    try:
        base = os.path.splitext(os.path.basename(path))[0]
        c = os.path.join(d, base + '.c')
        src = os.path.join(d, base + '.pyx')
        shutil.copy(path, src)
        pxd = path[:-3] + 'pxd'
        if os.path.exists(pxd):
            shutil.copy(pxd, d)
        run = dict(check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, cwd=d)
        subprocess.run([sys.executable, '-m', 'cython', src, '-o', c], **run)
        so = os.path.join(d, base + sysconfig.get_config_var('EXT_SUFFIX'))
        subprocess.run([os.environ.get('CC', 'gcc'), '-shared', '-fPIC', '-O1', '-w', '-I', sysconfig.get_paths()['include'],
                        '-I', np.get_include(), c, '-o', so, '-lm'], **run)
        spec = importlib.util.spec_from_file_location(
            name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
