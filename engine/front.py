"""Front end: /repo's current source -> LLVM IR -> parsed module."""
import subprocess, os, re, tempfile, shutil
import irparse
from irparse import parse_module, Unsupported
LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('FLOAXIE_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-access-control',
         '-ffp-contract=off', '-S', '-emit-llvm', '-D_GLIBCXX_ASSERTIONS', '-Wno-invalid-offsetof', '-w']

class BuildError(Exception): pass
DROPPED = []      # items of the harness that do not compile with the current tree (their units stay undecided)

def items(src, defs, d):
    """the harness with its macros expanded, one declaration per line"""
    txt = open(src).read()
    inc = re.findall(r'^#include.*$', txt, re.M)
    f = os.path.join(d, 'x.cpp')
    open(f, 'w').write(re.sub(r'^#include.*$', '', txt, flags=re.M))
    p = subprocess.run([LLVM + 'clang++', '-E', '-P'] + ['-D' + x for x in defs] + [f], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    out, cur, dep = [], '', 0
    t = re.sub(r'\s+', ' ', p.stdout)
    for i, ch in enumerate(t):
        cur += ch
        if ch == '{': dep += 1
        elif ch == '}': dep -= 1
        if dep == 0 and (ch == ';' or ch == '}' and not re.match(r'\s*;', t[i + 1:i + 4])):
            out.append(cur.strip()); cur = ''
    if cur.strip(): out.append(cur.strip())
    return inc + out

def tolerant(cmd, src, defs, d):
    """leave out the items of the harness that do not compile"""
    ls = items(src, defs, d)
    f = os.path.join(d, 'y.cpp')
    for _ in range(20):
        open(f, 'w').write('\n'.join(ls) + '\n')
        p = subprocess.run(cmd + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', f], capture_output=True, text=True)
        if p.returncode == 0: return
        bad = {int(x) - 1 for x in re.findall(r'y\.cpp:(\d+):\d+: (?:error|note: in (?:implicit )?instantiation|note: in instantiation)', p.stderr)}
        bad = {b for b in bad if ls[b] and not ls[b].startswith(('#', 'using namespace'))}
        if not bad: raise BuildError(p.stderr[-3000:])
        for b in bad: DROPPED.append(ls[b]); ls[b] = ''
    raise BuildError(p.stderr[-3000:])

def build(defs=(), src=None, work=None, strict=True):
    d = work or tempfile.mkdtemp(prefix='flx')
    try:
        a, b = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        src = src or os.path.join(VERIF, 'harness', 'verify.cpp')
        cmd = [LLVM + 'clang++'] + FLAGS + ['-D' + x for x in defs] + ['-I', os.path.join(REPO, 'include'), '-o', a]
        if strict:
            p = subprocess.run(cmd + [src], capture_output=True, text=True)
            if p.returncode: raise BuildError(p.stderr[-3000:])
        else: tolerant(cmd, src, defs, d)
        p = subprocess.run([LLVM + 'opt', '-S', '-passes=sroa', a, '-o', b], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-3000:])
        txt = open(b).read()
    finally:
        if work is None: shutil.rmtree(d, ignore_errors=True)
    return txt

def load(txt):
    m = parse_module(txt)
    names = list(m.funcs) + list(m.decls)
    p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    dem = p.stdout.split('\n')
    m.dem = {}
    for n, d in zip(names, dem):
        m.dem[n] = d
        if n in m.funcs: m.funcs[n].dem = d
    m.byname = {}
    for n in m.funcs:
        m.byname.setdefault(base(m.dem[n]), []).append(n)
    return m

def base(d):
    """demangled name without return type and parameters: the qualified template name"""
    # cut the parameter list: last top-level '('
    depth = 0
    i = len(d) - 1
    # trailing const
    end = d.rfind(')')
    if end < 0: return d
    j = end
    dep = 0
    while j >= 0:
        if d[j] == ')': dep += 1
        elif d[j] == '(':
            dep -= 1
            if dep == 0: break
        j -= 1
    head = d[:j]
    # drop the return type: last top-level space outside <>
    dep = 0
    k = len(head) - 1
    if 'operator' in head:
        lim = head.rfind('operator')
    else: lim = None
    cut = 0
    for i, ch in enumerate(head):
        if ch == '<' and not (lim is not None and i >= lim): dep += 1
        elif ch == '>' and not (lim is not None and i >= lim): dep -= 1
        elif ch == '(' : dep += 1
        elif ch == ')' : dep -= 1
        elif ch == ' ' and dep == 0 and (lim is None or i < lim): cut = i + 1
    return head[cut:]

def const(m, name):
    """value of an integer constant of the harness"""
    t, init, c = irparse.parse_global(m, name)
    return 0 if init == ('zero',) else init

def sconst(m, name):
    v = const(m, name)
    return v - (1 << 64) if v >> 63 else v
