"""After a failed obligation: look for an input of the real code that breaks the property, models of the verifier first."""
import os, subprocess, tempfile, shutil, re, time, json
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('FLOAXIE_REPO', '/repo')
CXX = '/usr/lib/llvm-18/bin/clang++'
SANITIZED = ('C03', 'C08', 'C20')

def proposals(inputs):
    """lines of the proposal file from models of failed obligations"""
    out = []
    for unit, i in inputs:
        k = 'f' if re.search(r'^[a-z]+\.f', unit) else 'd'
        try:
            if 'bits' in i: out.append('bits %s %s' % (k, i['bits']))
            if 'text' in i: out.append('text %s %s' % (k, i['text']))
            if 'digits' in i: out.append('text %s %se%s' % (k, i['digits'], i['k']))
            if 'f1' in i and 'e1' in i: 
                if 'f2' in i: out.append('arith %s %s %s %s %s' % (k, i['f1'], i['e1'], i['f2'], i['e2']))
                elif 'err' in i: out.append('round %s %s %s %s' % (k, i['f1'], i['e1'], i['err']))
        except Exception: pass
    return out

def constants():
    """integer constants in the library's sources: lengths and limits worth trying"""
    s, fl = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        for f in fs:
            if f == 'powers_ten_double.h' or f == 'powers_ten_single.h': continue
            try: t = open(os.path.join(d, f), errors='replace').read()
            except OSError: continue
            t = re.sub(r'/\*.*?\*/|//[^\n]*', '', t, flags=re.S)
            for x in re.findall(r"(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)", t):
                v = float(x)
                if 0 < v < 1e309: fl.add(v)
            for x in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)', t):
                v = int(x, 0) if not (x.startswith('0') and x.isdigit()) else int(x, 10)
                if 2 < v < 100000: s.add(v); s.add(-v)
    return ['const %d' % c for c in sorted(s)] + ['fconst %r' % c for c in sorted(fl)]

def hunt(prop, inputs, seed, seconds, found=None):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='hunt')
    try:
        san = prop in SANITIZED
        flags = ['-std=c++14', '-w', '-fno-access-control', '-I', os.path.join(REPO, 'include'), '-DWIDE_TYPES']
        if prop in ('C16', 'C17', 'C18'): flags.append('-DARITH')
        flags += ['-O1', '-g', '-DSAN', '-fsanitize=' + ('thread' if prop == 'C20' else 'address,undefined'), '-fno-sanitize-recover=all'] if san else ['-O2']
        flags.append('-pthread')
        exe = os.path.join(d, 'hunt')
        p = subprocess.run([CXX] + flags + [os.path.join(VERIF, 'hunt', 'hunt.cpp'), '-o', exe], capture_output=True, text=True, timeout=300)
        if p.returncode:
            if found: return dict(found=True, text=found + ':\n' + p.stderr[:2000])
            return dict(found=False, text='the search program does not compile: ' + p.stderr[-1500:])
        prop_file = os.path.join(d, 'proposals')
        open(prop_file, 'w').write('\n'.join(proposals(inputs) + constants()) + '\n')
        seconds = max(10, seconds - (time.time() - t0))
        n = min(8, len(os.sched_getaffinity(0)))
        env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1 exitcode=3')
        ps = []
        for i in range(n):
            o = open(os.path.join(d, 'out%d' % i), 'w+'); e = open(os.path.join(d, 'err%d' % i), 'w+')
            ps.append((subprocess.Popen([exe, prop, str(seed * 1000 + i), '%.1f' % seconds, prop_file], stdout=o, stderr=e, env=env, cwd=d), o, e))
        end = time.time() + seconds + 40
        tried, open_ = 0, list(ps)
        while open_ and time.time() < end:
            for x in list(open_):
                rc = x[0].poll()
                if rc is None: continue
                open_.remove(x)
                for f in x[1:]: f.seek(0)
                out, err = x[1].read(), x[2].read()
                if rc == 3 or rc < 0 or (san and rc != 0):
                    return dict(found=True, text=(out + ('\n' + err[:2500] if err else ''))[:6000] or 'the search program died with status %d' % rc)
                m = re.search(r'(\d+) inputs tried', out)
                if m: tried += int(m.group(1))
            time.sleep(0.05)
        return dict(found=False, text='%d inputs were tried in %.0f s' % (tried, time.time() - t0))
    except Exception as e:
        return dict(found=False, text='search failed: %r' % e)
    finally:
        for x in locals().get('ps', []):
            try: x[0].kill(); x[0].wait()
            except Exception: pass
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import sys
    print(hunt(sys.argv[1], [], int(sys.argv[2]) if len(sys.argv) > 2 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 20))
