"""Compile and run generated programs with the real compiler, then have TLC decide
whether what they did is a behaviour of the specification."""
import os, signal, subprocess, json, re, resource, shutil, tempfile, time, sys
from concurrent.futures import ThreadPoolExecutor
import build

HERE = os.path.dirname(os.path.abspath(__file__))
TLA = os.path.join(os.path.dirname(HERE), 'tla')
JOBS = 8

class Scratch:
    """a world-usable scratch directory, removed afterwards"""
    def __enter__(s):
        s.d = tempfile.mkdtemp(prefix='csp', dir='/tmp'); os.chmod(s.d, 0o777); return s.d
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)

NOBODY = 65534
def limits(fsize=4 << 20, cpu=10):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        for n in range(1, 65):      # whatever started us may ignore or block some
            if n not in (9, 19, 32, 33): signal.signal(n, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
    return f

def run_binary(cmd, cwd, stdin=b'', timeout=20, fsize=4 << 20, env=None, stderr=False):
    """-> (stdout bytes, exit status; 128+n for signal n, -1 on timeout)"""
    out = os.path.join(cwd, '.out%x' % id(cmd))
    with open(out, 'wb') as fo:
        try:
            p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=fo,
                               stderr=subprocess.PIPE if stderr else subprocess.DEVNULL, timeout=timeout,
                               preexec_fn=limits(fsize), env=env or {'PATH': '/usr/bin:/bin', 'HOME': cwd})
            rc = p.returncode if p.returncode >= 0 else 128 - p.returncode
            err = p.stderr if stderr else b''
        except subprocess.TimeoutExpired:
            rc, err = -1, b''
    data = open(out, 'rb').read(); os.unlink(out)
    return (data, rc, err) if stderr else (data, rc)

class Compiled:
    def __init__(s, exe, log, rc): s.exe, s.log, s.rc = exe, log, rc
    ok = property(lambda s: s.exe is not None)

def cspc(args, cwd, timeout=60, stdin=None, env=None):
    exe, std, _ = build.build_cached()
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': cwd, 'LC_ALL': 'C.UTF-8'}
    e.update(env or {})
    os.makedirs(os.path.join(cwd, '.cache'), exist_ok=True)
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout))
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=pre)
        return p.returncode if p.returncode >= 0 else 128 - p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, 'timeout'

def compile_src(src, d, name='prog', flags=(), files=None, env=None):
    """compile one source text in directory d; -> Compiled"""
    os.makedirs(d, exist_ok=True); os.chmod(d, 0o777)
    fn = os.path.join(d, name + '.csp')
    with open(fn, 'w', encoding='utf8', newline='') as f: f.write(src)
    for n, t in (files or {}).items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode())
    out = os.path.join(d, name + '.exe')
    std = build.build_cached()[1]
    rc, log = cspc(['build', name + '.csp', '-p', std, '-o', './' + name + '.exe', '--silent', *flags], d, env=env)
    return Compiled(out if os.path.exists(out) else None, log, rc)

BACKENDS = {'asm': [], 'c': ['-b', 'C']}

def execute(p, root, backend='asm', flags=(), keep=False):
    """compile and run Prog p; -> (out, exit, note)"""
    d = os.path.join(root, re.sub(r'\W', '_', p.pid) + '_' + backend + ''.join(flags).replace('/', ''))
    if backend == 'interp':
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'prog.csp'), 'w').write(p.source('interp'))
        rc, log = cspc(['run', 'prog.csp', '-p', build.build_cached()[1], '-b', 'interpreter'] + list(flags), d, timeout=20)
        log = re.sub(r'\x1b\[[0-9;]*m', '', log)
        m = re.search(r'terminated with exit code (-?\d+)\]', log)
        if not keep: shutil.rmtree(d, ignore_errors=True)
        return b'', (int(m.group(1)) & 255 if m else -3), '' if m else 'interpreter gave no exit code (status %d): %s' % (rc, log[-300:])
    c = compile_src(p.source(backend), d, flags=BACKENDS[backend] + list(flags), files=getattr(p, 'files', None))
    if not c.ok:
        if not keep: shutil.rmtree(d, ignore_errors=True)
        return b'', -2, 'does not compile: ' + c.log[-600:]
    data, rc = run_binary([c.exe] + list(getattr(p, 'argv', [])), d, stdin=getattr(p, 'stdin', b''))
    if not keep: shutil.rmtree(d, ignore_errors=True)
    return data, rc, ''

def build_text(t, root, backend='asm', flags=(), rt=None):
    """compile and run a program given as text; -> (built, out, exit, note)"""
    d = os.path.join(root, re.sub(r'\W', '_', t.pid) + '_' + backend)
    fs = dict(t.files); fs.setdefault('rt.csp', rt)
    main = os.path.join(d, t.main)
    os.makedirs(os.path.dirname(main), exist_ok=True)
    c = compile_src('', d, name=t.main[:-4], flags=BACKENDS[backend] + list(flags), files=fs, env=getattr(t, 'env', None))
    try:
        if not c.ok: return False, b'', -3 if c.rc > 128 or c.rc < 0 else -4 if not c.log.strip() else -2, 'does not compile (status %d): %s' % (c.rc, c.log[-600:])
        data, rc = run_binary(['./' + os.path.relpath(c.exe, d)] + t.args, d)
        return True, data, rc, c.log[-600:]
    finally: shutil.rmtree(d, ignore_errors=True)

def pmap(f, xs):
    with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(f, xs))

class TLCResult: pass

def tlc(module, cfg, env, timeout=800, workers=8, extra=(), mem='8g', dir=TLA):
    meta = tempfile.mkdtemp(prefix='tlc', dir='/tmp')
    try:
        cfgf = os.path.join(meta, 'M.cfg')
        open(cfgf, 'w').write(cfg)
        cmd = ['java', '-Xss512m', '-XX:+UseParallelGC', '-Xmx' + mem, '-DTLA-Library=' + TLA + ':' + TLA + '/std', '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-config', cfgf, '-metadir', os.path.join(meta, 's'), '-workers', str(workers),
               '-noGenerateSpecTE', '-nowarning', *extra, os.path.join(dir, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=meta, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode(errors='replace'), p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode(errors='replace'), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(); r.out, r.rc = out, rc
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.finished = 'Finished in' in out and rc != -9
    return r

MACHINE_CFG = 'INIT Init\nNEXT Next\nINVARIANT StackDiscipline\nCHECK_DEADLOCK FALSE\n'
STRICT_CFG = 'INIT Init\nNEXT Next\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n'

SOURCE_CFG = 'INIT Init\nNEXT Next\nINVARIANT Tidy\nCHECK_DEADLOCK FALSE\n'
SOURCE_STRICT = 'INIT Init\nNEXT Next\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n'

def validate(recs, module='Machine', cfg=MACHINE_CFG, timeout=800):
    """recs: list of JSON program records with outputs. -> (verdicts {id: 'OK' | (why)}, TLCResult)"""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False, dir='/tmp') as f:
        json.dump(recs, f)
    try: r = tlc(module, cfg, {'CSP_PROGS': f.name}, timeout)
    finally: os.unlink(f.name)
    v = {}
    for m in re.finditer(r'<<\s*"MISMATCH",\s*"([^"]+)",\s*(\d+),\s*(\d+),\s*(<<[^<>]*>>)\s*>>', r.out):
        v[m.group(1)] = ('output', int(m.group(2)), int(m.group(3)), re.sub(r'\s+', '', m.group(4)))
    for m in re.finditer(r'<<\s*"EXITCODE",\s*"([^"]+)",\s*(-?\d+)\s*>>', r.out): v.setdefault(m.group(1), ('exit', int(m.group(2))))
    for m in re.finditer(r'<<\s*"EXTRA",\s*"([^"]+)",\s*(-?\d+)\s*>>', r.out): v.setdefault(m.group(1), ('extra', int(m.group(2))))
    for m in re.finditer(r'<<\s*"(ACCEPTED|REJECTED|CRASHED)",\s*"([^"]+)"\s*>>', r.out): v.setdefault(m.group(2), (m.group(1).lower(),))
    for m in re.finditer(r'<<\s*"OK",\s*"([^"]+)"\s*>>', r.out): v[m.group(1)] = 'OK'
    return v, r

def tlc_error(r):
    i = r.out.find('Error:')
    return r.out[i:i+3000] if i >= 0 else r.out[-1500:]
