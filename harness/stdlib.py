"""Drivers for the standard library: a CSpydr program per library part reads a script of operations from standard input,
performs them with the real library and writes every result; TLC decides whether the recorded history is a behaviour of
the part's TLA+ specification."""
import json, os, re, shutil, struct, tempfile
import runner, build

PRELUDE = '''
extern "C" {
    fn read(fd: i32, p: &void, n: u64): i64;
    fn write(fd: i32, p: &void, n: u64): i64;
    fn malloc(n: u64): &void;
}
let __eof: bool = false;
fn rd_bytes(p: &void, n: u64) {
    let got: u64 = 0;
    while got < n {
        let k = read(0, p + got, n - got);
        if k <= 0 { __eof = true; ret; }
        got = got + (k: u64);
    }
}
fn rd(): i64 { let v: i64 = 0; rd_bytes(&v, 8); <- v; }
let __slen: u64 = 0;
fn rs(): &char {
    let n: u64 = rd(): u64;
    let p: &char = malloc(n + 1): &char;
    rd_bytes(p, n);
    p[n] = '\\0';
    __slen = n;
    <- p;
}
fn wr(v: i64) { write(1, &v, 8); }
fn wb(p: &void, n: u64) { let k: u64 = n; write(1, &k, 8); let done: u64 = 0; while done < n { let m = write(1, p + done, n - done); if m <= 0 { ret; } done = done + (m: u64); } }
fn ws(p: &char) { if p == nil { wr(-1); } else { wb(p, len p); } }
'''
NIL = [-1]      # what a nil string looks like to the specification

class Driver:
    """ops: {name: (args format, result format, CSpydr statements)}; formats: i small integer, w 64-bit word, s byte string.
    Arguments are a0, a1, ... (i64 / &char with lengths n0, ...); the statements write the results with wr / wb / ws."""
    def __init__(s, name, module, ops, imports=(), decls='', setup='', flags=(), argv=()):
        s.name, s.module, s.ops, s.imports, s.decls, s.setup, s.flags, s.argv = name, module, ops, imports, decls, setup, list(flags), list(argv)
        s.code = {o: i + 1 for i, o in enumerate(ops)}
    def source(s):
        cases = []
        for o, (af, rf, body) in s.ops.items():
            ar = ''
            for i, f in enumerate(af):
                if f in 'iw': ar += f'let a{i}: i64 = rd(); '
                else: ar += f'let a{i}: &char = rs(); let n{i}: u64 = __slen; '
            cases.append(f'fn op_{o}() {{ {ar}\n{body}\n}}')
        disp = '\n'.join(f'        if op == {s.code[o]} {{ op_{o}(); }}' for o in s.ops)
        return (''.join(f'import "{i}";\n' for i in s.imports) + PRELUDE + s.decls + '\n' + '\n'.join(cases) +
                f'\nfn main(argc: i32, argv: &&char): i32 {{\n    {s.setup}\n    loop {{\n        let op = rd();\n        if __eof {{ <- 0; }}\n        if op == 99 {{ <- 0; }}\n{disp}\n    }}\n    <- 0;\n}}\n')
    def encode(s, script):
        b = b''
        for o, *args in script:
            b += struct.pack('<q', s.code[o])
            af = s.ops[o][0]
            assert len(af) == len(args), (o, args)
            for f, a in zip(af, args):
                if f == 'i': b += struct.pack('<q', a)
                elif f == 'w': b += struct.pack('<Q', a & (2**64-1))
                else: b += struct.pack('<q', len(a)) + bytes(a)
        return b + struct.pack('<q', 99)
    def decode(s, script, data):
        """-> list of result lists; [] for operations whose results never came"""
        pos, out, dead = 0, [], False
        for o, *args in script:
            r = []
            for f in s.ops[o][1]:
                if dead or pos + 8 > len(data): dead = True; r = []; break
                if f == 'i':
                    v = struct.unpack_from('<q', data, pos)[0]; pos += 8
                    r.append(v if abs(v) < 2**31 else 2147483647)
                elif f == 'w': r.append(list(data[pos:pos+8])); pos += 8
                elif f == 'L':
                    n = struct.unpack_from('<q', data, pos)[0]; pos += 8
                    if n < 0 or pos + 8 * n > len(data): dead = True; r = []; break
                    r.append([x if abs(x) < 2**31 else 2147483647 for x in struct.unpack_from(f'<{n}q', data, pos)]); pos += 8 * n
                elif f == 'S':      # count, then that many strings
                    n = struct.unpack_from('<q', data, pos)[0]; pos += 8
                    l = []
                    for _ in range(max(0, min(n, len(data)))):
                        if pos + 8 > len(data): dead = True; break
                        m = struct.unpack_from('<q', data, pos)[0]; pos += 8
                        if m == -1: l.append(NIL); continue
                        if m < 0 or pos + m > len(data): dead = True; break
                        l.append(list(data[pos:pos+m])); pos += m
                    if dead or n < 0: dead = True; r = []; break
                    r.append(l)
                else:
                    n = struct.unpack_from('<q', data, pos)[0]; pos += 8
                    if n == -1: r.append(NIL)
                    elif n < 0 or pos + n > len(data): dead = True; r = []; break
                    else: r.append(list(data[pos:pos+n])); pos += n
            out.append(r)
        return out, (len(data) - pos if not dead else 0)
    def tla_args(s, o, args):
        out = []
        for f, a in zip(s.ops[o][0], args):
            if f == 'i': out.append(a)
            elif f == 'w': out.append(list(struct.pack('<Q', a & (2**64-1))))
            else: out.append(list(a))
        return out

WRAP = '''---------------------------- MODULE Run_%(m)s ----------------------------
(* generated: histories recorded from the real library against %(m)s *)
EXTENDS %(m)s, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.CSP_TRACES)
VARIABLES tid, pos, obj, st
vars == <<tid, pos, obj, st>>
Init == tid \\in 1..Len(Traces) /\\ pos = 0 /\\ obj = Start(Traces[tid].cfg) /\\ st = "run"
Next ==
  /\\ st = "run" /\\ tid' = tid
  /\\ LET T == Traces[tid] IN
     IF pos = Len(T.ops)
     THEN IF T.extra = 0 /\\ T.exit = 0 THEN PrintT(<<"OK", T.id>>) /\\ st' = "ok" /\\ UNCHANGED <<pos, obj>>
          ELSE PrintT(<<"ENDED", T.id, T.exit, T.extra>>) /\\ st' = "bad end" /\\ UNCHANGED <<pos, obj>>
     ELSE LET e == T.ops[pos + 1]
              all == Post(e, obj)
              ps == { x \\in all : x.r = e.r }
          IN IF ps = {}
             THEN PrintT(<<"BADSTEP", T.id, pos + 1, ToString(all)>>) /\\ st' = "bad step" /\\ UNCHANGED <<pos, obj>>
             ELSE \\E x \\in ps : obj' = x.s /\\ pos' = pos + 1 /\\ st' = "run"
Holds == Inv(obj)
Conforms == st \\in {"run", "ok"}
=============================================================================
'''
CFG = 'INIT Init\nNEXT Next\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n'

GEN = '''---------------------------- MODULE Gen_%(m)s ----------------------------
(* generated: every history of %(m)s's small operations up to a length *)
EXTENDS %(m)s, Json, TLC
VARIABLES hist, obj
Init == hist = <<>> /\\ obj = Start(%(cfg)s)
Next == /\\ Len(hist) < %(depth)d
        /\\ \\E o \\in SmallOps : Enabled(o, obj) /\\ \\E x \\in Post(o, obj) :
             obj' = x.s /\\ hist' = Append(hist, o) /\\ (IF Len(hist') < %(depth)d THEN TRUE ELSE PrintT("GEN " \\o ToJson([i \\in 1..%(depth)d |-> <<hist'[i].op, hist'[i].a>>])))
Holds == Inv(obj)
=============================================================================
'''
def generate(drv, depth, cfg='[x |-> 0]', tail=()):
    """every history of `depth` small operations the specification allows, as scripts -> ({case: script}, TLCResult)"""
    d = tempfile.mkdtemp(prefix='gen', dir='/tmp')
    try:
        open(os.path.join(d, f'Gen_{drv.module}.tla'), 'w').write(GEN % {'m': drv.module, 'depth': depth, 'cfg': cfg})
        r = runner.tlc(f'Gen_{drv.module}', CFG, {}, 600, dir=d)
    finally: shutil.rmtree(d, ignore_errors=True)
    out = {}
    for k, l in enumerate(sorted(set(re.findall(r'^"GEN (.*)"$', r.out, re.M)))):
        sc = []
        for o, a in json.loads(l.replace('\\"', '"')):
            args = []
            for f, x in zip(drv.ops[o][0], a):
                args.append(x if f == 'i' else struct.unpack('<Q', bytes(x))[0] if f == 'w' else bytes(x))
            sc.append((o, *args))
        out[f'all{depth}_{k}'] = sc + list(tail)
    if not r.finished or not out or 'Error:' in r.out: raise RuntimeError('no histories generated:\n' + runner.tlc_error(r))
    return out, r

def record(drv, exe, script, d, argv=None, under=()):
    """run one script -> trace record"""
    wd = tempfile.mkdtemp(prefix='r', dir=d); os.chmod(wd, 0o777)
    data, rc = runner.run_binary([*under, exe] + (drv.argv if argv is None else argv), wd, stdin=drv.encode(script))
    shutil.rmtree(wd, ignore_errors=True)
    res, extra = drv.decode(script, data)
    return [{'op': o, 'a': drv.tla_args(o, a), 'r': r} for (o, *a), r in zip(script, res)], rc, extra

def judge(module, traces, timeout=800):
    """-> ({id: 'OK' | why}, TLCResult)"""
    d = tempfile.mkdtemp(prefix='run', dir='/tmp')
    try:
        json.dump(traces, open(os.path.join(d, 't.json'), 'w'))
        open(os.path.join(d, f'Run_{module}.tla'), 'w').write(WRAP % {'m': module})
        r = runner.tlc(f'Run_{module}', CFG, {'CSP_TRACES': os.path.join(d, 't.json')}, timeout, dir=d)
    finally: shutil.rmtree(d, ignore_errors=True)
    v = {}
    for m in re.finditer(r'<<\s*"BADSTEP",\s*"([^"]+)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', r.out, re.S): v[m.group(1)] = ('step', int(m.group(2)), re.sub(r'\s+', ' ', m.group(3))[:1500])
    for m in re.finditer(r'<<\s*"ENDED",\s*"([^"]+)",\s*(-?\d+),\s*(-?\d+)\s*>>', r.out): v[m.group(1)] = ('end', int(m.group(2)), int(m.group(3)))
    for m in re.finditer(r'<<\s*"OK",\s*"([^"]+)"\s*>>', r.out): v[m.group(1)] = 'OK'
    return v, r

def stand_in(name, d):
    """compile one of harness/c's programs into d"""
    import subprocess
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c', name + '.c'); out = os.path.join(d, name)
    subprocess.run(['gcc', '-O1', '-w', '-o', out, src], check=True); os.chmod(out, 0o755)
    return out

def text(drv, script, rec=None):
    """a script in readable form"""
    out = []
    for k, (o, *a) in enumerate(script):
        out.append(f'{k+1}: {o}({", ".join(repr(bytes(x)) if isinstance(x, (bytes, list)) else str(x) for x in a)})' + (f' -> {rec[k]["r"]}' if rec else ''))
    return '\n'.join(out)
