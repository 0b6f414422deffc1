"""Programs as TEXT, for Source.tla: generators of program texts (several files each).
The specification alone decides what a text means; nothing here knows the answer."""
import os, random, re

PUTS = r'''fn put(x: i32) { let v = x; rt_write(&v: &void, 4: u64); }
fn putb(x: bool) { let v: i32 = 0; if x v = 1; rt_write(&v: &void, 4: u64); }
fn put8(x: u64) { let v = x; rt_write(&v: &void, 8: u64); }
fn say(s: &const char) { let n: i32 = 0; while (s[n]: u8) != 0 n++; rt_write(&n: &void, 4: u64); rt_write(s: &void, (n: u64)); }
'''
RT = {'asm': r'''fn rt_write(p: &void, n: u64) {
    asm "movaps (%rbp), %xmm15;"
        "mov " p ", %rsi;"
        "mov " n ", %rdx;"
        "mov $1, %rdi;"
        "mov $1, %rax;"
        "syscall";
}
''' + PUTS, 'c': r'''extern "C" {
    fn fwrite(p: &void, n: u64, m: u64, f: &void): u64;
    let stdout: &void;
}
fn rt_write(p: &void, n: u64) { fwrite(p, n, 1: u64, stdout); }
''' + PUTS}

class Text:
    """a program: files {name: text}, the first is the main file"""
    def __init__(s, pid, files, mutant=False, args=(), env=None):
        s.pid = pid; s.mutant = mutant; s.args = list(args); s.env = dict(env or {})
        s.files = {n: t if isinstance(t, bytes) else t.encode() for n, t in files.items()}
        s.main = next(iter(files))
    def tojson(s, built, out, code, backend='asm'):
        return {'id': s.pid, 'backend': backend, 'args': [list(a.encode()) for a in ['./' + s.main[:-4] + '.exe'] + s.args],
                'env': [[list(n.encode()), list(v.encode())] for n, v in s.env.items()], 'files': [{'name': list(n.encode()), 'text': list(t)} for n, t in s.files.items()],
                'mutant': s.mutant, 'built': built, 'out': list(out), 'exit': code}
    def source(s): return b''.join(b'# ---- ' + n.encode() + b'\n' + t for n, t in s.files.items())

def prog(pid, body, **kw):
    """one file: definitions, or only the body of main"""
    return Text(pid, {'prog.csp': 'import "rt.csp";\n' + body})

# ------------------------------------------------------------------ layout
IDC = re.compile(r"[A-Za-z0-9_?']")
OPC = set('+-*/%=&^<>|!?.:~')
def need_sep(a, b):
    x, y = a[-1], b[0]
    if IDC.match(x) and (IDC.match(y) or y == '!') and not (a[0] in '"\'' ): return True
    if a[0] == "'" and y == "'": return False
    if (x in OPC and not a[-1:] == '!' or a[-2:-1] and a[-1] in OPC and a[0] in OPC) and y in OPC: return True
    if a.endswith('!') and y in OPC: return False
    if x == '_' and IDC.match(y): return True
    if a[0].isdigit() and y == '.': return True
    if x == ']' and y == '#': return True
    return False

COMMENT_WORDS = ['x', 'fn main', '"', "'", '}', '{', ')', '\\', '1', ';', 'macro', '$', '@', '²', '"a" "b', 'let y = 3;', '= = =', '...', ']', '[', '#', "''"]
def block_comment(r, depth=0):
    parts = []
    for _ in range(r.randrange(3)):
        w = r.choice(COMMENT_WORDS)
        if w in ('#', '['): w = w + ' '
        parts.append(w)
        if depth < 2 and r.random() < .25: parts.append(block_comment(r, depth + 1))
        if r.random() < .3: parts.append('\n')
    s = '#[ ' + ' '.join(parts) + ' ]#'
    return s
def line_comment(r):
    return '# ' + ' '.join(r.choice(COMMENT_WORDS) for _ in range(r.randrange(4))) + '\n'
def layout(r, toks, noise=.1):
    """the tokens as text, with arbitrary blanks and comments between them"""
    out = []; prev = None
    for t in toks:
        if prev is not None:
            gap = ''
            if r.random() < noise:
                for _ in range(r.randrange(1, 3)):
                    gap += r.choice([' ', '  ', '\t', '\n', '\r\n', ' \n ', block_comment(r), line_comment(r)])
            elif prev in (';', '{', '}') and r.random() < .8: gap = '\n'
            elif need_sep(prev, t) or r.random() < .6: gap = ' '
            if not gap and need_sep(prev, t): gap = ' '
            if gap[:1] == '#' and prev[-1] == ']': gap = ' ' + gap
            out.append(gap)
        out.append(t); prev = t
    return ''.join(out) + r.choice(['', '\n', '\n', ' ', '# end'] if noise else ['\n'])

TOKEN = re.compile(r'''\s+|"(?:\\.|[^"\\])*"|'(?:\\.|[^\\])'|[A-Za-z_][A-Za-z0-9_?']*!?|[0-9][A-Za-z0-9_]*|[+\-*/%=&^<>|!?.:~]+|²|³|.''', re.S)
def tokens(text):
    """split the plain texts written in this file (not what the compiler reads)"""
    out = [m.group(0) for m in TOKEN.finditer(text) if not m.group(0).isspace()]
    res = []
    for t in out:
        res.append(t)
    return res

# ------------------------------------------------------------------ names
WORDS = ['x', 'y', 'z', 'a', 'b', 'n', 'k1', '_u', '__w', 'it\'s', 'ok?', 'Q', 'camelCase', 'SHOUT', 'i32x', 'iff', 'fnord', 'retval', 'truely', 'lets', 'loop1', 'else_', 'nil0', 'u', 'v', 'w', 'p\'', 'q\'\'', 'é'[:0] + 'e']
def fresh(r, used, pool=WORDS, long_=.03):
    for _ in range(60):
        v = r.choice(pool)
        if r.random() < .3: v += r.choice(['0', '1', '2', '_', 'x', "'", '?', '_a'])
        if r.random() < long_: v += r.choice('abcdef') * r.choice([31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300])
        if v not in used: used.add(v); return v
    v = 'v%d' % len(used); used.add(v); return v

def literal(r, hi=0x7fffffff):
    v = r.choice([r.randrange(10), r.randrange(100), r.randrange(hi + 1), hi, 0, 1, 255, 256])
    v = min(v, hi)
    k = r.randrange(10)
    def us(s):
        if r.random() < .3 and len(s) > 1:
            i = r.randrange(1, len(s)); s = s[:i] + r.choice(['_', '__']) + s[i:]
        if r.random() < .05: s += '_'
        return s
    if k == 0: return '0x' + us(r.choice(['%x', '%X', '0%x', '000%X']) % v)
    if k == 1: return '0b' + us(bin(v)[2:])
    if k == 2: return '0o' + us(oct(v)[2:])
    return us(r.choice(['', '', '', '0', '00']) + str(v))

STROPS = ['**', '+++', '<=>', '~~', '-->', '=>=', '!!', '??', '|>|', '.+', '::=', '%%', '^^', '<>', '><', '***', '<|', '-|', '=~', '&&&', '<<<', '+-', '?:', '..+', '|=|', '/-/', '~>', '<~', '=-', '-+-+-+-+-+-']
STROPS = [o for o in STROPS]

class E:
    """expressions and statements over i32; V variables in sight (token lists), F functions [(tokens, arity)]"""
    def __init__(s, r, **kw):
        s.r = r; s.V = []; s.W = []           # readable, writable
        s.F = []; s.ops = []; s.uops = []; s.enums = []; s.macros = []
        s.used = {'put', 'putb', 'put8', 'say', 'main', 'rt_write'}
        s.depth = 0; s.w = {'lit': 4, 'var': 5, 'call': 2, 'paren': 2, 'un': 2, 'pow': 1, 'chr': .5, 'enum': .5, 'tern': .7, 'orelse': .5, 'pipe': .7, 'post': 0, 'mac': 1, 'assign': 0, 'uop': .5}
        s.w.update(kw); s.inloop = 0
    def pick(s, opts):
        opts = [(k, s.w.get(k, 1)) for k in opts]
        t = s.r.random() * sum(w for _, w in opts)
        for k, w in opts:
            t -= w
            if t < 0: return k
        return opts[-1][0]
    def atom(s, d):
        r = s.r; o = ['lit']
        if s.V: o.append('var')
        if s.W: o += ['post']
        if d > 0:
            o += ['paren', 'un', 'tern', 'chr', 'orelse']
            if s.F: o += ['call', 'pipe']
            if s.enums: o.append('enum')
            if s.macros: o.append('mac')
            if s.uops: o.append('uop')
            if s.W: o.append('assign')
        k = s.pick(o)
        if k == 'lit': return [literal(r, r.choice([9, 99, 0x7fffffff]))]
        if k == 'var': return list(r.choice(s.V)) + (['²'] if r.random() < .07 else ['³'] if r.random() < .03 else [])
        if k == 'paren': return ['('] + s.flat(d - 1) + [')']
        if k == 'un': return [r.choice(['-', '-', '~'])] + (['('] + s.flat(d - 1) + [')'] if r.random() < .3 else s.atom(d - 1))
        if k == 'uop': return [r.choice(s.uops)] + s.atom(d - 1)
        if k == 'chr': return ['(', r.choice(["'a'", "'0'", "'~'", "' '", "'\\n'", "'\\t'", "'\\\\'", "'\\''", "'\"'", "'\\0'", "'\\r'", "'#'", "'\\a'", "'\\v'", "'\\f'", "'\\b'", "'\\\"'"]), ':', 'i32', ')']
        if k == 'enum': return ['('] + list(r.choice(s.enums)) + [':', 'i32', ')']
        if k == 'call':
            f, n = r.choice(s.F); a = []
            for i in range(n): a += ([','] if i else []) + s.flat(d - 1, 2)
            return list(f) + ['('] + a + [')']
        if k == 'pipe':
            out = ['('] + s.flat(d - 1)
            for _ in range(r.choice([1, 1, 2, 3])):
                f, n = r.choice(s.F); hole = r.randrange(n) if n else -1
                if n and r.random() < .5:             # the value is put in front of the arguments
                    a = [s.flat(d - 1, 1) for _ in range(n - 1)]; tail = []
                else:
                    a = [s.flat(d - 1, 1) for _ in range(n)]
                    if n: a[hole] = ['$'] + ([r.choice(['+', '*', '-', '&']), '$'] if r.random() < .2 else [])
                    tail = [r.choice(['+', '-', '^']), '$'] if r.random() < .3 or not n else []
                args = []
                for i, x in enumerate(a): args += ([','] if i else []) + x
                out += ['|>'] + list(f) + ['('] + args + [')'] + tail
            return out + [')']
        if k == 'mac': return s.macrocall(d - 1)
        if k == 'tern': return ['(', 'if'] + s.cond(d - 1) + ['=>'] + s.strong(d - 1) + ['else'] + s.flat(d - 1, 2) + [')']
        if k == 'orelse': return ['('] + s.strong(d - 1, 2) + ['else'] + s.strong(d - 1, 2) + (['else'] + s.atom(d - 1) if r.random() < .2 else []) + [')']
        if k == 'post': return ['('] + list(r.choice(s.W)) + [r.choice(['++', '--']), ')']
        if k == 'assign': return ['('] + list(r.choice(s.W)) + [r.choice(['=', '+=', '-=', '*=', '&=', '|=', '^='])] + s.flat(d - 1, 2) + [')']
    def macrocall(s, d):
        r = s.r; name, n = r.choice(s.macros)
        o, c = r.choice(['()', '()', '()', '[]', '{}'])
        if n == 0: return [name + '!'] + ([o, c] if r.random() < .6 else [])
        a = []
        for i in range(n): a += ([','] if i else []) + s.loose(d, 2)
        return [name + '!', o] + a + [c]
    def loose(s, d, n=None):
        """operators that do no harm however the text around them groups"""
        st, s.STRONG = s.STRONG, ['+', '-', '*']
        try: return s.flat(d, n, weak=False)
        finally: s.STRONG = st
    STRONG = ['+', '-', '*', '+', '-', '*', '<<', '>>', '/', '%']
    WEAK = ['|', '^', '&']
    def strong(s, d, n=None): return s.flat(d, n, weak=False)
    def flat(s, d, n=None, weak=True):
        """operands and operators in a row, every grouping has a value"""
        r = s.r; d = max(d, 0)
        out = s.atom(d)
        lim = 99                                     # the next operator must bind weaker than this
        ST = {'*': 15, '/': 15, '%': 16, '+': 14, '-': 14, '<<': 13, '>>': 13, '&': 10, '^': 9, '|': 8}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]) if n is None else r.randrange(n + 1)):
            o = r.choice(s.STRONG + (s.WEAK if weak else []))
            if weak and s.ops and r.random() < .12: o = r.choice(s.ops)
            elif weak and r.random() < .06 and any(k == 2 for _, k in s.F): o = '`'
            if ST.get(o, 0) >= lim: o = '+' if lim > 14 else '&' if weak else None
            if o is None: break
            if o == '`': out += ['`'] + list(r.choice([f for f, k in s.F if k == 2])) + ['`'] + s.atom(d - 1); lim = 99; continue
            out.append(o)
            if o in ('/', '%'): out.append(str(r.randrange(1, 20))); lim = 16 if o == '/' else 99
            elif o in ('<<', '>>'): out.append(str(r.randrange(0, 32))); lim = 13
            else:
                out += s.atom(d - 1)
                # a division still waiting for its right operand never arises: it was closed by the literal
                lim = 99
        return out
    def cond(s, d):
        r = s.r; d = max(d, 0)
        def one():
            k = r.random()
            if k < .08: return [r.choice(['true', 'false'])]
            if k < .2: return ['!', '('] + s.cond(d - 1) + [')']
            if k < .28 and d > 0: return ['('] + s.cond(d - 1) + [')']
            c = s.strong(d - 1, 2) + [r.choice(['<', '>', '<=', '>=', '==', '!='])] + s.strong(d - 1, 2)
            if k < .36: return c + [r.choice(['==', '!='])] + ['('] + s.cond(d - 1) + [')']
            return c
        out = one()
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])): out += [r.choice(['&&', '||'])] + one()
        return out
    # ------------------------------------------------ statements
    def save(s): return list(s.V), list(s.W), set(s.used)
    def restore(s, x): s.V, s.W, s.used = list(x[0]), list(x[1]), x[2]
    def show(s, d=2): return ['put', '('] + s.flat(d) + [')', ';']
    def local(s, d, w=True, name=None, init=None):
        r = s.r; init = init or s.flat(d)
        v = name or fresh(r, s.used)
        s.V.append([v])
        if w: s.W.append([v])
        return ['let', v] + ([':', 'i32'] if r.random() < .6 else []) + ['='] + init + [';'], v
    def block(s, d, n=3):
        x = s.save(); out = ['{']
        for _ in range(s.r.randrange(1, n + 1)): out += s.stmt(d)
        s.restore(x); return out + ['}']
    def body(s, d):
        if s.r.random() < .75: return s.block(d)
        return s.show(1)
    def stmt(s, d):
        r = s.r
        k = s.pick(['put'] * 3 + ['let'] * 2 + ['noop'] + (['set'] * 2 + ['incdec'] if s.W else []) + (['if', 'if', 'block', 'for', 'range', 'while', 'loop', 'match', 'putb', 'unless'] if d > 0 else []) + (['brk'] if s.inloop and d > 0 else []))
        if k == 'put': return s.show()
        if k == 'putb': return ['putb', '('] + s.cond(d) + [')', ';']
        if k == 'let': return s.local(2)[0]
        if k == 'noop': return ['noop', ';']
        if k == 'set':
            o = r.choice(['=', '=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='])
            e = [str(r.randrange(1, 31))] if o in ('<<=', '>>=', '/=', '%=') else s.flat(2)
            v = list(r.choice(s.W))
            return (['('] + v + [')'] if r.random() < .08 else v) + [o] + e + [';']
        if k == 'incdec': return list(r.choice(s.W)) + [r.choice(['++', '--']), ';']
        if k == 'if' or k == 'unless':
            return ['if'] + s.guarded(d) + s.body(d - 1) + (['else'] + (s.body(d - 1) if r.random() < .7 else s.stmt_if(d - 1)) if r.random() < .5 else [])
        if k == 'block': return s.block(d - 1)
        if k == 'brk': return ['if'] + s.guarded(d) + [r.choice(['break', 'continue']), ';']
        s.inloop += 1
        try:
            if k == 'range':
                a = r.randrange(3); return ['for', str(a), '..', str(a + r.randrange(4))] + s.body(d - 1)
            x = s.save()
            if k == 'for':
                init, v = s.local(1, w=False, init=['0'])
                n = str(r.randrange(1, 4)); step = r.choice([[v, '++'], [v, '+=', '1']])
                if r.random() < .6: out = ['for'] + init + [v, '<', n, ';'] + step + [';'] + s.body(d - 1)
                else:                                                                    # any part may be missing
                    q = [r.random() < .5 for _ in range(3)]
                    b = s.block(d - 1)[1:]
                    if not q[2]: b = step + [';'] + b
                    if not q[1]: b = ['if', v, '>=', n, 'break', ';'] + b
                    out = ['{'] + init + ['for'] + ([v, '=', '0'] if q[0] else []) + [';'] + ([v, '<', n] if q[1] else []) + [';'] + (step if q[2] else []) + [';', '{'] + b + ['}']
            elif k == 'while':
                init, v = s.local(1, w=False, init=[str(r.randrange(1, 4))])
                b = s.block(d - 1)
                out = ['{'] + init + ['while', v, '>', '0', '{', v, '--', ';'] + b[1:] + ['}']
            elif k == 'loop':
                init, v = s.local(1, w=False, init=[str(r.randrange(1, 4))])
                b = s.block(d - 1)
                out = ['{'] + init + ['loop', '{', 'if', v, '<=', '0', 'break', ';', v, '-=', '1', ';'] + b[1:] + ['}']
            elif k == 'match':
                s.inloop -= 1
                out = ['match'] + s.guarded(d, int_=True) + ['{']
                for _ in range(r.randrange(4)):
                    out += ([r.choice(['<', '>', '<=', '>='])] if r.random() < .4 else []) + [str(r.randrange(6))] + ['=>'] + s.body(d - 1)
                if r.random() < .6: out += ['_', '=>'] + s.body(d - 1)
                out += ['}']; s.inloop += 1
            s.restore(x); return out
        finally: s.inloop -= 1
    def guarded(s, d, int_=False):
        """a condition in front of a statement: in brackets, so that nothing of the statement joins it"""
        return ['('] + (s.strong(1, 1) if int_ else s.cond(d)) + [')']
    def stmt_if(s, d):
        return ['if'] + s.guarded(d) + s.body(d) + (['else'] + s.body(d) if s.r.random() < .6 else [])

def fun(e, name, n, op=None, d=1):
    """a pure function of n numbers: its tokens"""
    r = e.r; x = e.save(); e.V, e.W = [], []
    e.used = set(e.used); ps = [fresh(r, e.used) for _ in range(n)]
    e.V = [[p] for p in ps]
    head = (['operator', op] if op else ['fn', name]) + ['('] + sum([([','] if i else []) + [p, ':', 'i32'] for i, p in enumerate(ps)], []) + [')', ':', 'i32']
    k = r.random()
    if k < .4: out = head + ['='] + e.flat(d) + [';']
    else:
        out = head + ['{']
        if r.random() < .5: out += e.local(d)[0]
        if r.random() < .4: out += ['if'] + e.guarded(1) + ['ret'] + e.flat(d) + [';']
        out += [r.choice(['ret', 'ret', '<-'])] + e.flat(d) + [';', '}']
    e.restore(x); return out

def main_fn(e, n, d=2, pre=()):
    r = e.r; x = e.save()
    out = ['fn', 'main', '(', ')', ':', 'i32', '{'] + list(pre)
    for _ in range(n): out += e.stmt(d)
    out += [r.choice(['ret', 'ret', '<-'])] + [str(r.randrange(256))] + [';', '}']
    e.restore(x); return out

IMPORT = ['import', '"rt.csp"', ';']
def setup(e, nf=3, ng=2, ops=0, uops=0, enum=False):
    """global definitions"""
    r = e.r; out = []
    gl = []
    for _ in range(ng):
        v = fresh(r, e.used); gl.append(v)
        out.append(['let', v, ':', 'i32', '=', literal(r), ';'])
    if enum:
        v = fresh(r, e.used); ms = []; used = set(); t = ['type', v, ':', 'enum', '{']
        for i in range(r.randrange(1, 5)):
            m = fresh(r, used); ms.append(m); t += ([','] if i else []) + [m] + (['=', str(r.randrange(20 * i, 20 * i + 20))] + (r.choice([['+', '3'], ['*', '2', '+', '1'], ['|', '64'], ['-', '(', '1', '-', '2', ')']]) if r.random() < .3 else []) if r.random() < .4 else [])
        out.append(t + [',', '}', ';'] if r.random() < .3 else t + ['}', ';'])
        e.enums += [[v, '::', m] for m in ms]
    for _ in range(nf):
        f = fresh(r, e.used); n = r.choice([0, 1, 1, 2, 2, 3])
        out.append(fun(e, f, n)); e.F.append(([f], n))
    pool = [o for o in STROPS]; r.shuffle(pool)
    for _ in range(ops):
        o = pool.pop(); out.append(fun(e, None, 2, op=o)); e.ops.append(o)
    for _ in range(uops):
        o = pool.pop(); out.append(fun(e, None, 1, op=o)); e.uops.append(o)
    e.V += [[v] for v in gl]; e.W += [[v] for v in gl]
    if r.random() < .3: r.shuffle(out)
    return sum(out, [])

def grouping(seed, i):
    r = random.Random(f'grouping/{seed}/{i}')
    e = E(r)
    t = IMPORT + setup(e, 3, 1, ops=r.randrange(3), uops=r.randrange(2), enum=r.random() < .4)
    body = []
    for _ in range(5): body += e.local(0)[0]
    for _ in range(14): body += e.show(3) if r.random() < .75 else ['putb', '('] + e.cond(2) + [')', ';']
    t += ['fn', 'main', '(', ')', ':', 'i32', '{'] + body + ['ret', '0', ';', '}']
    return Text(f'grouping{seed}_{i}', {'prog.csp': layout(r, t, 0)})

def statements(seed, i):
    r = random.Random(f'statements/{seed}/{i}')
    e = E(r)
    t = IMPORT + setup(e, 2, 2, ops=r.randrange(2), enum=r.random() < .4) + main_fn(e, r.randrange(6, 14), 3)
    return Text(f'statements{seed}_{i}', {'prog.csp': layout(r, t, r.choice([0, .05, .2]))})

# ------------------------------------------------------------------ tokens
PRINTABLE = [chr(c) for c in range(32, 127)]
def strlit(r, n=None):
    """a string literal: any printable characters, escapes, other bytes"""
    out = ''
    for _ in range(r.choice([0, 1, 2, 5, 9, 20, 40, 70]) if n is None else n):
        k = r.random()
        if k < .15: out += '\\' + r.choice('abtvnrfe\'"\\')
        elif k < .2: out += '\\x%02x' % r.randrange(1, 256) if r.random() < .5 else '\\x%02X' % r.randrange(1, 256)
        elif k < .24: out += r.choice(['ä', '²', '€', '𝄞', 'ß'])
        elif k < .3: out += r.choice(['#', '#[', ']#', "'", '//', '%', '{', '}', ';', '$', '!', '%s', '  ', '?', '`'])
        else:
            c = r.choice(PRINTABLE); out += '\\' + c if c in '"\\' else c
    return '"' + out + '"'
def biglit(r):
    v = r.choice([0, 1, r.randrange(1 << r.randrange(1, 65)), (1 << r.randrange(1, 65)) - 1, 1 << r.randrange(64), 10 ** r.randrange(20)])
    f = r.randrange(4)
    s = ['%d', '%x', '', ''][f] % v if f < 2 else (bin(v) if f == 2 else oct(v))[2:]
    if f == 1: s = ''.join(r.choice([c.upper(), c]) for c in s)
    if r.random() < .3: s = '0' * r.randrange(1, 4) + s
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        i = r.randrange(1, len(s) + 1); s = s[:i] + r.choice(['_', '_', '__']) + s[i:]
    return ['', '0x', '0b', '0o'][f] + (r.choice(['', '', '_']) if f else '') + s
OPCH = '+-*/%=&^<>|!?.:~'
BUILTIN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '|>', '||', '&&', ':', '|', '^', '&', '==', '!=', '<', '>', '<=', '>=', '<<', '>>', '+', '-', '*', '/', '%', '++', '--', '.', '~', '!', '::', '..', '...', '<-', '=>', '->', '!=', '?', '&=', '^^'[:0] or '~='}
def customop(r, used):
    while True:
        o = ''.join(r.choice(OPCH) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6, 12])))
        if o in BUILTIN or o in used: continue
        used.add(o); return o

def lexical(seed, i):
    r = random.Random(f'lexical/{seed}/{i}')
    e = E(r); e.F = []
    out = IMPORT[:]; used = set()
    for _ in range(r.randrange(3)):
        o = customop(r, used)
        out += fun(e, None, 2, op=o); e.ops.append(o)
    for _ in range(r.randrange(2)):
        o = customop(r, used)
        out += fun(e, None, 1, op=o); e.uops.append(o)
    semi = lambda: r.choice([';'] * 9 + ['\u037e'])
    names = [fresh(r, e.used, long_=.3) for _ in range(r.randrange(1, 4))]
    for n in names: out += ['let', n, ':', 'i32', '=', literal(r), ';']; e.V.append([n])
    out += ['fn', 'main', '(', ')', ':', 'i32', '{']
    for _ in range(12):
        k = r.randrange(6)
        if k == 0: out += ['put8', '(', biglit(r), ':', 'u64', ')', semi()]
        elif k == 1: out += ['say', '('] + [strlit(r) for _ in range(r.choice([1, 1, 2, 3]))] + [')', semi()]
        elif k == 2:
            c = r.choice(PRINTABLE)
            if c in "'\\": c = '\\' + c
            if r.random() < .3: c = '\\' + r.choice('abtvnrf0\'"\\')
            out += ['put', '(', '(', "'" + c + "'", ':', 'i32', ')', ')', semi()]
        elif k == 3: out += ['put', '('] + e.flat(2) + [')', semi()]
        elif k == 4:
            n = fresh(r, e.used, long_=.3); out += ['let', n, '=', literal(r), semi()]; e.V.append([n])
        else: out += ['for', str(r.randrange(2)), '..', str(r.randrange(3))] + ['put', '('] + e.flat(1) + [')', semi()]
    out += [r.choice(['ret', '<-']), literal(r, 255), semi(), '}']
    return Text(f'lexical{seed}_{i}', {'prog.csp': layout(r, out, r.choice([0, .1, .3, .6]))})

# ------------------------------------------------------------------ macros
class M:
    """macro definitions by name and number of arguments"""
    def __init__(s, r, e): s.r = r; s.e = e; s.defs = []; s.known = set(); s.stmts = []; s.items = []
    def name(s, argc):
        for _ in range(50):
            n = s.r.choice([d[0] for d in s.defs]) if s.defs and s.r.random() < .3 else fresh(s.r, s.e.used)
            if (n, argc) not in s.known: s.known.add((n, argc)); return n
    def define(s, name, args, body):
        r = s.r
        return ['macro', name] + (['('] + sum([([','] if i else []) + [a] for i, a in enumerate(args)], []) + [')'] if args or r.random() < .3 else []) + ['{'] + body + ['}']
    def expr(s):
        """a macro that stands for (part of) an expression"""
        r, e = s.r, s.e
        n = r.choice([0, 1, 1, 2, 2, 3]); name = s.name(n)
        used = set(e.used); args = [fresh(r, used) for _ in range(n)]
        x = e.save(); w = e.w
        st, e.STRONG = e.STRONG, ['+', '-', '*']
        e.V = [[a] for a in args] * 2 + e.V; e.W = []
        body = ['('] + e.flat(2) + [')'] if r.random() < .4 else e.loose(r.choice([0, 1, 2]))
        e.restore(x); e.STRONG = st
        s.defs.append((name, n)); e.macros.append((name, n))
        return s.define(name, args, body)
    def stmt(s):
        """a macro that stands for statements"""
        r, e = s.r, s.e
        n = r.choice([0, 1, 2]); name = s.name(n); used = set(e.used); args = [fresh(r, used) for _ in range(n)]
        x = e.save(); e.V = [[a] for a in args] * 2 + e.V; e.W = []
        body = []
        for _ in range(r.choice([1, 2])): body += e.show(1) if r.random() < .7 else e.block(1, 2)
        e.restore(x); s.defs.append((name, n)); s.stmts.append((name, n))
        return s.define(name, args, body)
    def item(s):
        """a macro that defines functions with names put together from its argument"""
        r, e = s.r, s.e
        name = s.name(2); used = set(e.used); a, b = fresh(r, used), fresh(r, used)
        pre = fresh(r, e.used); post = r.choice(['__', '_x', '7', 'q'])
        shape = r.randrange(3)
        fname = [[pre, '@', a], [a, '@', post if not post[0].isdigit() else post], [pre, '@', a, '@', post]][shape]
        s.items.append((name, lambda v: [pre + v, v + post, pre + v + post][shape]))
        s.defs.append((name, 2))
        return s.define(name, [a, b], ['fn'] + fname + ['(', ')', ':', 'i32', '{', 'ret', '(', b, ')', ';', '}'])
    def call(s, name, argv):
        r = s.r; o, c = r.choice(['()', '()', '[]', '{}'])
        if not argv: return [name + '!'] + ([o, c] if r.random() < .6 else [])
        return [name + '!', o] + sum([([','] if i else []) + a for i, a in enumerate(argv)], []) + [c]

def macros(seed, i):
    r = random.Random(f'macros/{seed}/{i}')
    e = E(r, mac=6, tern=.3, pipe=.3, pow=0)
    m = M(r, e); out = [IMPORT[:]]
    for _ in range(2):
        v = fresh(r, e.used); e.V.append([v]); out.append(['let', v, ':', 'i32', '=', literal(r, 99), ';'])
    for _ in range(2):
        f = fresh(r, e.used); n = r.choice([1, 2]); ms, e.macros = e.macros, []
        out.append(fun(e, f, n)); e.macros = ms; e.F.append(([f], n))
    for _ in range(r.randrange(2, 6)): out.append(m.expr())
    for _ in range(r.randrange(3)): out.append(m.stmt())
    if r.random() < .6:
        out.append(m.item())
        name, f = m.items[0]
        for _ in range(r.randrange(1, 4)):
            v = fresh(r, e.used, ['aa', 'bb', 'cc', 'let', 'if', 'K', 'zz'] if False else ['aa', 'bb', 'cc', 'K', 'zz'], 0)
            out.append(m.call(name, [[v], e.loose(1)])); e.F.append(([f(v)], 0)); e.used.add(f(v))
    body = []
    for _ in range(10):
        k = r.random()
        if k < .2 and m.stmts:
            n, c = r.choice(m.stmts); body += m.call(n, [e.loose(1, 2) for _ in range(c)]) + r.choice([[], [], [';']][:2])
        elif k < .3: body += e.local(2)[0]
        elif k < .4: body += ['put', '(', '__line__!', ')', ';'] if r.random() < .7 else ['say', '(', r.choice(['__system__!', '__architecture__!']), ')', ';']
        else: body += e.show(2)
    fs = ['fn', 'main', '(', ')', ':', 'i32', '{'] + body + ['ret', '0', ';', '}']
    out.append(fs)
    rest = out[1:]
    if r.random() < .5: r.shuffle(rest)
    return Text(f'macros{seed}_{i}', {'prog.csp': layout(r, sum(out[:1] + rest, []), r.choice([0, 0, .1]))})

# ------------------------------------------------------------------ imports
def spell(r, here, there):
    """some spelling of the path from the file here to the file there"""
    hp = here.split('/')[:-1]; tp = there.split('/')
    n = 0
    while n < len(hp) and n < len(tp) - 1 and hp[n] == tp[n] and r.random() < .8: n += 1
    parts = ['..'] * (len(hp) - n) + tp[n:]
    out = []
    for q in parts:
        if r.random() < .12: out.append('.')
        out.append(q)
        if r.random() < .1 and q != '..' and q != tp[-1]: out += ['..', q]
    return '/'.join(out)
def imports(seed, i):
    """many files: every definition is there once, in all of them"""
    r = random.Random(f'imports/{seed}/{i}')
    e = E(r, mac=2)
    n = r.randrange(2, 7)
    dirs = ['', '', 'd/', 'd/e/', 'lib/', 'd/lib/']; base = ['a', 'b', 'c', 'util', 'x1', 'main']
    names = ['prog.csp']
    while len(names) < n:
        f = r.choice(dirs) + r.choice(base) + '.csp'
        if f not in names: names.append(f)
    parts = {f: [] for f in names}
    m = M(r, e)
    for f in names[1:] + names[:1]:                # one definition may use those made before it, in any file
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .25:
                v = fresh(r, e.used); parts[f].append(['let', v, ':', 'i32', '=', literal(r), ';']); e.V.append([v]); e.W.append([v])
            elif k < .5: parts[f].append(m.expr())
            else:
                v = fresh(r, e.used); c = r.choice([0, 1, 2]); parts[f].append(fun(e, v, c)); e.F.append(([v], c))
    # a graph in which every file is reached
    imp = {f: set() for f in names}
    for j in range(1, n): imp[names[r.randrange(j)]].add(names[j])
    for _ in range(r.randrange(2 * n)): imp[r.choice(names)].add(r.choice(names))
    parts[names[0]].append(main_fn(e, r.randrange(4, 9), 2))
    files = {}
    for f in names:
        its = list(parts[f])
        ims = [['import', '"' + spell(r, f, g) + '"', ';'] for g in sorted(imp[f])]
        for g in sorted(imp[f]):
            if r.random() < .2: ims.append(['import', '"' + spell(r, f, g) + '"', ';'])
        if f == names[0] or r.random() < .3: ims.append(['import', '"' + ('../' * f.count('/') if f == names[0] else '') + 'rt.csp"', ';'] if '/' not in f else ['import', '"' + '../' * f.count('/') + 'rt.csp"', ';'])
        r.shuffle(ims)
        for im in ims:
            if r.random() < .75: its.insert(0, im)
            else: its.insert(r.randrange(len(its) + 1), im)
        files[f] = layout(r, sum(its, []), r.choice([0, 0, .1]))
    return Text(f'imports{seed}_{i}', files)

# ------------------------------------------------------------------ names
SMALL = ['a', 'b', 'c', 'x', 'y', 'f', 'g', 'ab', 'abc', 'x_', 'y1']
def names(seed, i):
    """few names, in many places: which of them is meant"""
    r = random.Random(f'names/{seed}/{i}')
    ns = {(): {}}                                  # namespace path -> {name: kind}
    inits = {}
    def tree(path, d):
        for _ in range(r.choice([1, 2, 3])):
            v = r.choice(SMALL)
            if v in ns[path]: continue
            k = r.random()
            if k < .3 and d > 0: ns[path][v] = 'ns'; ns[path + (v,)] = {}; tree(path + (v,), d - 1)
            elif k < .6: ns[path][v] = 'var'
            elif k < .8: ns[path][v] = 'fn'
            elif k < .92: ns[path][v] = 'enum'
            else: ns[path][v] = 'type'
    tree((), 3); tree((), 3)
    def resolve(at, scopes, path):
        """only to choose names that mean something: the specification decides what"""
        first = path[0]
        for s in reversed(scopes):
            if first in s:
                if s[first] == 'var' : return 'var' if len(path) == 1 else None
                base = s[first]; break
        else:
            q = at
            while True:
                if first in ns[q]: base = q + (first,); break
                if not q: return None
                q = q[:-1]
        for i in range(1, len(path)):
            if base in ns and path[i] in ns[base]: base = base + (path[i],)
            elif i == len(path) - 1 and kind(base) == 'enum': return 'member' if path[i] in inits[base] else None
            else: return None
        return kind(base)
    def kind(p): return ns[p[:-1]].get(p[-1]) if p[:-1] in ns else None
    allp = [p + (v,) for p in ns for v in ns[p]]
    for p in allp:
        if kind(p) == 'enum': inits[p] = {m: r.randrange(200) for m in r.sample(SMALL, r.randrange(1, 5))}
    cands = allp + [p + (m,) for p in inits for m in inits[p]]
    def name(at, scopes, want):
        for _ in range(80):
            p = r.choice(cands) if cands else None
            if scopes and r.random() < .4:
                s = r.choice(scopes)
                if s: p = (r.choice(sorted(s)),)
            if p is None: return None
            g = r.random() < .15
            s = 0 if g else r.randrange(len(p))
            q = p[s:]
            k = resolve((), [], q) if g else resolve(at, scopes, q)
            if k == want: return (['::'] if g else []) + sum([(['::'] if j else []) + [w] for j, w in enumerate(q)], [])
        return None
    global_c = None
    def val(at, scopes):
        k = r.choice(['var', 'var', 'fn' if cands is global_c else 'var', 'member'])
        q = name(at, scopes, k)
        if q is None: return [str(r.randrange(100))]
        if k == 'fn': return q + ['(', ')']
        if k == 'member': return ['('] + q + [':', 'i32', ')']
        return q
    def ty(at, scopes):
        if r.random() < .5: return ['i32']
        return name(at, scopes, 'type') or ['i32']
    order = []                                      # functions call only functions that come earlier
    def stmts(at, scopes, d, n, avoid=()):
        out = []; sc = dict(); scopes = scopes + [sc]
        loc = [v for v in r.sample(SMALL, r.choice([0, 0, 1, 2])) if v not in avoid]
        for v in loc: sc[v] = 'var'
        for v in loc: out += ['let', v] + [':'] + ty(at, scopes) + ['=', str(r.randrange(1000)), ';']
        for _ in range(n):
            k = r.random()
            if k < .5: out += ['put', '('] + val(at, scopes) + ([r.choice(['+', '-', '^'])] + val(at, scopes) if r.random() < .3 else []) + [')', ';']
            elif k < .7 and d > 0: out += ['{'] + stmts(at, scopes, d - 1, r.randrange(1, 4)) + ['}']
            elif k < .8:
                q = name(at, scopes, 'var') if cands is global_c else None
                if q: out += q + ['=', str(r.randrange(1000)), ';']
            elif d > 0:
                q = name(at, scopes, 'ns')
                if q and q[0] != '::':
                    # what it is, through the generator's own eyes
                    p = tuple(w for w in q if w != '::')
                    b = full(at, scopes, p)
                    if b is None: continue
                    mem = {v: b + (v,) for v in ns[b]}
                    if r.random() < .5: out += ['using'] + q + ['for', '{'] + stmts(at, scopes + [mem], d - 1, r.randrange(1, 4)) + ['}']
                    elif not any(v in sc for v in mem) and mem:
                        out += ['using'] + q + [';']; sc.update(mem)
        return out
    def full(at, scopes, path):
        first = path[0]
        for s in reversed(scopes):
            if first in s:
                if s[first] == 'var': return None
                base = s[first]; break
        else:
            q = at
            while True:
                if first in ns[q]: base = q + (first,); break
                if not q: return None
                q = q[:-1]
        for w in path[1:]: base = base + (w,)
        return base if base in ns else None
    fnbody = {}
    saved = dict()
    # bodies first for the functions, with only the variables and members (and no functions) in sight
    global_c = list(cands)
    for p in [p for p in allp if kind(p) == 'fn']:
        cands = [c for c in global_c if kind(c) != 'fn']
        x = r.random()
        if x < .5: fnbody[p] = ['=', ] + val(p[:-1], []) + [';']
        else: fnbody[p] = ['{'] + (stmts(p[:-1], [{}], 1, r.randrange(3)) if x > .7 else []) + ['ret'] + val(p[:-1], [{}]) + [';', '}']
    cands = global_c
    def items(path):
        out = []
        for v, k in sorted(ns[path].items(), key=lambda _: r.random()):
            p = path + (v,)
            if k == 'ns':
                its = items(p)
                cut = r.randrange(len(its) + 1) if r.random() < .3 else len(its)
                out.append(['namespace', v, '{'] + sum(its[:cut], []) + ['}'])
                if cut < len(its): out.append(['namespace', v, '{'] + sum(its[cut:], []) + ['}'])
            elif k == 'var': out.append(['let', v, ':', 'i32', '=', str(r.randrange(10000)), ';'])
            elif k == 'fn': out.append(['fn', v, '(', ')', ':', 'i32'] + fnbody[p])
            elif k == 'enum': out.append(['type', v, ':', 'enum', '{'] + sum([([','] if j else []) + [m, '=', str(x)] for j, (m, x) in enumerate(inits[p].items())], []) + ['}', ';'])
            else: out.append(['type', v, ':', 'i32', ';'])
        r.shuffle(out)
        return out
    its = items(())
    body = stmts((), [], 3, r.randrange(5, 12))
    # a function of some namespace that looks at everything
    extra = ['fn', 'main', '(', ')', ':', 'i32', '{'] + body + ['ret', '0', ';', '}']
    return Text(f'names{seed}_{i}', {'prog.csp': layout(r, IMPORT + sum(its, []) + extra, 0)})

# ------------------------------------------------------------------ directives; what runs when
CFG = {'linux': 1, 'windows': 0, 'macos': 0, 'codegen_c': 0, 'codegen_asm': 1, 'codegen_llvm': 0, 'interpreted': 0}
ENVS = ['CSX', 'CSX_1', 'CSY', 'csz', 'C', '_C']
VALUES = ['', '1', '0', 'yes', 'no', 'a b', 'CSX', '!', '!x', 'ü', '1 ', '\t']
def starts(seed, i):
    """definitions that are there or not, functions before and after main, the arguments of main"""
    r = random.Random(f'starts/{seed}/{i}')
    env = {v: r.choice(VALUES) for v in r.sample(ENVS, r.randrange(4))}
    q = lambda v: '"' + v.replace('\t', '\\t') + '"'
    def condition(want):
        while True:
            k = r.random()
            if k < .6: n, neg = r.choice(sorted(CFG)), r.random() < .4; x, h = ['cfg', '(', q('!' * neg + n), ')'], bool(CFG[n]) != neg
            elif k < .75: n, neg = r.choice(ENVS), r.random() < .4; x, h = ['env_defined', '(', q('!' * neg + n), ')'], (n in env) != neg
            else:
                n = r.choice(ENVS); v = env.get(n, '') if r.random() < .5 else r.choice(VALUES); ne = r.random() < .4
                x, h = [['env_eq', 'env_ne'][ne], '(', q(n), ',', q(v), ')'], (env.get(n, '') == v) != ne
            if h == want: return x
    def brackets(ds):
        """in one pair of brackets or several"""
        if not ds: return []
        out = []; open_ = False
        for d in ds:
            if open_ and r.random() < .5: out += [','] + d
            else:
                if open_: out += ([','] if r.random() < .1 else []) + [']']
                out += ['['] + d; open_ = True
        return out + ([','] if r.random() < .1 else []) + [']']
    def directives(want, more=()):
        n = r.choice([1, 1, 2, 3]); hs = [True] * n
        if want is False:
            hs[r.randrange(n)] = False
            hs = [h and r.random() < .8 for h in hs]
        ds = [condition(h) for h in hs] if want is not None else []
        for m in more: ds.insert(r.randrange(len(ds) + 1), m)
        return brackets(ds)
    used = {'main', 'put', 'say', 'putb', 'put8', 'rt_write', 'argc', 'argv'} | set(CFG)
    uses = []                                       # expressions of type i32 that say what is there
    gl = []                                         # global variables, to be changed
    def value(d=1):
        k = r.random()
        if k < .4 or not uses: return [str(r.randrange(1000))]
        return list(r.choice(uses))
    def definition(kind, v, pre):
        n = str(r.randrange(10000))
        if kind == 'fn': return ['fn', v, '(', ')', ':', 'i32'] + r.choice([['=', n, ';'], ['{', 'ret', n, ';', '}']])
        if kind == 'let' or kind == 'const': return [kind, v, ':', 'i32', '=', n, ';']
        if kind == 'type': return ['type', v, ':', r.choice(['i32', 'i8', 'u8', 'i16', 'u16']), ';']
        if kind == 'enum': return ['type', v, ':', 'enum', '{', 'one', '=', str(r.randrange(30)), ',', 'two', '=', str(r.randrange(30)), '}', ';']
        if kind == 'ns': return ['namespace', v, '{', 'fn', 'in', '(', ')', ':', 'i32', '=', n, ';', '}']
    def using(kind, name):
        if kind == 'fn': return name + ['(', ')']
        if kind in ('let', 'const'): return name
        if kind == 'type': return ['(', '(', '70000', '-', str(r.randrange(3000)), ':'] + name + [')', ':', 'i32', ')']
        if kind == 'enum': return ['('] + name + ['::', r.choice(['one', 'two']), ':', 'i32', ')']
        if kind == 'ns': return name + ['::', 'in', '(', ')']
    bad = r.random() < .2
    def some(path, d):
        out = []
        for _ in range(r.randrange(1, 4 if path else 6)):
            v = fresh(r, used); name = sum([[p, '::'] for p in path], []) + [v]
            kind = r.choice(['fn', 'fn', 'let', 'const', 'type', 'enum', 'ns'])
            k = r.random()
            if k < .2 and d > 0:
                its = some(path + [v], d - 1); cut = r.randrange(len(its) + 1) if r.random() < .4 else len(its)
                for part in (its[:cut], its[cut:]) if cut < len(its) else (its,):
                    out.append((brackets([condition(True)]) if r.random() < .3 else []) + ['namespace', v, '{'] + sum(part, []) + ['}'])
                if r.random() < .3: out.append(directives(False) + ['namespace', v, '{'] + sum(some(path + [v], 0), []) + ['}'])
                continue
            if k < .3:                             # flags
                ms = [fresh(r, used) for _ in range(r.randrange(1, 5))]
                t = []
                for j, m in enumerate(ms): t += ([','] if j else []) + [m] + (['=', str(r.randrange(8 * j, 8 * j + 8) if not (bad and r.random() < .2) else r.choice([31, 32, 33, 40]))] if r.random() < .4 else [])
                out.append(directives(None, [['flag']]) + ['type', v, ':', 'enum', '{'] + t + ['}', ';'])
                uses.extend(['('] + name + ['::', m, ':', 'i32', ')'] for m in ms); continue
            there = 1 if not bad or r.random() < .7 else r.choice([0, 2])
            alts = [True] * there + [False] * r.choice([0, 1, 1, 2]); r.shuffle(alts)
            private = r.random() < .1 and path
            for a in alts:
                more = []
                if r.random() < .1: more.append(['deprecated'] + r.choice([[], ['(', ')'], ['(', q('2031-%02d-%02d' % (r.randrange(1, 13), r.randrange(1, 29))), ')']]))
                if kind == 'fn' and r.random() < .06: more.append(['export', '(', q('cs_export_%d' % r.randrange(10 ** 9)), ')'])
                if private and kind in ('fn', 'let', 'const'): more.append(['private'])
                if bad and r.random() < .1: more.append(r.choice([['cfg'], ['cfg', '(', ')'], ['cfg', '(', q('linuxx'), ')'], ['cfg', '(', q('linux'), ',', q('linux'), ')'], ['cfg', '(', '1', ')'], ['flag'],
                    ['before_main'], ['env_eq', '(', q('C'), ')'], ['deprecated', '(', q('2031-13-01'), ')'], ['deprecated', '(', q('2031-02-30'), ')'], ['unknown'], ['cfg', '(', q('!linuxx'), ')'], ['cfg', '(', q('Linux'), ')'], ['cfg', '(', q(''), ')'], ['cfg', '(', q('!'), ')'],
                    ['flag', '(', q('x'), ')'], ['private', '(', q('x'), ')'], ['before_main', '(', q('x'), ')'], ['env_ne'], ['export'], ['env_defined', '(', q('C'), ',', q('C'), ')']]))
                out.append((directives(a if len(alts) > 1 or r.random() < .5 else None, more) if True else []) + definition(kind, v, path))
            if (there or bad and r.random() < .3) and not private: uses.append(using(kind, name))
            if private and r.random() < .5 or private and bad:
                w = fresh(r, used); out.append(['fn', w, '(', ')', ':', 'i32', '='] + using(kind, [v]) + [';']); uses.append(sum([[p, '::'] for p in path], []) + [w, '(', ')'])
            if kind == 'let' and not private and there: gl.append(name)
        return out
    its = some([], 2)
    def say(): return ['put', '('] + value() + sum([[r.choice(['+', '-', '^'])] + value() for _ in range(r.randrange(2))], []) + [')', ';']
    def change():
        if not gl: return say()
        return list(r.choice(gl)) + [r.choice(['=', '+=', '-=', '^=']), str(r.randrange(1000)), ';']
    def body(n): return sum([say() if r.random() < .6 else change() for _ in range(n)], [])
    hooks = []
    for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
        v = fresh(r, used); which = r.choice(['before_main', 'after_main', 'after_main'])
        k = r.random()
        ps = [] if which == 'before_main' or k < .5 else ['code', ':', 'i32']
        if bad and r.random() < .15: ps = r.choice([['code', ':', 'i32', ',', 'more', ':', 'i32'], ['code', ':', 'u8'], ['code', ':', 'i32']])
        both = [['before_main'], ['after_main']] if r.random() < .08 and not ps else [[which]]
        f = directives(r.choice([None, None, None, True, False]), both) + ['fn', v, '(', *ps, ')'] + ([':', 'i32'] if r.random() < .15 else [])
        b = body(r.randrange(1, 3)) + (['put', '(', 'code', ')', ';'] if 'code' in ps else [])
        if ':' in f[f.index(v):] and f[-1] == 'i32' and f[-2] == ':' : b += ['ret', str(r.randrange(100)), ';']
        f += ['{'] + b + ['}']
        if r.random() < .3: f = ['namespace', fresh(r, used), '{'] + f + ['}']
        hooks.append(f)
        if r.random() < .2 and not ps: uses_fn = [v]
    for h in hooks: its.insert(r.randrange(len(its) + 1), h)
    args = [r.choice(['', 'a', 'abc', '-x', '--help', 'a b', '"', 'ü', '0', 'x' * 40, '\n', '%s', '\\n', '*']) for _ in range(r.choice([0, 0, 1, 2, 3, 6, 7]))]
    n = len(args) + 1
    mp = r.choice([[], [], ['argv', ':', '&', '&', 'char'], ['argc', ':', 'i32', ',', 'argv', ':', '&', '&', 'char'], ['argc', ':', 'i32', ',', 'argv', ':', '&', '&', 'char']])
    if bad and r.random() < .1: mp = mp + ([','] if mp else []) + ['x', ':', 'i32', ',', 'y', ':', 'i32', ',', 'z', ':', 'i32']
    m = []
    for _ in range(r.randrange(3, 7)): m += say() if r.random() < .8 else change()
    if 'argc' in mp:
        m += ['put', '(', 'argc', ')', ';']
        if r.random() < .5: m += ['for', 'let', 'i', '=', '0', ';', 'i', '<', 'argc', ';', 'i', '++', ';', '{', 'say', '(', 'argv', '[', 'i', ']', ')', ';', '}']
        if r.random() < .3: m += ['argc', '+=', '1', ';', 'put', '(', 'argc', ')', ';']
    if 'argv' in mp:
        for _ in range(r.randrange(3)): m += ['say', '(', 'argv', '[', str(r.randrange(n)), ']', ')', ';']
        if r.random() < .5: m += ['put8', '(', '(', 'argv', '[', str(n), ']', ':', 'u64', ')', ')', ';']
        if r.random() < .4: m += ['put', '(', '(', 'argv', '[', str(r.randrange(n)), ']', '[', '0', ']', ':', 'i32', ')', ')', ';']
    m += ['ret'] + r.choice([[str(r.randrange(256))], ['-', str(r.randrange(1, 300))], [str(r.randrange(256, 100000))], value()]) + [';']
    main = directives(r.choice([None] * 5 + [True])) + ['fn', 'main', '(', *mp, ')', ':', r.choice(['i32'] * 29 + (['u8', 'i64', 'bool'] if bad else [])), '{'] + m + ['}']
    its.insert(r.randrange(len(its) + 1), main)
    if r.random() < .2: its.insert(r.randrange(len(its) + 1), directives(False) + ['fn', 'main', '(', ')', ':', 'i32', '{', 'ret', '77', ';', '}'])
    return Text(f'starts{seed}_{i}', {'prog.csp': layout(r, IMPORT + sum(its, []), 0)}, args=args, env=env)

# ------------------------------------------------------------------ texts that are (mostly) no programs
LEX = re.compile(r'''#\[.*?\]#|#[^\n]*\n|\s+|"(?:\\.|[^"\\])*"|'(?:\\.|[^\\])'|[A-Za-z_][A-Za-z0-9_?']*!?|[0-9][A-Za-z0-9_]*|[+\-*/%=&^<>|!?.:~]+|²|³|.''', re.S)
BITS = [';', '(', ')', '{', '}', '[', ']', ',', ':', '=', '=>', '$', '@', '_', '`', '"', "'", '#[', ']#', '\\', '²', '1', 'x', 'nowhere', 'nowhere!', '"s"', "'c'", "''", '""', 'if', 'else', 'fn', 'let', 'ret', 'type', 'match', 'for',
        'while', 'loop', 'using', 'import', 'macro', 'namespace', 'operator', 'enum', 'const', 'break', '++', '|>', '::', '..', '...', '<-', '"\\q"', "'\\q'", '0x', '@']
def unit(ts, j):
    """the end of the balanced piece that begins at token j: up to the , or ; or } that ends it"""
    d = 0; k = j
    while k < len(ts):
        w = ts[k].strip()
        if w in ('(', '[', '{'): d += 1
        elif w in (')', ']', '}'):
            if d == 0: return k
            d -= 1
            if d == 0 and w == '}': return k + 1
        elif d == 0 and w in (';', ','): return k + 1
        k += 1
    return k

def mutant(seed, i, families=('grouping', 'statements', 'lexical', 'macros', 'imports', 'names')):
    r = random.Random(f'mutant/{seed}/{i}')
    t = globals()[families[i % len(families)]](seed, 5000 + i)
    f = r.choice(sorted(t.files)); ts = [m.group(0) for m in LEX.finditer(t.files[f].decode())]
    sig = [j for j, w in enumerate(ts) if w and not w.isspace() and w[0] != '#']
    for _ in range(r.choice([1, 1, 1, 2])):
        j = r.choice(sig); k = r.randrange(12)
        if k >= 9:                                                                       # a whole definition, statement, case, argument ... once more, elsewhere, or not at all
            starts = [q for q, p in zip(sig[1:], sig) if ts[p].strip() in (';', ',', '{', '}', '(')]
            if not starts: continue
            j = r.choice(starts); e = unit(ts, j)
            if e <= j: continue
            piece = ts[j:e]
            if k == 9: ts[j:j] = piece + [' ']
            elif k == 10: del ts[j:e]; q = r.randrange(len(ts)); ts[q:q] = [' '] + piece + [' '] if r.random() < .5 else []
            else: q = r.choice(starts); ts[q:q] = [' '] + piece + [' ']
            sig = [q for q, w in enumerate(ts) if w and not w.isspace() and w[0] != '#']
        elif k == 0: ts[j] = ''
        elif k == 1: ts[j] = ts[j] + ' ' + ts[j]
        elif k == 2: ts[j] = ' ' + r.choice(BITS) + ' '
        elif k == 3: ts[j] = ts[j] + ' ' + r.choice(BITS) + ' '
        elif k == 4: q = r.choice(sig); ts[j], ts[q] = ' ' + ts[q] + ' ', ' ' + ts[j] + ' '
        elif k == 5: ts[j] = ' ' + ts[r.choice(sig)] + ' '
        elif k == 6 and r.random() < .3: ts = ts[:j + 1]; sig = [q for q in sig if q <= j]
        elif ts[j][:1].isalpha(): ts[j] = r.choice(['nowhere', ts[j] + 'q', ts[j][:-1] or 'q'])
        elif ts[j][:1] == '"' and len(ts[j]) > 2: ts[j] = '"nowhere' + ts[j][1:]
        else: ts[j] = ''
    t.files[f] = ''.join(ts).encode(); t.mutant = True; t.pid = f'mutant{seed}_{i}_{t.pid}'
    return t

# ------------------------------------------------------------------ programs with one thing about them that may not be
KEYWORDS = set('alignof asm await break const continue defer do dynamic else enum extern false fn for if import interface len let loop macro match namespace nil noop operator ret sizeof struct true type typeof union unless using while with'.split())
BUILTIN_NAMES = {'put', 'putb', 'put8', 'say', 'main', 'i32', 'i64', 'bool', 'char', 'main', '_'}
S_BITS = '''break; | continue; | { break; } | if (N > 1) continue; | match 1 { _ => continue; } | match 1 { 1 => break; _ => noop; } | loop { break; } | while 1 > 2 { continue; } | for 0 .. 2 { if 1 > 2 continue; } | { loop { break; } break; }
 match 1 { _ => noop; 1 => noop; _ => noop; } | match 1 { _ => noop; _ => noop; } | match 1 { 1 => noop; 1 => noop; } | match 1 { 1 => noop; 2 => noop; _ => noop; _ => noop; } | match 1 { } | match 1 { 1 => match 2 { _ => noop; } _ => noop; } | match N { 1 => noop; N => noop; }
 Q(); | Q; | Q = 1; | Q++; | let N = Q; | put(Q); | put(Q + 1); | put(Q()); | put(-Q); | put(if 1 > 2 => 1 else Q); | put(1 |> Q()); | put(1 `Q` 2); | put(Q²); | (Q) = 1; | put((Q: i32)); | if (Q > 0) noop; | while 2 < Q noop; | for Q .. 2 noop; | for 0 .. Q noop; | ret Q; | match Q { _ => noop; } | match 1 { Q => noop; }
 N = 1; | N++; | N -= 1; | N(); | N(1); | N(1, 2, 3, 4, 5, 6, 7); | let N = 1; | let N: i32 = 1; | const N = 1; | let N2: N = 1; | put((1: N)); | put(N); | put(N()); | using N; | using N for noop; | put(N::N2()); | put(N::Q); | put(::N); | put(::Q); | N::N2 = 1; | using N::Q; | put(1 |> N()); | put(1 `N` 2); | put(1 |> N($, $)); | N!(); | N!(1); | N!(1, 2, 3, 4, 5, 6, 7); | (N: i32) = 3; | (1, N) = 3; | (1, N)++;
 let Q: Q = 1; | let Q = 1; let Q = 2; | let Q = 1; { let Q = 2; put(Q); } | { let Q = 1; } Q = 2; | { let Q = 1; } let Q = 2; put(Q); | const Q = 1; Q = 2; | const Q = 1; Q++; | const Q = 1; put(Q); | const Q: i32 = 1; { Q += 1; } | { const Q = 1; { let Q = 2; Q++; } } | { let Q = 1; { const Q = 2; Q = 3; } } | let Q = 1; let Q2 = Q; put(Q + Q2); | if (1 > 2) { let Q = 1; } else { put(Q); } | for let Q = 0; Q < 2; Q++; noop; | for let Q: i32 = 0; Q < 2; Q++; { let Q: i32 = 1; } put(Q); | while 1 > 2 { let Q = 1; let Q = 2; } | loop { let Q: i32 = 1; break; } put(Q);
 1; | 1 + 2; | 1++; | 1 = 2; | (1 + N)++; | (N + 1) = 2; | N() = 2; | N()++; | N² = 2; | -N = 2; | (if 1 > 2 => N else N) = 1; | put(1)++; | if (1 > 2) 1; | (1, 2); | if 1 > 2 => put(1) else put(2); | (if 1 > 2 => put(1) else put(2)); | (1, put(2)); | 1 |> put(); | "s"; | N + 1; | (N); | !N; | (N: i32); | put("s"++);
 put('\\\\q': i32); | say("\\\\q"); | say("\\\\x1"); | say("\\\\xzz"); | say("\\\\x1f\\\\\\\\"); | put(('\\\\x': i32)); | say("a" "\\\\q" "b"); | say("\\\\\\\\q"); | put($); | put(1 |> put($)); | put((1 |> $) + 1); | put(((1 |> $ + 1) + $)); | let Q: i32 = $; | say('ab'); | put((\'\': i32));
 put(); | put(1, 2); | say(); | put(put); | put(1)(); | put(1)(2); | 1(2); | Q!(); | Q!; | Q![1]; | put(Q!(1)); | noop!(); | noop; noop; | ; | {} | {;} | {{}} | put(1) | put(1);; | else noop; | if (1 > 2) else noop; | if noop; | if (1 > 2) noop; else noop; else noop; | unless (1 > 2) noop; | do noop; | while noop; | loop; | for 0 .. ; noop; | for ; ; ; break; | for let Q = 0; Q; | match { } | match 1; | match 1 { noop; } | match 1 { 1 noop; } | match 1 { 1 => } | fn Q(): i32 = 0; | type Q: i32; | namespace Q { } | import "rt.csp"; | macro Q { } | macro Q() { 1 } put(Q!()); | macro N() { 1 } | operator Q: fn (a: i32): i32 = a; | enum Q { A } | using; | using Q; | using Q for noop; | let = 1; | let Q; | let Q: i32; | let Q: i32 = ; | const Q; | ret; | ret 1, 2; | ret 0; put(1); | <- 0; | <- N; | <- Q; | let i32 = 1; | let Q: 1 = 1; | let Q: & = 1; | put((N, )); | put((, 1)); | put(((1)); | put(1)); | put[1]; | put{1};'''
T_BITS = '''fn N(): i32 = 0; | let N: i32 = 1; | const N: i32 = 1; | namespace N { } | namespace N { let Q: i32 = 1; } fn Q3(): i32 = N::Q; | type N: i32; | type N: enum { Q }; | type N: enum { N }; | fn N!(): i32 = 0; | macro N { 1 } | macro N() { 1 } | macro N() { 1 } macro N() { 2 } | macro Q(a) { a } macro Q(b) { b } | macro Q(a) { a } macro Q(b, c) { b c } | macro Q(a, a) { a } | macro Q(a) { a } macro Q { 1 } | import "rt.csp"; | import "nowhere.csp"; | using N; | using Q;
 type Q: enum { A, B, A }; | type Q: enum { A, B = 1, C = 1 }; | type Q: enum { A }; type Q: enum { B }; | type Q: enum { A }; type Q2: enum { A }; | type Q: enum { A }; let A: i32 = 1; | type Q: enum { A }; fn Q3(): i32 = (Q::A: i32); | type Q: enum { A }; fn Q3(): i32 = (Q::B: i32); | type Q: enum { A }; fn Q3(): i32 = (A: i32); | type Q: enum { A }; fn Q3(): i32 { Q::A = 1; ret 0; } | type Q: enum { A }; fn Q3(): i32 { Q::A++; ret 0; } | type Q: enum { }; | type Q: Q2; | type Q: N; | type Q: i32; type Q: i32; | type Q: i32; let Q: i32 = 1; | type Q: i32; fn Q(): i32 = 0; | type Q: i32; fn Q3(a: Q): Q = a; | type Q: i32; fn Q3(): i32 = Q; | type Q: i32; fn Q3(): i32 = Q(); | type Q: i32; namespace Q { }
 fn Q(a: i32, a: i32): i32 = a; | fn Q(a: i32, b: i32, a: i32): i32 = a; | fn Q(a: i32, b: i32): i32 = c; | fn Q(a: Q2): i32 = 0; | fn Q(a: i32): Q2 = a; | fn Q(a): i32 = 0; | fn Q(): i32 = 0; fn Q(): i32 = 1; | fn Q(): i32 = 0; fn Q(a: i32): i32 = 1; | fn Q(a: i32): i32 { let a: i32 = 1; ret a; } | fn Q(a: i32): i32 { { let a: i32 = 1; ret a; } ret a; } | fn Q(a: i32): i32 { a = 1; ret a; } | fn Q(a: i32): i32 { a(); ret a; } | fn Q(Q: i32): i32 = Q; | fn Q(a: i32): i32 = Q(a); | fn Q(a: i32): i32 = Q(); | fn Q(a: i32): i32 = Q(a, a); | fn Q(a: i32): i32 { Q = 1; ret a; } | fn Q(a: i32): i32 { Q++; ret a; } | fn Q(a: i32): i32 { ret Q3(a); } fn Q3(b: i32): i32 = a; | fn Q(): i32; | fn Q: i32 = 0; | fn (a: i32): i32 = a; | fn Q() i32 = 0; | fn Q(a: i32,): i32 = a; | fn Q(): i32 = 0 | fn Q(): i32 { | fn Q(): i32 { } } | fn Q(): i32 { ret 0; } ;
 namespace Q { let A: i32 = 1; let A: i32 = 2; } | namespace Q { let A: i32 = 1; } namespace Q { let A: i32 = 2; } | namespace Q { let A: i32 = 1; } namespace Q { let Q: i32 = 2; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 = A; | namespace Q { let A: i32 = 1; } fn Q3(): i32 = Q::A; | namespace Q { let A: i32 = 1; } fn Q3(): i32 = ::A; | namespace Q { let A: i32 = 1; } fn Q3(): i32 = Q::Q::A; | namespace Q { let A: i32 = 1; fn B(): i32 = A; } | namespace Q { let A: i32 = 1; namespace B { fn C(): i32 = A; } } | namespace Q { namespace B { let A: i32 = 1; } fn C(): i32 = A; } | namespace Q { namespace B { let A: i32 = 1; } fn C(): i32 = B::A; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 { using Q; ret A; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 { using Q; let A: i32 = 2; ret A; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 { let A: i32 = 2; using Q; ret A; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 { { using Q; } ret A; } | namespace Q { let A: i32 = 1; } namespace Q2 { let A: i32 = 2; } fn Q3(): i32 { using Q; using Q2; ret A; } | namespace Q { let A: i32 = 1; } namespace Q2 { let A: i32 = 2; } fn Q3(): i32 { using Q; { using Q2; put(A); } ret A; } | namespace Q { let A: i32 = 1; } fn Q3(): i32 { using Q for put(A); ret A; } | namespace Q { fn A(): i32 = 1; } fn Q3(): i32 = Q(); | namespace Q { } fn Q3(): i32 = Q; | namespace Q { } fn Q3(): Q = 1; | namespace Q { using Q; } | namespace Q | namespace { } | namespace Q { put(1); }
 let Q: i32 = Q2; | let Q: i32 = Q; | let Q: Q2 = 1; | let Q: Q = 1; | let Q = 1; | let Q: i32; | let Q: i32 = 1 | let Q: i32 = 1; let Q: i32 = 1; | let Q: i32 = 1; fn Q(): i32 = 1; | let Q: i32 = 1; fn Q2(): i32 = Q(); | let Q: i32 = 1; fn Q2(): i32 { Q = 2; ret Q; } | const Q: i32 = 1; fn Q2(): i32 { Q = 2; ret Q; } | const Q: i32 = 1; fn Q2(): i32 { Q++; ret Q; } | const Q: i32 = 1; fn Q2(): i32 { let Q: i32 = 2; Q++; ret Q; } | const Q: i32 = 1; fn Q2(Q: i32): i32 { Q++; ret Q; } | const Q: i32 = 1; fn Q2(): i32 { if (1 > 2) { (Q) -= 1; } ret Q; } | put(1); | noop; | ret 0; | ; | 1 | } | { } | "s" | Q | $ | let Q: i32 = $; | macro Q() { Q!() } fn Q2(): i32 = Q!(); | macro Q() { Q2!() } macro Q2() { Q!() } fn Q3(): i32 = Q!(); | macro Q(a) { a } fn Q2(): i32 = Q!(1, 2); | macro Q(a) { a } fn Q2(): i32 = Q!(); | macro Q(a) { a } fn Q2(): i32 = Q!(1); | macro Q(a) { b } fn Q2(): i32 = Q!(1); | macro Q(a) { a } fn Q2(): i32 = Q(1); | macro Q { 1 } fn Q2(): i32 = Q! + 1; | macro Q { 1 } fn Q2(): i32 = Q; | macro Q(a) { a | macro Q(a { a } | macro Q(1) { 1 } | macro { 1 } | operator Q: fn (a: i32): i32 = a; | operator +++ : fn (a: i32): i32 = a; fn Q(): i32 = +++ 1; | fn Q(): i32 = +++ 1; | fn Q(): i32 = 1 +++ 2;'''
def _bits(s): return [b.strip() for l in s.split('\n') for b in l.split(' | ') if b.strip()]
S_BITS, T_BITS = _bits(S_BITS.replace('\\\\', '\\')), _bits(T_BITS.replace('\\\\', '\\'))
UNTYPED = {'let Q: i32 = Q;', 'type Q: N;', 'fn Q(a: i32, b: i32): i32 = c;'} | {b for b in S_BITS if re.search(r'\bN2?\b|continue', b)} | {'loop;', 'ret;', 'put(put);', 'put(1 |> put($));', 'fn Q(): i32;', 'fn Q(a: i32): i32 { ret Q3(a); } fn Q3(b: i32): i32 = a;', 'macro Q(a) { b } fn Q2(): i32 = Q!(1);'}                            # whether it is accepted is a matter of types as well, or it does not end
def wrong(seed, i, families=('statements', 'names', 'grouping', 'macros', 'imports')):
    r = random.Random(f'wrong/{seed}/{i}')
    t = globals()[families[i % len(families)]](seed, 9000 + i)
    f = r.choice(sorted(t.files)); ts = [m.group(0) for m in LEX.finditer(t.files[f].decode())]
    names = sorted({w for w in ts if re.match(r"[A-Za-z_]", w) and not w.endswith('!') and w not in KEYWORDS and w not in BUILTIN_NAMES}) or ['main']
    pieces = [w[:-1] for w in ts if re.match(r"[A-Za-z_].*!$", w)]
    inside, outside = [], []; d = ns = 0; prev = ''; fn = False; stack = []
    for j, w in enumerate(ts):                                       # where a statement, where a definition may begin
        if not w or w.isspace() or w[0] == '#' and w != '#': continue
        if prev in (';', '{', '}'):
            if stack and stack[-1] == 'fn' and w != 'else' and not any(x == 'paren' for x in stack): inside.append(j)
            elif all(x == 'ns' for x in stack): outside.append(j)
        if w == '{':
            k = j - 1; back = []
            while k >= 0 and ts[k] not in (';', '{', '}'): back.append(ts[k]); k -= 1
            stack.append('fn' if stack and stack[-1] == 'fn' and 'match' not in back else 'ns' if 'namespace' in back else 'fn' if 'fn' in back else 'other')
            if stack[-1] == 'other' and '=>' in back and 'match' not in back: stack[-1] = 'fn'
        elif w in ('(', '['): stack.append('paren')
        elif w in (')', ']', '}') and stack: stack.pop()
        prev = w
    outside.append(len(ts))
    def inst(b):
        n = r.choice(names); n2 = r.choice(names); q = r.choice(['Qq', 'qqq', r.choice(names) + 'z', 'z_' + r.choice(names)])
        if pieces and '!' in b and r.random() < .7: n = r.choice(pieces)
        m = {'N': n, 'N2': n2, 'Q': q, 'Q2': q + '2', 'Q3': q + '3', 'A': 'A_' + q, 'B': 'B_' + q, 'C': 'C_' + q}
        return re.sub(r"(?<![A-Za-z0-9_'\\])(N2|N|Q2|Q3|Q|A|B|C)(?![A-Za-z0-9_'])", lambda x: m[x.group(1)], b)
    if inside and r.random() < .6: at, b = r.choice(inside), r.choice(S_BITS)
    else: at, b = r.choice(outside), r.choice(T_BITS)
    ts[at:at] = [' ' + inst(b) + ' ']
    if os.environ.get('SHOWBIT'): print(i, b, '->', ts[at])
    t.files[f] = ''.join(ts).encode(); t.mutant = b in UNTYPED or 'starts' in families and ('$' in b or b in S_BITS)          # (a definition that is taken away is only read)
    t.pid = f'wrong{seed}_{i}_{t.pid}'
    return t
