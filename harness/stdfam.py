"""Operation scripts for the standard library parts (inputs only; the TLA+ modules say what must come out)."""
import itertools, random
from stdlib import Driver, NIL

# ------------------------------------------------------------------ vec
def vec_driver(t):
    ct = {'pair': 'Pair', 'big': 'Big'}.get(t, t)
    decl = {'pair': 'type Pair: struct { x: i32, y: u8 };\nfn mk(v: i64): Pair { <- Pair::{v, v & 63}; }\nfn un(p: Pair): i64 { if (p.y: i64) != ((p.x: i64) & 63) { <- -999999; } <- p.x; }\n',
            'big': 'type Big: struct { x: i64, y: i64, z: i64 };\nfn mk(v: i64): Big { <- Big::{v, v * 3, v + 7}; }\nfn un(p: Big): i64 { if p.y != p.x * 3 || p.z != p.x + 7 { <- -999999; } <- p.x; }\n',
            }.get(t, f'fn mk(v: i64): {t} {{ <- (v: {t}); }}\nfn un(p: {t}): i64 {{ <- (p: i64); }}\n')
    decl += f'type PV: &{ct};\nlet vs: PV \'c[3];\n'
    V = 'let v = vs[a0];'
    ops = {
     'new': ('i', 'i', f'vs[a0] = vec!{{{ct}}}; wr(0);'),
     'newsized': ('ii', 'i', f'vs[a0] = vec!{{{ct}, a1}}; wr(0);'),
     'push': ('ii', 'i', 'vec_push!{vs[a0], mk(a1)}; wr(0);'),
     'add': ('ii', 'i', 'vec_add!{vs[a0], mk(a1)}; wr(0);'),
     'pushn': ('iii', 'i', 'for let i: i64 = 0; i < a1; i++; { vec_push!{vs[a0], mk(a2 + i)}; } wr(0);'),
     'pop': ('i', 'i', V + ' if vec_size!(v) == 0 { wr(0); } else { let x = vec_pop!(v); wr(un(x)); }'),
     'drop': ('i', 'i', 'std::vec::pop(vs[a0]); wr(0);'),
     'last': ('i', 'i', V + ' let x = vec_last!(v); wr(un(x));'),
     'lastn': ('ii', 'i', V + ' let x = vec_last!(v, a1); wr(un(x));'),
     'get': ('ii', 'i', V + ' wr(un(v[a1]));'),
     'set': ('iii', 'i', V + ' v[a1] = mk(a2); wr(0);'),
     'insert': ('iii', 'i', 'vec_insert!{vs[a0], a1, mk(a2)}; wr(0);'),
     'erase': ('iii', 'i', V + ' vec_erase!(v, a1, a2); wr(0);'),
     'remove': ('ii', 'i', V + ' vec_remove!(v, a1); wr(0);'),
     'size': ('i', 'i', V + ' wr(vec_size!(v));'),
     'sum': ('i', 'i', V + ' let s: i64 = 0; vec_foreach!{v, i, x, s = s + (i + 1) * ((((un(x) % 1000) + 1000) % 1000): i64)}; wr(s);'),
     'copy': ('ii', 'i', V + ' vs[a1] = vec_copy!(v); wr(0);'),
     'free': ('i', 'i', V + ' vec_free!(v); wr(0);'),
     'all': ('i', 'L', V + ' let n: i64 = vec_size!(v); wr(n); for let i: i64 = 0; i < n; i++; { wr(un(v[i])); }'),
    }
    return Driver('vec_' + t, 'Vec', ops, ['vec.csp'], decl)

def vec_scripts(rng, n, t):
    top = {'u8': 255, 'pair': 2**31-1, 'i32': 2**31-1, 'i64': 2**31-1, 'big': 10**8}[t]
    val = lambda: rng.choice([0, 1, top, rng.randint(0, top)]) if t in ('u8',) else rng.choice([0, 1, -1, top, -top, rng.randint(-top, top)])
    out = {}
    for c in range(n):
        st = [None] * 3; sc = []
        big = rng.random() < .3
        for _ in range(rng.randint(5, 60)):
            k = rng.randrange(3)
            if st[k] is None:
                if rng.random() < .7: sc.append(('new', k))
                else: sc.append(('newsized', k, rng.choice([1, 2, 3, 8, 64, 700])))
                st[k] = 0; continue
            m = st[k]
            ch = ['push'] * 5 + ['add', 'insert', 'insert', 'pop', 'size', 'sum', 'all', 'copy', 'pushn'] + (['drop', 'last', 'lastn', 'get', 'get', 'set', 'set', 'erase', 'remove'] if m else []) + (['free'] if rng.random() < .2 else [])
            o = rng.choice(ch)
            if o in ('push', 'add'): sc.append((o, k, val())); st[k] += 1
            elif o == 'pushn':
                q = rng.choice([1, 7, 63, 64, 65, 600]) if big else rng.randint(1, 70)
                if m + q > 1500: continue
                sc.append((o, k, q, rng.randint(0, max(0, min(top, 10**8) - q)) if t != 'u8' else rng.randint(0, 255 - min(q, 255)))) if not (t == 'u8' and q > 200) else sc.append((o, k, 10, 3)) 
                st[k] += sc[-1][2]
            elif o == 'insert': sc.append((o, k, rng.choice([0, m, rng.randint(0, m)]), val())); st[k] += 1
            elif o == 'pop': sc.append((o, k)); st[k] = max(0, m - 1)
            elif o == 'drop': sc.append((o, k)); st[k] -= 1
            elif o in ('size', 'sum', 'all', 'last'): sc.append((o, k))
            elif o == 'lastn': sc.append((o, k, rng.randrange(m)))
            elif o == 'get': sc.append((o, k, rng.randrange(m)))
            elif o == 'set': sc.append((o, k, rng.randrange(m), val()))
            elif o == 'erase':
                p = rng.randrange(m); q = rng.randint(0, m - p); sc.append((o, k, p, q)); st[k] -= q
            elif o == 'remove': sc.append((o, k, rng.randrange(m))); st[k] -= 1
            elif o == 'copy':
                f = [j for j in range(3) if st[j] is None]
                if f: j = rng.choice(f); sc.append((o, k, j)); st[j] = m
            elif o == 'free': sc.append((o, k)); st[k] = None
        for k in range(3):
            if st[k] is not None: sc.append(('all', k))
        out[f'{t}_{c}'] = sc
    # every pair of an operation at a capacity boundary followed by a check
    for c, (m, o) in enumerate(itertools.product([0, 1, 63, 64, 65, 639, 640, 641], ['push', 'insert0', 'insertend', 'copypush', 'erase', 'pop'])):
        lo = 1
        sc = [('new', 0)]
        left = m
        while left: q = min(left, 200); sc.append(('pushn', 0, q, lo)); left -= q
        if o == 'push': sc += [('push', 0, 9), ('push', 0, 8)]
        if o == 'insert0': sc += [('insert', 0, 0, 9), ('insert', 0, 0, 8)]
        if o == 'insertend': sc += [('insert', 0, m, 9), ('insert', 0, m + 1, 8)]
        if o == 'copypush': sc += [('copy', 0, 1), ('push', 1, 9), ('push', 0, 7), ('pushn', 1, 100, 1), ('all', 1)]
        if o == 'erase': sc += [('erase', 0, 0, m), ('push', 0, 3)]
        if o == 'pop': sc += [('pop', 0)]
        out[f'{t}_cap_{m}_{o}'] = sc + [('all', 0), ('size', 0), ('sum', 0)]
    return out

# ------------------------------------------------------------------ memory and arenas
def mem_driver():
    decl = '''type PM: &u8;
let hp: PM 'c[8];
let hn: i64 'c[8];
let ap: PM 'c[400];
let an: i64 'c[400];
let ac: i64 'c[2];
let ar: std::Arena 'c[2];
fn nn(p: &void): i64 { <- if p == nil => 0 else 1; }
'''
    H = lambda a, o: f'(hp[{a}] + ({o}: u64))'
    ops = {
     'alloc': ('ii', 'i', 'hp[a0] = std::memory::alloc(a1); hn[a0] = a1; wr(nn(hp[a0]));'),
     'calloc': ('iii', 'i', 'hp[a0] = std::memory::calloc(a1, a2); hn[a0] = a1 * a2; wr(nn(hp[a0]));'),
     'toobig': ('i', 'i', 'wr(nn(std::memory::alloc((-1): u64 - (a0: u64))));'),
     'realloc': ('ii', 'i', 'hp[a0] = std::memory::realloc(hp[a0], a1); hn[a0] = a1; wr(nn(hp[a0]));'),
     'free': ('i', 'i', 'std::memory::free(hp[a0]); wr(1);'),
     'set': ('iiii', 'i', f'std::memory::set({H("a0","a1")}, a2, a3); wr(1);'),
     'zero': ('iii', 'i', f'std::memory::zero({H("a0","a1")}, a2); wr(1);'),
     'put': ('iis', 'i', f'for let i: u64 = 0; i < n2; i++; {{ hp[a0][(a1: u64) + i] = a2[i]; }} wr(1);'),
     'copy': ('iiiii', 'i', f'wr(std::memory::copy({H("a0","a1")}, {H("a2","a3")}, a4));'),
     'move': ('iiiii', 'i', f'let d = std::memory::move({H("a0","a1")}, {H("a2","a3")}, a4); wr(if d == {H("a0","a1")} => 1 else 0);'),
     'eq': ('iiiii', 'i', f'wr(if std::memory::eq({H("a0","a1")}, {H("a2","a3")}, a4) => 1 else 0);'),
     'iszero': ('iii', 'i', f'wr(if std::memory::is_zero({H("a0","a1")}, a2) => 1 else 0);'),
     'overlap': ('iiiii', 'i', f'wr(if std::memory::ptr_overlap({H("a0","a1")}, {H("a2","a3")}, a4) => 1 else 0);'),
     'read': ('i', 's', 'wb(hp[a0], hn[a0]);'),
     'aalloc': ('ii', 'i', 'let p: &u8 = std::arena::alloc(&ar[a0], a1); let k = a0 * 200 + ac[a0]; ap[k] = p; an[k] = a1; ac[a0] = ac[a0] + 1; if (p: u64) % 8 != 0 { wr(2); } else { wr(nn(p)); }'),
     'aput': ('iiis', 'i', 'for let i: u64 = 0; i < n3; i++; { ap[a0 * 200 + a1][(a2: u64) + i] = a3[i]; } wr(1);'),
     'afill': ('iii', 'i', 'let k = a0 * 200 + a1; for let i: i64 = 0; i < an[k]; i++; { ap[k][i] = a2; } wr(1);'),
     'aread': ('ii', 's', 'wb(ap[a0 * 200 + a1], an[a0 * 200 + a1]);'),
     'asum': ('i', 'L', 'wr(ac[a0]); for let j: i64 = 0; j < ac[a0]; j++; { let k = a0 * 200 + j; let v: i64 = -1; for let i: i64 = 0; i < an[k]; i++; { let b = ap[k][i]: i64; if i == 0 { v = b; } else { if b != v { v = -5; } } } wr(v); }'),
     'areset': ('i', 'i', 'std::arena::reset(&ar[a0]); ac[a0] = 0; wr(1);'),
     'afree': ('i', 'i', 'std::arena::free(&ar[a0]); ac[a0] = 0; wr(1);'),
    }
    setup = 'ar[0] = std::Arena::{std::ArenaBackend::MMAP, nil, nil}; ar[1] = std::Arena::{std::ArenaBackend::LIBC_MALLOC, nil, nil};'
    return Driver('memory', 'Mem', ops, ['memory.csp', 'arena.csp'], decl, setup)

def mem_scripts(rng, n):
    out = {}
    bs = lambda k: bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(k))
    for c in range(n):
        sz = [None] * 8; sc = []
        for _ in range(rng.randint(20, 70)):
            k = rng.randrange(8)
            if sz[k] is None:
                m = rng.choice([0, 1, 2, 7, 8, 9, 16, 17, 31, 40, rng.randint(1, 120)])
                if rng.random() < .3:
                    q = rng.choice([1, 2, 3, 5]); sc.append(('calloc', k, m // q, q)); sz[k] = m // q * q
                else: sc.append(('alloc', k, m)); sz[k] = m
                continue
            m = sz[k]
            o = rng.choice(['put'] * 4 + ['realloc', 'realloc', 'free', 'set', 'zero', 'copy', 'copy', 'move', 'move', 'eq', 'eq', 'iszero', 'overlap', 'read', 'read'])
            off = rng.randint(0, m); q = rng.randint(0, m - off)
            j = rng.choice([x for x in range(8) if sz[x] is not None] + [k, k])
            if o == 'put': sc.append((o, k, off, bs(q)))
            elif o == 'realloc': m2 = rng.choice([0, 1, m, m + 1, max(0, m - 1), 2 * m, m // 2, rng.choice([4090, 9000]) if rng.random() < .1 else m + 3]); sc.append((o, k, m2)); sz[k] = m2
            elif o == 'free': sc.append((o, k)); sz[k] = None
            elif o == 'set': sc.append((o, k, off, rng.choice([0, 255, -1, 256 + 7, 65, 128]), q))
            elif o == 'zero': sc.append((o, k, off, q))
            elif o == 'iszero': sc.append((o, k, off, q))
            elif o == 'read': sc.append((o, k))
            else:
                q = min(q, sz[j]); off2 = rng.randint(0, sz[j] - q)
                if o == 'overlap' and q == 0: continue
                if o == 'eq' and rng.random() < .5 and q:
                    sc.append(('copy', k, off, j, off2, q) if k != j else ('zero', k, off, q))
                    if rng.random() < .5: sc.append(('put', k, off + rng.choice([0, q - 1, rng.randrange(q)]), bs(1)))
                sc.append((o, k, off, j, off2, q))
        for k in range(8):
            if sz[k] is not None: sc.append(('read', k))
        out[f'mem_{c}'] = sc + [('toobig', rng.choice([0, 1, 4096]))]
    for c in range(n):      # arenas
        sc = []; bl = [[], []]
        for _ in range(rng.randint(10, 60)):
            a = rng.randrange(2)
            o = rng.choice(['aalloc'] * 5 + ['afill'] * 3 + ['asum', 'aput', 'aread', 'aread', 'areset', 'afree'])
            if o == 'aalloc':
                if len(bl[a]) >= 60: continue
                big = rng.random() < .15
                m = rng.choice([8096 * 8, 8096 * 8 + 1, 8096 * 8 - 8, 40000, 70000]) if big else rng.choice([0, 1, 7, 8, 9, 15, 16, 24, rng.randint(1, 90)])
                sc.append((o, a, m)); bl[a].append(m)
                if big: sc.append(('afill', a, len(bl[a]) - 1, rng.randrange(256)))
            elif o in ('areset', 'afree'):
                if rng.random() < .5: sc.append((o, a)); bl[a] = []
            elif o == 'asum':
                # settle every block first
                for i, m in enumerate(bl[a]): sc.append(('afill', a, i, rng.randrange(256)))
                sc.append((o, a))
            elif bl[a]:
                i = rng.randrange(len(bl[a]))
                if o == 'afill': sc.append((o, a, i, rng.randrange(256)))
                elif bl[a][i] < 1000:
                    if o == 'aread': sc.append((o, a, i))
                    elif bl[a][i]: off = rng.randint(0, bl[a][i] - 1); sc.append((o, a, i, off, bs(rng.randint(1, bl[a][i] - off))))
        for a in range(2):
            for i, m in enumerate(bl[a]): sc.append(('afill', a, i, (7 * i + a) % 256))
            sc.append(('asum', a))
        out[f'arena_{c}'] = sc
    return out

# ------------------------------------------------------------------ hashmap
def map_driver(kt, vt):
    """kt, vt: CSpydr types; '&char' keys/values are strings"""
    ks, vs = kt == '&char', vt == '&char'
    decl = f'type K: {kt};\ntype W: {vt};\ntype HS: hashmap!{{{kt}, {vt}}};\ntype HM: &HS;\n'
    decl += 'let m0: HS; let m1: HS;\n'
    if ks: decl += 'fn rk(): &char { <- rs(); }\nfn wk(k: &char) { ws(k); }\n'
    else: decl += f'fn rk(): {kt} {{ <- (rd(): {kt}); }}\nfn wk(k: {kt}) {{ wr(k: i64); }}\n'
    if vs: decl += 'fn rv(): &char { <- rs(); }\nfn wv(k: &char) { ws(k); }\n'
    else: decl += f'fn rv(): {vt} {{ <- (rd(): {vt}); }}\nfn wv(k: {vt}) {{ wr(k: i64); }}\n'
    kf, vf = ('s' if ks else 'i'), ('s' if vs else 'i')
    K = f'(a1: {kt})' if not ks else 'a1'
    W = f'(a2: {vt})' if not vs else 'a2'
    M = 'let m: HM = if a0 == 0 => &m0 else &m1;'
    ops = {
     'new': ('i', 'i', M + ' hashmap_init!{m}; wr(0);'),
     'put': ('i' + kf + vf, 'i', M + f' hashmap_put!{{m, {K}, {W}}}; wr(0);'),
     'get': ('i' + kf, vf, M + f' let v = hashmap_get!{{m, {K}}}; wv(v);'),
     'size': ('i', 'i', M + ' wr(m.data.size);'),
     'list': ('i', 'LL', M + ' let k = hashmap_keys!{m}; let v = hashmap_values!{m}; wr(vec_size!{k}); vec_foreach!{k, i, x, wk(x)}; wr(vec_size!{v}); vec_foreach!{v, i, x, wv(x)};'),
     'free': ('i', 'i', M + ' hashmap_free!{m}; wr(0);'),
    }
    if not ks and not vs:
        ops['putn'] = ('iiii', 'i', M + f' for let i: i64 = a1; i < a1 + a2; i++; {{ hashmap_put!{{m, (i: {kt}), (i * a3: {vt})}}; }} wr(0);')
        ops['getn'] = ('iii', 'L', M + f' wr(a2); for let i: i64 = a1; i < a1 + a2; i++; {{ let v = hashmap_get!{{m, (i: {kt})}}; wv(v); }}')
    if ks or vs: ops['list'] = ('i', ('S' if ks else 'L') + ('S' if vs else 'L'), ops['list'][2])
    nm = lambda t: 's' if t == '&char' else t
    return Driver(f'map_{nm(kt)}_{nm(vt)}', 'Hashmap', ops, ['hashmap.csp'], decl)

def map_scripts(rng, n, kt, vt):
    ks, vs = kt == '&char', vt == '&char'
    lim = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767}
    kl, vl = lim.get(kt, 10**9), lim.get(vt, 10**9)
    def words(k): return [bytes(rng.choice(b'abcxyz019_ ') for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 30]))) for _ in range(k)]
    def key(pool):
        return rng.choice(pool)
    def val():
        if vs: return words(1)[0]
        return rng.choice([0, 1, vl, rng.randint(0, vl)] + ([-1, -vl] if vt[0] == 'i' else []))
    out = {}
    for c in range(n):
        if ks: pool = list(dict.fromkeys(words(rng.choice([5, 12, 40, 90]))))
        else:
            pool = [0, 1, 2, kl] + [rng.randint(1, kl) for _ in range(rng.choice([3, 12, 40, 90]))] + [rng.randint(1, 40) for _ in range(10)]
            if kt[0] == 'i': pool += [-1, -kl] + [-rng.randint(1, kl) for _ in range(4)]
            pool += [min(kl, 32 * i + 7) for i in range(1, 6)]
        live = [False] * 2; sc = []
        for _ in range(rng.randint(20, 150)):
            j = 0 if rng.random() < .7 else 1
            if not live[j]: sc.append(('new', j)); live[j] = True; continue
            o = rng.choice(['put'] * 8 + ['get'] * 6 + ['size', 'list', 'bulk'] + (['free'] if rng.random() < .2 else []))
            if o == 'put': sc.append((o, j, key(pool), val()))
            elif o == 'get': sc.append((o, j, key(pool) if rng.random() < .8 else (words(1)[0] if ks else rng.randint(1, kl))))
            elif o in ('size', 'list'): sc.append((o, j))
            elif o == 'free': sc.append((o, j)); live[j] = False
            elif o == 'bulk' and not ks and not vs:
                q = rng.choice([3, 31, 32, 33, 64, 70]); lo = rng.randint(1, kl - q); f = rng.choice([1, 1, 2]) if vl > 10**8 and kl < 10**8 else (0 if vl < kl else 1)
                if kt in ('i32', 'i64', 'u32', 'u64') and vt in ('i32', 'i64', 'u32', 'u64'): f = 1
                if f * (lo + q) > vl: f = 0
                sc.append(('putn', j, lo, q, f)); sc.append(("getn", j, lo - 1, q + 1))
        for j in range(2):
            if live[j]: sc += [('get', j, k) for k in (pool if len(pool) < 50 else pool[:50])] + [('list', j), ('size', j)]
        out[f'{c}'] = sc
    return out

# ------------------------------------------------------------------ strings
def str_driver():
    decl = '''type PS: &char;
let ss: PS 'c[3];
fn show(k: i64) { ws(ss[k]); wr(std::string::size(ss[k])); }
fn bw(b: bool) { wr(if b => 1 else 0); }
'''
    ops = {
     'new': ('i', 'si', 'ss[a0] = str!{}; show(a0);'),
     'init': ('is', 'si', 'ss[a0] = str!{a1}; libc::free(a1); show(a0);'),
     'filled': ('iii', 'si', 'ss[a0] = std::string::init_sized_with(a1, a2); show(a0);'),
     'copy': ('ii', 'si', 'ss[a0] = std::string::copy(ss[a1]); show(a0);'),
     'concat': ('is', 'si', 'std::string::concat(&ss[a0], a1); show(a0);'),
     'concats': ('ii', 'si', 'concat!{ss[a0], ss[a1]}; show(a0);'),
     'append': ('ii', 'si', 'std::string::append(&ss[a0], a1); show(a0);'),
     'appendn': ('iii', 'si', 'for let i: i64 = 0; i < a2; i++; { std::string::append(&ss[a0], a1); } show(a0);'),
     'get': ('i', 'si', 'show(a0);'),
     'trim': ('i', 'si', 'ss[a0] = std::string::trim(ss[a0]); show(a0);'),
     'free': ('i', 'i', 'std::string::free(ss[a0]); wr(0);'),
     'contains': ('is', 'i', 'bw(std::string::contains(ss[a0], a1));'),
     'equal': ('is', 'i', 'bw(std::string::equal(ss[a0], a1));'),
     'equals': ('ii', 'i', 'bw(std::string::equal(ss[a0], ss[a1]));'),
     'hasc': ('ii', 'i', 'bw(std::string::contains_char(ss[a0], a1));'),
     'findc': ('ii', 'i', 'let o = std::string::find_char(ss[a0], a1); if is_some!(o) { wr(unwrap!(o): i64); } else { wr(-1); }'),
     'substr': ('iii', 's', 'let t = std::string::substr(ss[a0], a1, a2); ws(t); if t != nil { std::string::free(t); }'),
     'split': ('iss', 'S', 'let v = std::string::split(a1, a2); wr(vec_size!(v)); for let i: i64 = 0; i < (vec_size!(v): i64); i++; { ws(v[i]); }'),
     'fromint': ('iw', 's', 'ws(std::string::from_int(a1));'),
     'fromuint': ('iw', 's', 'ws(std::string::from_uint(a1: u64));'),
     'fromchar': ('ii', 's', 'ws(std::string::from_char(a1));'),
     'tostr': ('iw', 'sssss', 'let p: i8 = a1; let q: u16 = a1; let r: i32 = a1; let t: u64 = a1; let b: bool = a1 % 2 != 0; ws(to_str!(p)); ws(to_str!(q)); ws(to_str!(r)); ws(to_str!(t)); ws(to_str!(b));'),
    }
    return Driver('string', 'Str', ops, ['string.csp', 'character.csp', 'libc/stdlib.csp'], decl)

WORDS = [0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31-1, 2**31, 2**32-1, 2**32, 10**9, 10**10, 10**18, 10**19, 2**63-1, 2**63, 2**64-1, 2**64-10, 2**64-128, 2**64-2**31]
def rword(rng):
    return rng.choice(WORDS) if rng.random() < .5 else rng.getrandbits(rng.choice([4, 8, 16, 31, 32, 33, 63, 64]))
def rbytes(rng, n, alpha=None):
    alpha = alpha or rng.choice([b'ab', b'abc ', b' \t\n\rx', bytes(range(1, 256)), bytes(range(32, 127))])
    return bytes(rng.choice(alpha) for _ in range(n))

def str_scripts(rng, n):
    out = {}
    ln = lambda: rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 15, 16, 17, 40])
    for c in range(n):
        L = [None] * 3; sc = []; alpha = rng.choice([b'ab', b'ab \t', b' \t\n\rx\v\f', bytes(range(1, 256)), None])
        cur = [b''] * 3
        for _ in range(rng.randint(10, 60)):
            k = rng.randrange(3)
            if L[k] is None:
                o = rng.choice(['new', 'init', 'init', 'filled', 'copy'])
                if o == 'new': sc.append((o, k)); cur[k] = b''
                elif o == 'init': t = rbytes(rng, ln(), alpha); sc.append((o, k, t)); cur[k] = t
                elif o == 'filled': m, ch = ln(), rng.choice([65, 32, 255, 1]); sc.append((o, k, m, ch)); cur[k] = bytes([ch]) * m
                else:
                    f = [j for j in range(3) if L[j] is not None]
                    if not f: continue
                    j = rng.choice(f); sc.append((o, k, j)); cur[k] = cur[j]
                L[k] = 1; continue
            t = cur[k]
            o = rng.choice(['concat'] * 3 + ['concats', 'append', 'append', 'appendn', 'trim', 'contains', 'contains', 'equal', 'equals', 'hasc', 'findc', 'substr', 'substr', 'split', 'fromint', 'fromuint', 'fromchar', 'tostr', 'get', 'free'])
            if o == 'concat': u = rbytes(rng, ln(), alpha); sc.append((o, k, u)); cur[k] += u
            elif o in ('concats', 'equals'):
                f = [j for j in range(3) if L[j] is not None]; j = rng.choice(f)
                if o == 'equals': sc.append((o, k, j))
                elif len(cur[k]) + len(cur[j]) < 400: sc.append((o, k, j)); cur[k] += cur[j]
            elif o == 'append': ch = rbytes(rng, 1, alpha)[0]; sc.append((o, k, ch)); cur[k] += bytes([ch])
            elif o == 'appendn':
                m = rng.choice([1, 2, 3, 7, 30, 90]); ch = rbytes(rng, 1, alpha)[0]
                if len(t) + m < 400: sc.append((o, k, ch, m)); cur[k] += bytes([ch]) * m
            elif o == 'trim': sc.append((o, k)); cur[k] = t.strip(b' \t\n\r\v\f')
            elif o in ('contains', 'equal'):
                a = rng.randint(0, len(t)); b = rng.randint(a, len(t))
                u = t[a:b] if rng.random() < .6 else rbytes(rng, ln(), alpha)
                if o == 'equal' and rng.random() < .4: u = t
                if u and rng.random() < .3: u = u[:-1] + rbytes(rng, 1, alpha)
                sc.append((o, k, u))
            elif o in ('hasc', 'findc'): sc.append((o, k, rng.choice(list(t)) if t and rng.random() < .7 else rbytes(rng, 1, alpha)[0]))
            elif o == 'substr': sc.append((o, k, rng.randint(-1, len(t) + 1), rng.randint(-1, len(t) + 2)) if rng.random() < .4 else (o, k, *sorted((rng.randint(0, len(t)), rng.choice([len(t), rng.randint(0, len(t))])))))
            elif o == 'split': sc.append((o, k, rbytes(rng, ln(), alpha), rbytes(rng, rng.choice([1, 1, 2, 3]), alpha)))
            elif o in ('fromint', 'fromuint', 'tostr'): sc.append((o, k, rword(rng)))
            elif o == 'fromchar': sc.append((o, k, rbytes(rng, 1)[0]))
            elif o == 'get': sc.append((o, k))
            elif o == 'free': sc.append((o, k)); L[k] = None; cur[k] = b''
        out[f'str_{c}'] = sc + [('get', k) for k in range(3) if L[k]]
    # growth: many appends one after the other, past several pages
    for c, m in enumerate([1, 2, 3, 20, 300, 5000, 9000]):
        out[f'grow_{m}'] = [('new', 0), ('init', 1, b'xy'), ('appendn', 0, 97, m), ('append', 0, 98), ('appendn', 1, 99, m), ('concat', 0, b'end'), ('append', 0, 100), ('concats', 0, 0) if m < 400 else ('get', 1), ('get', 0)]
    return out

def cstr_driver():
    decl = '''let buf: &u8 = nil;
fn off(p: &const void, base: &const void): i64 { <- if p == nil => (-1: i64) else ((p: i64) - (base: i64)); }
fn sg(x: i32): i64 { if x < 0 { <- -1; } if x > 0 { <- 1; } <- 0; }
fn prep(n: i64): &char { let p: &u8 = malloc((n: u64) + 8); for let i: i64 = 0; i < n; i++; { p[i] = 238; } <- p: &char; }
fn prept(t: &char, n: i64): &char { let p = prep(n): &u8; let q = t: &u8; let i: i64 = 0; while q[i] != 0 { p[i] = q[i]; i++; } p[i] = 0; <- p: &char; }
fn tok(p: &char) { ws(p); }
'''
    N = 'std::c_str::'
    ops = {
     'strlen': ('s', 'i', f'wr({N}strlen(a0));'),
     'strnlen': ('si', 'i', f'wr({N}strnlen(a0, a1));'),
     'copy': ('si', 's', f'let p = prep(a1); {N}copy(p, a0); wb(p, a1);'),
     'strcpy': ('si', 's', f'let p = prep(a1); {N}strcpy(p, a0); wb(p, a1);'),
     'strncpy': ('sii', 's', f'let p = prep(a2); {N}strncpy(p, a0, a1); wb(p, a2);'),
     'strcat': ('ssi', 's', f'let p = prept(a0, a2); {N}strcat(p, a1); wb(p, a2);'),
     'strncat': ('ssii', 's', f'let p = prept(a0, a3); {N}strncat(p, a1, a2); wb(p, a3);'),
     'strcmp': ('ss', 'i', f'wr(sg({N}strcmp(a0, a1)));'),
     'strncmp': ('ssi', 'i', f'wr(sg({N}strncmp(a0, a1, a2)));'),
     'strstr': ('ss', 'i', f'wr(off({N}strstr(a0, a1), a0));'),
     'strspn': ('ss', 'i', f'wr({N}strspn(a0, a1));'),
     'strcspn': ('ss', 'i', f'wr({N}strcspn(a0, a1));'),
     'strchr': ('si', 'i', f'wr(off({N}strchr(a0, a1), a0));'),
     'strrchr': ('si', 'i', f'wr(off({N}strrchr(a0, a1), a0));'),
     'strpbrk': ('ss', 'i', f'wr(off({N}strpbrk(a0, a1), a0));'),
     'strsep': ('ss', 'S', f'let n: i64 = 0; let p = prept(a0, (n0: i64) + 1); let q = prept(a0, (n0: i64) + 1); while {N}strsep(&p, a1) != nil {{ n++; }} wr(n); for let i: i64 = 0; i < n; i++; {{ ws({N}strsep(&q, a1)); }}'),
     'strtok': ('ss', 's', f'ws({N}strtok(a0, a1));'),
     'strtokn': ('s', 's', f'ws({N}strtok(nil, a0));'),
     'memchr': ('sii', 'i', f'wr(off({N}memchr(a0, a1, a2), a0));'),
     'rawmemchr': ('si', 'i', f'wr(off({N}rawmemchr(a0, a1), a0));'),
     'reverse': ('s', 's', f'{N}reverse(a0); ws(a0);'),
     'fromint': ('wi', 's', f'let p = prep(100); {N}from_int(a0, p, a1); ws(p);'),
     'fromuint': ('wi', 's', f'let p = prep(100); {N}from_uint(a0: u64, p, a1); ws(p);'),
     'frombool': ('i', 's', f'let p = prep(100); {N}from_bool(a0 == 1, p); ws(p);'),
     'toi32': ('s', 'w', f'wr({N}to_i32(a0));'),
     'toi64': ('s', 'w', f'wr({N}to_i64(a0));'),
     'float': ('iiii', 's', f'let p = prep(100); let x = a0: f64; for let i: i64 = 0; i < a1; i++; {{ x = x / (2.0: f64); }} if a3 == 32 {{ {N}from_f32(x, a2, p); }} else {{ {N}from_f64(x, a2, p); }} ws(p);'),
     'class': ('i', 'L', 'let c = a0: i32; wr(15); ' + ' '.join(f'wr(std::character::{f}(c));' for f in 'isalnum isalpha isascii isblank isncntrl isdigit isgraph islower isprint ispunct isspace isupper toascii tolower toupper'.split())),
    }
    return Driver('c_str', 'CStr', ops, ['c_str.csp', 'character.csp'], decl)

def cstr_scripts(rng, n):
    out = {}
    out['class'] = [('class', c) for c in list(range(-130, 300)) + [1000, 2**31 - 1, -2**31 + 1]]
    ln = lambda: rng.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 20])
    for c in range(n):
        sc = []; alpha = rng.choice([b'ab', b'abc', b'a-b=', bytes(range(1, 256)), b'\x7f\x80\xff\x01'])
        t = lambda: rbytes(rng, ln(), alpha)
        tokd = False
        for _ in range(40):
            o = rng.choice('strlen strnlen copy strcpy strncpy strcat strncat strcmp strcmp strncmp strncmp strstr strstr strspn strcspn strchr strrchr strpbrk strsep strtok strtokn strtokn memchr rawmemchr reverse fromint fromint fromuint frombool toi32 toi64 float'.split())
            a = t()
            b = a[:rng.randint(0, len(a))] + t() if rng.random() < .5 else t()
            if rng.random() < .2: b = a
            if o in ('strlen', 'reverse'): sc.append((o, a))
            elif o == 'strnlen': sc.append((o, a, rng.choice([0, len(a), len(a) + 1, rng.randint(0, 25)])))
            elif o in ('copy', 'strcpy'): sc.append((o, a, len(a) + rng.randint(1, 9)))
            elif o == 'strncpy': m = rng.choice([0, len(a), len(a) + 1, rng.randint(0, 25)]); sc.append((o, a, m, m + rng.randint(1, 5)))
            elif o == 'strcat': sc.append((o, a, b, len(a) + len(b) + rng.randint(1, 8)))
            elif o == 'strncat': m = rng.choice([0, len(b), len(b) + 2, rng.randint(0, 20)]); sc.append((o, a, b, m, len(a) + len(b) + 1 + rng.randint(0, 30)))
            elif o == 'strcmp': sc.append((o, a, b))
            elif o == 'strncmp': sc.append((o, a, b, rng.choice([0, 1, len(a), len(b), rng.randint(0, 22)])))
            elif o == 'strstr':
                i = rng.randint(0, len(a)); u = a[i:i + rng.randint(0, 4)]
                if u and rng.random() < .4: u += rbytes(rng, 1, alpha)
                sc.append((o, a, u if rng.random() < .8 else b))
            elif o in ('strspn', 'strcspn', 'strpbrk', 'strsep', 'strtok'):
                d = rbytes(rng, rng.choice([0, 1, 1, 2, 3]), alpha)
                if o == 'strsep' and not d: d = b'-'
                sc.append((o, a, d)); tokd |= o == 'strtok'
            elif o == 'strtokn':
                if tokd: sc.append((o, rbytes(rng, rng.choice([1, 1, 2]), alpha)))
            elif o in ('strchr', 'strrchr'): sc.append((o, a, rng.choice(list(a) + [0, 1, 200, 97])))
            elif o == 'memchr': sc.append((o, a, rng.choice(list(a) + [0, 1, 200, 97]), rng.randint(0, len(a))))
            elif o == 'rawmemchr':
                ch = rng.choice(list(a) + [0]); sc.append((o, a, ch))
            elif o == 'fromint': sc.append((o, rword(rng), rng.choice([10, 10, 10, 2, 8, 16])))
            elif o == 'fromuint': sc.append((o, rword(rng), rng.choice([10, 10, 2, 8, 16, 3, 36])))
            elif o == 'frombool': sc.append((o, rng.randint(0, 1)))
            elif o in ('toi32', 'toi64'):
                v = rword(rng) if o == 'toi64' else rng.choice([0, 1, 2**31 - 1, 2**31, rng.getrandbits(31), rng.getrandbits(20)])
                sc.append((o, rbytes(rng, rng.choice([0, 0, 1, 2]), b' \t\n') + rng.choice([b'', b'-', b'+']) + rng.choice([b'', b'0', b'00']) + str(v).encode() + rng.choice([b'', b' ', b'x1', b'-2', b'.5'])))
            elif o == 'float':
                f = rng.choice([32, 64]); k = rng.randint(0, 8)
                m = rng.randint(-2**20, 2**20) if f == 32 else rng.randint(-2**29, 2**29)
                sc.append((o, rng.choice([m, m % 256, -(m % 256), m % (2**k) , 0]), k, rng.choice([0, 1, 3, 10, 20]), f))
        out[f'cstr_{c}'] = sc
    return out

# ------------------------------------------------------------------ formats, output, errors
def fmt_driver():
    decl = '''extern "C" {
    fn dup(fd: i32): i32;
    fn dup2(a: i32, b: i32): i32;
    fn lseek(fd: i32, o: i64, w: i32): i64;
    fn ftruncate(fd: i32, o: i64): i32;
    fn memfd_create(n: &char, f: u32): i32;
    fn sbrk(n: i64): i64;
    fn getrusage(who: i32, p: &void): i32;
}
let fo: i32 = 0; let fe: i32 = 0; let ff: i32 = 0; let so: i32 = 0; let se: i32 = 0;
fn grab() { dup2(fo, 1); dup2(fe, 2); }
fn emit(fd: i32) {
    let n = lseek(fd, 0, 1);
    let p: &char = malloc((n: u64) + 1): &char;
    lseek(fd, 0, 0);
    let g: i64 = 0;
    while g < n { let k = read(fd, p + (g: u64), n - g); if k <= 0 { g = n; } else { g = g + k; } }
    wb(p, n); lseek(fd, 0, 0); ftruncate(fd, 0);
}
fn show() { dup2(so, 1); dup2(se, 2); emit(fo); emit(fe); emit(ff); }
fn num(m: i64, k: i64): f64 { let x = m: f64; for let i: i64 = 0; i < k; i++; { x = x / (2.0: f64); } <- x; }
fn num32(m: i64, k: i64): f32 { let x = m: f32; for let i: i64 = 0; i < k; i++; { x = x / 2.0; } <- x; }
let V: u64 'c[9];
let P: u64 'c[9];
fn plan(p: &char, n: u64, w0: i64, w1: i64, w2: i64, w3: i64, w4: i64, s0: &char, s1: &char, s2: &char) {
    P[0] = w0; P[1] = w1; P[2] = w2; P[3] = w3; P[4] = w4; P[5] = s0: u64; P[6] = s1: u64; P[7] = s2: u64; P[8] = 0;
    for let i: u64 = 0; i < 9; i++; { V[i] = if i < n => P[p[i]] else (0: u64); }
}
let rss: i64 'c[40];
fn peak(): i64 { getrusage(0, &rss); <- rss[4]; }
fn err(e: std::Error) { wr(e.kind); ws(e.msg); }
let sink: i32 = 0;
fn fd(a: i64): i32 { <- if a == 1 => 1 else if a == 2 => 2 else ff; }
'''
    ARGS = 'V[0], V[1], V[2], V[3], V[4], V[5], V[6], V[7], V[8]'
    PL = lambda k: f'plan(a{k}, n{k}, ' + ', '.join(f'a{i}' for i in range(k + 1, k + 9)) + '); '
    ops = {
     'fmt': ('ss' + 'wwwww' + 'sss', 'si', PL(1) + f'let r = std::fmt::format(a0, {ARGS}); ws(r); wr(std::string::size(r)); std::string::free(r);'),
     'typed': ('w', 's', 'let b: i8 = a0; let q: u16 = a0; let h: char = 65 + ((a0: u8) % 26); let o: bool = a0 % 2 != 0; '
               'let r = std::fmt::format("%i|%u|%l|%U|%b|%x|%o|%p|%c|%i|%u", (a0: i32), (a0: u32), a0, (a0: u64), o, (a0: u64), a0, (a0: &void), h, b, q); ws(r); std::string::free(r);'),
     'mix': ('swwwiiiii', 's', 'let f0 = num32(a4, a5); let d0 = num(a6, a5); let f1 = num32(a7, a5); let d1 = num(a8, a5); let r = std::fmt::format(a0, f0, a1, d0, a2, f1, d1, a3); ws(r); std::string::free(r);'),
     'flts': ('siii', 's', 'let x: f64 \'c[10]; for let i: i64 = 0; i < 10; i++; { x[i] = num(a1 + i * a2, a3); } let r = std::fmt::format(a0, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]); ws(r); std::string::free(r);'),
     'print': ('iss' + 'wwwww' + 'sss', 'sss', PL(2) + f'grab(); if a0 == 1 {{ std::io::printf(a1, {ARGS}); }} else if a0 == 2 {{ std::io::eprintf(a1, {ARGS}); }} else {{ std::io::fprintf(ff, a1, {ARGS}); }} show();'),
     'puts': ('is', 'sss', 'grab(); if a0 == 1 { std::io::puts(a1); } else if a0 == 2 { std::io::eputs(a1); } else { std::io::fputs(a1, ff); } show();'),
     'putc': ('ii', 'sss', 'grab(); if a0 == 1 { std::io::putc(a1); } else if a0 == 2 { std::io::eputc(a1); } else { std::io::fputc(a1, ff); } show();'),
     'write': ('is', 'sss', 'grab(); std::io::write(fd(a0), a1); show();'),
     'writeln': ('is', 'sss', 'grab(); std::io::writeln(fd(a0), a1); show();'),
     'writeint': ('iw', 'sss', 'grab(); std::io::write_int(fd(a0), a1); show();'),
     'writem': ('iws', 'sss', 'grab(); let i: i32 = a1; let u: u64 = a1; write!(fd(a0), i); write!(fd(a0), ","); write!(fd(a0), u); write!(fd(a0), ","); write!(fd(a0), a2); show();'),
     'newline': ('', 'sss', 'grab(); std::io::newline(); show();'),
     'getc': ('si', 'L', 'lseek(ff, 0, 0); write(ff, a0, n0); lseek(ff, 0, 0); wr(a1); for let i: i64 = 0; i < a1; i++; { wr((std::io::fgetc(ff): u8)); } lseek(ff, 0, 0); ftruncate(ff, 0);'),
     'time': ('siiiiiii', 's', 'let t: std::Time; t.year = a1; t.month = a2; t.day = a3; t.hour = a4; t.minute = a5; t.second = a6; t.ts.tv_sec = a7; let r = std::fmt::time(a0, t); ws(r); std::string::free(r);'),
     'errnew': ('is', 'isis', 'err(std::error::new(a0, a1)); err(std::error::current());'),
     'errset': ('is', 'isis', 'let e: std::Error; e.kind = a0; e.msg = a1; err(std::error::set(e)); err(std::error::current());'),
     'errnone': ('', 'is', 'err(std::error::none());'),
     'errclear': ('', 'is', 'err(std::error::clear());'),
     'errcurrent': ('', 'is', 'err(std::error::current());'),
     'errsome': ('', 'i', 'wr(if std::error::is_some() => 1 else 0);'),
     'errstr': ('i', 's', 'ws(std::error::str(a0): &char);'),
     'fmte': ('is', 's', 'let e: std::Error; e.kind = a0; e.msg = a1; let r = std::fmt::format("<%e>", &e); ws(r); std::string::free(r);'),
     'steady': ('i', 'i', 'let z = open("/dev/null", 1, 0); for let i = 0; i < 50; i++; { std::io::fprintf(z, "%i %s\\n", i, "warm"); } let a = peak(); for let i: i64 = 0; i < a0; i++; { std::io::fprintf(z, "%l %s %x\\n", i, "some text that is longer than a few bytes", i); } let b = peak(); wr(if b - a > 600 => (b - a) else (0: i64)); std::io::close(z);'),
    }
    decl = decl.replace('fn dup(', 'fn open(p: &char, f: i32, m: i32): i32;\n    fn dup(')
    setup = 'fo = memfd_create("o", 0); fe = memfd_create("e", 0); ff = memfd_create("f", 0); so = dup(1); se = dup(2);'
    return Driver('fmt', 'Fmt', ops, ['fmt.csp', 'io.csp', 'time.csp', 'error.csp'], decl, setup)

def fmt_scripts(rng, n):
    out = {}
    ALPHA = [b'ab ', bytes(range(32, 127)), bytes(range(1, 256)), b'\a\b\t\v\n\r\f\'"\\x', b'%%%iu']
    ln = lambda: rng.choice([0, 1, 2, 3, 7, 8, 20])
    def text(): return rbytes(rng, ln(), rng.choice(ALPHA))
    plain = lambda k: rbytes(rng, k, b'abc ,:[]%x').replace(b'%', b'%%')
    def fmtargs(maxargs=9):
        f = b''; plan = []; ws = [rword(rng) for _ in range(5)]; ws[3] = rng.randint(0, 1); ws[4] = rng.choice([7, 10, 39, 65, 97, 200, 255])
        ts = [text() for _ in range(3)]
        for _ in range(rng.randint(0, maxargs)):
            d = rng.choice('iuUloxbpcCsSsSE%%')
            f += plain(rng.randint(0, 2)) + b'%' + d.encode()
            if d in 'E%': continue
            if len(plan) == 9: break
            plan.append(3 if d == 'b' else 4 if d in 'cC' else rng.choice([5, 6, 7, 8]) if d in 'sS' else rng.choice([0, 1, 2, 3]))
        while len(plan) < f.replace(b'%%', b'').replace(b'%E', b'').count(b'%'): f = f[:-2]
        if rng.random() < .1: f += b'%' + rng.choice([b'', b'', b'q', b'&', b'n', b'n tail'])
        else: f += plain(1)
        return f, bytes(plan), ws, ts
    msg = lambda: rbytes(rng, rng.randint(0, 12), b'abc: %')
    for c in range(n):
        sc = []
        for _ in range(25):
            o = rng.choice(['fmt'] * 6 + ['typed', 'mix', 'mix', 'flts', 'print', 'print', 'puts', 'putc', 'write', 'writeln', 'writeint', 'writem', 'newline', 'getc', 'time', 'time', 'errnew', 'errset', 'errnone', 'errclear', 'errcurrent', 'errsome', 'errsome', 'errstr', 'fmte'])
            w = rng.randint(1, 3)
            kind = rng.choice([5, 9, 10, 20, 22, 134, 135, 136, 1, 3, 11, 40, 100, 133])
            if o == 'fmt': f, p, ws, ts = fmtargs(); sc.append((o, f, p, *ws, *ts))
            elif o == 'print': f, p, ws, ts = fmtargs(); sc.append((o, w, f, p, *ws, *ts))
            elif o == 'typed': sc.append((o, rword(rng)))
            elif o == 'mix':
                k = rng.randint(0, 8); m = lambda b: rng.choice([0, 1, -1, rng.randint(-2**b, 2**b), rng.randint(-300, 300)])
                pieces = ['%f', '%d', '%f', '%d'][:rng.randint(1, 4)]; ip = [rng.choice(['%l', '%U', '%x']) for _ in range(rng.randint(0, 3))]
                seq = [0] * len(pieces) + [1] * len(ip); rng.shuffle(seq); f = b''
                for q in seq: f += (pieces if q == 0 else ip).pop(0).encode() + plain(1)
                sc.append((o, f, rword(rng), rword(rng), rword(rng), m(20), k, m(28), m(20), m(28)))
            elif o == 'flts': sc.append((o, b' '.join([b'%d'] * rng.choice([1, 7, 8, 9, 10])), rng.randint(-2**20, 2**20), rng.randint(-2**16, 2**16), rng.randint(0, 6)))
            elif o in ('puts', 'write', 'writeln'): sc.append((o, w, text()))
            elif o == 'putc': sc.append((o, w, rng.choice([0, 1, 10, 65, 255, 37])))
            elif o == 'writeint': sc.append((o, w, rword(rng)))
            elif o == 'writem': sc.append((o, w, rword(rng), text()))
            elif o == 'newline': sc.append((o,))
            elif o == 'getc': t = text(); sc.append((o, t, len(t) + rng.randint(0, 2)))
            elif o == 'time':
                f = b''.join(rng.choice([b'%Y', b'%M', b'%D', b'%h', b'%m', b'%s', b'%%', b'%u', b'-', b':', b'x']) for _ in range(rng.randint(0, 7))) + rng.choice([b'', b'', b'%'])
                sc.append((o, f, rng.choice([0, 5, 99, 999, 1970, 2026, 65535]), rng.randint(1, 12), rng.randint(1, 31), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 1, 1700000000, 2147483646])))
            elif o in ('errnew', 'errset', 'fmte'): sc.append((o, kind, msg()))
            elif o == 'errstr': sc.append((o, rng.choice([kind, -kind, 0])))
            else: sc.append((o,))
        out[f'fmt_{c}'] = sc
    out['chars'] = [('fmt', b'%C', b'\0', c, 0, 0, 0, 0, b'', b'', b'') for c in range(0, 256)] + [('fmt', b'%S', b'\5', 0, 0, 0, 0, 0, bytes([97, c, 98]), b'', b'') for c in range(1, 256)]
    out['steady'] = [('steady', 20000)]
    return out

# ------------------------------------------------------------------ patterns
def regex_driver():
    decl = '''let pat: &std::Regex = nil;
fn found(m: std::RegexMatch) { wr(m.index); wr(if m.index == -1 => 0 else m.length); }
'''
    ops = {'compile': ('s', 'i', 'pat = std::regex::compile(a0); wr(if pat == nil => 0 else 1);'),
           'find': ('s', 'ii', 'found(std::regex::match_pattern(pat, a0));'),
           'matches': ('ss', 'ii', 'found(std::regex::matches(a0, a1));')}
    return Driver('regex', 'Regex', ops, ['regex.csp', 'character.csp', 'io.csp'], decl)

def rpattern(rng, al):
    """a pattern and a text it may well match"""
    p = b''; t = b''
    if rng.random() < .15: p += b'^'
    for _ in range(rng.randint(0, 5)):
        k = rng.random()
        if k < .4: c = rng.choice(al); u = bytes([c]) if c not in b'^$.*+?\\[]' else b'\\' + bytes([c]); s = [c]
        elif k < .5: u = b'.'; s = list(al) + [33, 200, 10, 13, 9]
        elif k < .7:
            n = rng.choice(b'dDwWsS'); u = b'\\' + bytes([n])
            s = {100: b'059', 68: b'a _', 119: b'aZ0_', 87: b' -!', 115: b' \t', 83: b'a.0'}[n]
        else:
            m = b''; s = []
            for _ in range(rng.randint(1, 3)):
                w = rng.random()
                if w < .3: lo = rng.choice(b'abc0A'); hi = lo + rng.randint(0, 5); m += bytes([lo, 45, hi]); s += [lo, hi]
                elif w < .5: n = rng.choice(b'dws'); m += b'\\' + bytes([n]); s += [{100: 55, 119: 95, 115: 32}[n]]
                elif w < .6: n = rng.choice(b']\\-.'); m += b'\\' + bytes([n]); s += [n]
                else: c = rng.choice(al); c = c if c not in b'^-\\[]' else 97; m += bytes([c]); s += [c]
            if rng.random() < .15: m += b'-'; s.append(45)
            if rng.random() < .3: u = b'[^' + m + b']'; s = [122, 35, 57, 65]
            else: u = b'[' + m + b']'
        q = rng.choice(['', '', '', '*', '+', '?'])
        p += u + q.encode()
        for _ in range({'': 1, '*': rng.randint(0, 3), '+': rng.randint(1, 3), '?': rng.randint(0, 1)}[q]): t += bytes([rng.choice(s)])
    if rng.random() < .2: p += b'$'
    return p, t

def regex_scripts(rng, n):
    import re
    out = {}
    for c in range(n):
        sc = []; al = rng.choice([b'ab', b'abc', b'a.b*', b'01aZ_ -', b'\\[]^$+?', b'a\n\r\t', bytes(rng.sample(range(1, 256), 4))])
        for _ in range(12):
            p, t = rpattern(rng, al)
            sc.append(('compile', p))
            for _ in range(5):
                x = rbytes(rng, rng.randint(0, 4), al) + (t if rng.random() < .7 else t[:rng.randint(0, len(t))]) + rbytes(rng, rng.choice([0, 0, 1, 3]), al)
                if rng.random() < .2 and t: i = rng.randrange(len(t)); x = t[:i] + rbytes(rng, 1, al) + t + x
                sc.append(('find', x))
            q, t = rpattern(rng, al)
            if rng.random() < .3: sc.append(('matches', q, t)); sc.append(('compile', p))
        for bad in (b'[', b'[a', b'a[^', b'[^a', b'\\', b'ab\\', b'[a\\'):
            if rng.random() < .2: sc.append(('compile', bad)); sc.append(('find', b'ab')); sc.append(('find', b''))
        out[f'rx_{c}'] = sc
    return out

def regex_bytes():
    """every kind of single element against every byte, alone and behind another"""
    out = {}
    for k, u in enumerate([b'.', b'\\d', b'\\D', b'\\w', b'\\W', b'\\s', b'\\S', b'[\\d]', b'[\\w]', b'[\\s]', b'[^\\d]', b'[^\\w]', b'[^\\s]', b'[\\D]', b'[\\W]', b'[\\S]', b'[b-y]', b'[^B-Y]', b'[a-]', b'[-a]', b'[0-9_]', b'[^.]', b'x']):
        out[f'{k}'] = [('compile', u)] + [('find', bytes([c])) for c in range(1, 256)] + [('compile', b'^_' + u + b'*$')] + [('find', bytes([95, c])) for c in range(1, 256)]
    return out

def regex_all(depth, tlen):
    """every pattern of up to `depth` units over a, b, . and quantifiers against every text of a's and b's up to tlen"""
    units = [u + q for u in ('a', 'b', '.') for q in ('', '*', '+', '?')]
    texts = [bytes(x) for k in range(tlen + 1) for x in itertools.product(b'ab', repeat=k)]
    out = {}; sc = []; k = 0
    for d in range(depth + 1):
        for us in itertools.product(units, repeat=d):
            for b, e in (('', ''), ('^', ''), ('', '$'), ('^', '$')):
                if d == depth and depth > 2 and (b or e): continue
                sc.append(('compile', (b + ''.join(us) + e).encode())); sc += [('find', t) for t in texts]
                if len(sc) > 2000: out[f'{k}'] = sc; sc = []; k += 1
    if sc: out[f'{k}'] = sc
    return out

# ------------------------------------------------------------------ flags and arguments
def flags_driver():
    decl = '''extern "C" {
    fn dup(fd: i32): i32;
    fn dup2(a: i32, b: i32): i32;
    fn lseek(fd: i32, o: i64, w: i32): i64;
    fn ftruncate(fd: i32, o: i64): i32;
    fn memfd_create(n: &char, f: u32): i32;
}
type PC: &char;
let calls: PC 'c[64];
let nc: i64 = 0;
let args: PC 'c[64];
let na: i64 = 0;
let fo: i32 = 0; let fe: i32 = 0; let so: i32 = 0; let se: i32 = 0;
fn call(t: std::String) { calls[nc] = t; nc++; }
fn on_d() { call(std::fmt::format("d")); }
fn on_s(v: &const char) { call(std::fmt::format("s%s", v)); }
fn on_b(v: bool) { call(std::fmt::format("b%i", v: i32)); }
fn on_i(v: i64) { call(std::fmt::format("i%l", v)); }
fn split(some: i64, t: &char, n: u64) {
    na = 0; nc = 0; args[0] = "tool"; na = 1;
    if some != 0 {
        let p: &char = malloc(n + 1); args[1] = p; na = 2;
        for let i: u64 = 0; i < n; i++; { if t[i] == 1 { p[i] = 0; args[na] = p + (i + 1); na++; } else { p[i] = t[i]; } }
        p[n] = 0;
    }
    args[na] = nil;
}
'''
    parse = '''split(a0, a1, n1);
    let fl = [
        std::flag::new("-d", "dd", on_d: fn),
        std::flag::new_str("-str", "ss", on_s: fn(&const char)),
        std::flag::new_bool("--b", "bb", on_b: fn(bool)),
        std::flag::new_int("-i", "ii", on_i: fn(i64)),
        std::flag::help("tool")
    ];
    dup2(fo, 1); dup2(fe, 2);
    let e = std::flags::parse(fl, args, na: i32);
    dup2(so, 1); dup2(se, 2);
    wr(nc); for let i: i64 = 0; i < nc; i++; { ws(calls[i]); }
    let n = lseek(fo, 0, 1); let p: &char = malloc((n: u64) + 1); lseek(fo, 0, 0); read(fo, p, n); wb(p, n); lseek(fo, 0, 0); ftruncate(fo, 0);
    wr(e.kind);
    wr(if lseek(fe, 0, 1) == 0 => 0 else 1); lseek(fe, 0, 0); ftruncate(fe, 0);'''
    ops = {'parse': ('is', 'Ssii', parse),
           'shift': ('isi', 'Si', 'split(a0, a1, n1); let c: i32 = na - 1; let v: &&const &const char = ((&args: u64) + 8): &&const &const char; let q = v; wr(a2); for let i: i64 = 0; i < a2; i++; { ws(std::args::shift(&c, (&q): &&const &const char): &char); } wr(c);')}
    return Driver('flags', 'Flags', ops, ['flags.csp', 'fmt.csp'], decl, 'fo = memfd_create("o", 0); fe = memfd_create("e", 0); so = dup(1); se = dup(2);')

def flags_scripts(rng, n):
    out = {}
    word = lambda: rng.choice([b'', b'x', b'true', b'false', b'-d', b'-str', b'12', b'-7', b'some text', b'tru', b'--help', b'9223372036854775807', b'0', b'1x'])
    for c in range(n):
        sc = []
        for _ in range(15):
            l = []
            for _ in range(rng.randint(0, 6)):
                k = rng.random()
                if k < .2: l.append(b'-d')
                elif k < .4: l += [b'-str', word()]
                elif k < .6: l += [b'--b', rng.choice([b'true', b'false', b'true', b'false', word()])]
                elif k < .8: l += [b'-i', rng.choice([str(rng.randint(-10**6, 10**6)).encode(), word()])]
                elif k < .9: l.append(b'--help')
                else: l.append(rng.choice([b'-D', b'-', b'--', b'-dd', b'x', b'', b'-st', b'-i', b'-str', b'--b']))
            t = b'\1'.join(l)
            some = 1 if l else 0
            sc.append(('parse', some, t) if rng.random() < .7 else ('shift', some, t, len(l) + rng.randint(-1, 2) if l else 1))
        out[f'flags_{c}'] = sc
    return out

# ------------------------------------------------------------------ numbers
def num_driver():
    decl = '''let st: u32 'c[160];
let vals: i64 'c[400];
let cur: i64 = -1;
type OI: option!{i64};
fn wu(u: &std::Uuid) { let b: u8 'c[16]; for let i = 0; i < 16; i++; { b[i] = (*u)[i]; } wb(b, 16); }
fn slot(k: i64): &u32 = &st[k * 80];
'''
    tys = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
    sums = ' '.join(f'{{ let v: {t}[5] = [0: {t}, 0: {t}, 0: {t}, 0: {t}, 0: {t}]; v[0] = a0; v[1] = a1; v[2] = a2; v[3] = a3; v[4] = a4; wr(sum!(v)); }}' for t in tys)
    U = lambda k: f'let u: std::Uuid; for let i = 0; i < 16; i++; {{ u[i] = a{k}[i]; }} '
    ops = {
     'pow': ('wi', 'w', 'wr(std::math::pow(a0, a1));'),
     'div': ('ww', 'ww', 'let d = std::math::div64(a0, a1); wr(d.quot); wr(d.rem);'),
     'div32': ('ww', 'ww', 'let d = std::math::div(a0, a1); wr(d.quot); wr(d.rem);'),
     'mod': ('ww', 'w', 'wr(std::math::mod(a0, a1));'),
     'abs': ('w', 'wwww', 'let x: i32 = a0; wr(std::math::abs(x)); wr(std::math::abs64(a0)); wr(abs!(a0)); wr(abs!(x));'),
     'minmax': ('ww', 'wwwww', 'let x: i32 = a0; let y: i32 = a1; let u: u64 = a0; let v: u64 = a1; wr(max!(a0, a1)); wr(min!(a0, a1)); wr(max!(x, y)); wr(min!(x, y)); wr(max!(u, v));'),
     'limits': ('', 'w' * 18, ' '.join(f'wr({t}_max!); wr({t}_min!);' for t in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64')) + ' wr(sizeof typeof (i64_min!)); wr(sizeof typeof (u64_min!));'),
     'sum': ('wwwww', 'w' * 8, sums),
     'ends': ('wwwww', 'w' * 6, 'let v = [a0, a1, a2, a3, a4]; wr(first!(v)); wr(last!(v)); wr(sum!(a0, a1)); wr(sum!(a0, a1, a2)); wr(sum!(a0, a1, a2, a3)); wr(sum!(a0, a1, a2, a3, a4));'),
     'bswap': ('w', 'w' * 7, ' '.join(f'wr(std::algorithm::{f}(a0): u64);' for f in ('bswap_16', 'bswap_32', 'bswap_64', 'hton_16', 'hton_32', 'ntoh_16', 'ntoh_32'))),
     'hash': ('s', 'w', 'wr(std::algorithm::hash_bytes(a0: &u8, n0));'),
     'hashstr': ('s', 'w', 'wr(std::algorithm::hash_string(a0));'),
     'bits': ('wii', 'iww', 'let v: u64 = a0; let c = check_bit!(v, a1); let t = v; toggle_bit!(t, a1); let u = v; let x: u64 = a2; set_bit!(u, a1, x); wr(if c != 0 => 1 else 0); wr(t); wr(u);'),
     'swap': ('ww', 'wwww', 'let x = a0; let y = a1; swap!(x, y); wr(x); wr(y); let p = a0; let q = a1; xor_swap!(p, q); wr(p); wr(q);'),
     'either': ('ww', 'w', 'let x = a0; wr(either!(x, a1));'),
     'option': ('ww', 'iiwwiiw', 'let o: OI = some!(a0): OI; let n: OI = none!(i64): OI; wr(if is_some!(o) => 1 else 0); wr(if is_none!(o) => 1 else 0); wr(unwrap!(o)); wr(unwrap_or!(o, a1)); wr(if is_some!(n) => 1 else 0); wr(if is_none!(n) => 1 else 0); wr(unwrap_or!(n, a1));'),
     'uuid': ('s', 'sss', U(0) + 'let t: char \'c[40]; for let i = 0; i < 40; i++; { t[i] = 0; } std::uuid::serialize(&u, t); ws(t); let v: std::Uuid; std::uuid::parse(t, &v); wu(&v); let w: std::Uuid; std::uuid::copy(&u, &w); wu(&w);'),
     'uuidgen': ('', 'ss', 'let u: std::Uuid; let v: std::Uuid; let t: char \'c[40]; for let i = 0; i < 40; i++; { t[i] = 0; } std::uuid::generate(&u); std::uuid::generate(&v); std::uuid::serialize(&u, t); ws(t); std::uuid::serialize(&v, t); ws(t);'),
     'lcg': ('w', 'ww', 'wr(std::random::lcg32(a0): u64); wr(std::random::lcg64(a0));'),
     'seed': ('w', 'i', 'std::random::seed(a0); wr(0);'),
     'rand': ('i', 'ww', 'let d: i64 = 0; for let i: i64 = 0; i < a0; i++; { vals[i] = std::random::rand(); } for let i: i64 = a0 - 1; i >= 0; i--; { d = vals[i] + d * 31; } wr(vals[a0 - 1]); wr(d);'),
     'init': ('iwi', 'i', 'wr(if std::random::init_state(a1, slot(a0), a2) == nil => 0 else 1);'),
     'set': ('i', 'i', 'wr(if std::random::set_state(slot(a0)) == nil => 0 else 1);'),
    }
    return Driver('num', 'Num', ops, ['math.csp', 'array.csp', 'algorithm.csp', 'random.csp', 'option.csp', 'utils.csp', 'types.csp', 'time.csp'], decl)

def num_scripts(rng, n):
    out = {}
    s64 = lambda v: v - 2**64 if v >= 2**63 else v
    for c in range(n):
        sc = [('limits',)] if c == 0 else []
        inited = []; texts = [rbytes(rng, rng.choice([0, 1, 2, 7, 8, 9, 30]), bytes(range(1, 256))) for _ in range(4)]
        for _ in range(30):
            o = rng.choice('pow pow div div32 mod mod abs minmax sum sum ends bswap bswap hash hashstr bits bits bits swap either option uuid uuid lcg seed rand rand rand init set'.split())
            w = rword(rng)
            if o == 'pow': sc.append((o, rng.choice([0, 1, 2, 3, 10, 2**31 - 1, 2**64 - 1, 2**64 - 7, w % 2**31, w % 100000]), rng.choice([0, 1, 2, 3, 4, 5, 9, 31, rng.randint(0, 64)])))
            elif o in ('div', 'mod'):
                d = rng.choice([1, 2, 3, 7, 10, 2**64 - 1, 2**64 - 3, rword(rng) or 5, 10**9, w or 1])
                if w == 2**63 and d == 2**64 - 1: d = 3
                if o == 'mod' and d == 2**63: d = 5
                sc.append((o, w, d))
            elif o == 'div32':
                d = rng.choice([1, 2, 3, 2**64 - 1, 2**64 - 5, 1000]); sc.append((o, w if w % 2**32 != 2**31 else 5, d))
            elif o in ('abs', 'either', 'swap', 'option', 'minmax'):
                if o == 'abs': sc.append((o, w))
                else: sc.append((o, rng.choice([w, 0, 1]), rng.choice([w, rword(rng), 2**64 - 1, 0])))
            elif o in ('sum', 'ends'): sc.append((o, *[rword(rng) for _ in range(5)]))
            elif o in ('bswap', 'lcg', 'seed'): sc.append((o, w))
            elif o in ('hash', 'hashstr'): sc.append((o, rng.choice(texts)))
            elif o == 'bits': sc.append((o, w, rng.choice([0, 1, 7, 8, 31, 32, 62, 63, rng.randint(0, 63)]), rng.randint(0, 1)))
            elif o == 'uuid': sc.append((o, bytes(rng.choice([0, 255, 16, 15, rng.randrange(256)]) for _ in range(16))))
            elif o == 'rand': sc.append((o, rng.choice([1, 1, 2, 3, 28, 31, 32, 40, 100])))
            elif o == 'init':
                k = rng.randint(0, 1); z = rng.choice([0, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 300]); sc.append((o, k, w, z))
                if z >= 8 and k not in inited: inited.append(k)
            elif o == 'set' and inited: sc.append((o, rng.choice(inited)))
        out[f'num_{c}'] = sc
    out['fresh'] = [('rand', k) for k in (1, 2, 28, 31, 31, 32, 100, 300)] + [('seed', 1)] + [('rand', k) for k in (1, 2, 28, 31, 31, 32, 100, 300)]
    out['uuidgen'] = [('uuidgen',)] * 20
    return out

# ------------------------------------------------------------------ files and directories
def file_driver():
    decl = '''type FP: &std::File;
let fl: FP 'c[3];
let nm: char 'c[3];
extern "C" {
    fn open(p: &char, flags: i32, mode: i32): i32;
    fn close(fd: i32): i32;
    fn unlink(p: &char): i32;
    fn mkdir(p: &char, mode: i32): i32;
    fn rmdir(p: &char): i32;
}
fn name(k: i64): &char { let p: &char = malloc(3): &char; p[0] = 'f'; p[1] = (48 + k); p[2] = '\\0'; <- p; }
fn fe(e: std::Error): i64 = if e.kind != 0 => 1: i64 else 0: i64;
fn some(): i64 { let b = std::error::is_some(); std::error::clear(); <- if b => 1: i64 else 0: i64; }
'''
    ops = {
     'open': ('iii', 'iiisi', 'let f = std::file::open(name(a1), a2); let e = some(); if f == nil { wr(0); wr(e); wr(0); wb(nm, 0); wr(0); } else { fl[a0] = f; wr(1); wr(e); wr(f.mode); ws(f.path); wr(std::file::tell(f)); }'),
     'peek': ('i', 'is', """let fd = open(name(a0), 0, 0); if fd < 0 { wr(0); wb(nm, 0); } else { let buf: &char = malloc(65536): &char; let n: u64 = 0; let k: i64 = 1; while k > 0 { k = read(fd, buf + n, 4096); if k > 0 { n = n + (k: u64); } } close(fd); wr(1); wb(buf, n); }"""),
     'unlink': ('i', 'i', 'unlink(name(a0)); wr(0);'),
     'write': ('is', 'ii', 'let n = std::file::write(fl[a0], a1, n1); wr(if n < 0 => -1: i64 else n); wr(some());'),
     'writes': ('is', 'i', 'std::file::write_str(fl[a0], a1); wr(some());'),
     'writef': ('iis', 'ii', 'let n = std::file::writef(fl[a0], "(%l,%s)", a1, a2); wr(if n < 0 => -1: i64 else n); wr(some());'),
     'read': ('ii', 'si', "let p: &char = malloc(a1 + 1): &char; for let i: i64 = 0; i < a1; i++; { p[i] = 'Z'; } let q = std::file::read(fl[a0], p, a1): &char; wb(q, a1); wr(some());"),
     'readc': ('i', 'ii', 'let c: u8 = std::file::readc(fl[a0]); wr(c); wr(some());'),
     'all': ('i', 'sis', 'let t = std::file::read_all(fl[a0]); ws(t); wr(some()); if t == nil { ws(t); } else { std::string::append(&t, 33); ws(t); }'),
     'size': ('i', 'i', 'wr(std::file::size(fl[a0]));'),
     'tell': ('i', 'i', 'wr(std::file::tell(fl[a0]));'),
     'rewind': ('i', 'i', 'wr(fe(std::file::rewind(fl[a0]))); std::error::clear();'),
     'seek': ('iii', 'i', 'wr(fe(std::file::seek(fl[a0], a1, a2))); std::error::clear();'),
     'close': ('i', 'i', 'wr(fe(std::file::close(fl[a0]))); std::error::clear();'),
     'fopen': ('ii', 'iiisi', 'let fd = open(name(a1), 66, 384); let f = std::file::fopen(fd); let e = some(); if f == nil { wr(0); wr(e); wr(0); wb(nm, 0); wr(0); } else { fl[a0] = f; wr(if f.desc == fd => 1 else 2); wr(e); wr(f.mode); ws(f.path); wr(std::file::tell(f)); }'),
     'writep': ('is', 'ii', 'let n = std::file::writef(fl[a0], "%s", a1); wr(if n < 0 => -1: i64 else n); wr(some());'),
     'none': ('', 'iiiiiiiii', 'let z: &std::File = nil; let c: i8 = std::file::readc(z): i8; wr(c); wr(some()); wr(fe(std::file::close(z))); wr(std::file::size(z)); wr(some()); wr(fe(std::file::seek(z, 0, 0))); wr(std::file::tell(z)); wr(some()); wr(fe(std::file::rewind(z))); std::error::clear();'),
     'broken': ('', 'iiiiiiiiiiii', '''let f: std::File; f.desc = 999; f.mode = 3; f.offset = 5; let buf: char 'c[4]; buf[0] = 'q'; let n = std::file::write(&f, &buf[0], 4); wr(if n < 0 => -1: i64 else n); wr(some()); n = std::file::writef(&f, "%i", 1); wr(if n < 0 => -1: i64 else n); wr(some());
std::file::read(&f, &buf[0], 4); wr(buf[0]); wr(some()); std::file::readc(&f); wr(some()); wr(std::file::size(&f)); wr(some()); wr(fe(std::file::seek(&f, 3, 0))); wr(std::file::tell(&f)); wr(fe(std::file::close(&f))); std::error::clear();'''),
     'with': ('ii', 'si', 'with f = std::file::open(name(a1), std::file::READ) { let t = std::file::read_all(f); ws(t); wr(some()); } else { wb(nm, 0); wr(some()); }'),
    }
    return Driver('file', 'File', ops, ['file.csp', 'error.csp', 'string.csp'], decl)

def file_scripts(rng, n):
    out = {}
    for c in range(n):
        sc = []; disk = {}; h = {}
        for _ in range(40):
            free = [k for k in range(3) if k not in h]
            o = rng.choice('write write write writes writep writef read read read readc readc all size tell seek seek seek rewind close peek peek with unlink'.split())
            if not h or (free and rng.random() < .15): o = rng.choice(['open', 'open', 'open', 'fopen'])
            if o == 'fopen': f = rng.randint(0, 3); sc.append((o, free[0], f)); disk.setdefault(f, 0); h[free[0]] = [f, 7]; continue
            if rng.random() < .04: sc.append((rng.choice(['none', 'broken']),)); continue
            if o == 'open':
                f = rng.randint(0, 3); m = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 7, 7])
                sc.append((o, free[0], f, m))
                if m % 4 and (f in disk or m & 4): disk.setdefault(f, 0); h[free[0]] = [f, m]
                continue
            if o in ('peek', 'with'): sc.append((o, rng.randint(0, 3)) if o == 'peek' else (o, 0, rng.randint(0, 3))); continue
            if o == 'unlink':
                l = [f for f in disk if f not in [x[0] for x in h.values()]]
                if l: f = rng.choice(l); del disk[f]; sc.append((o, f))
                continue
            k = rng.choice(list(h)); body = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 9, 40, 300]), b'ab\n z' if rng.random() < .5 else bytes(range(1, 256)))
            if o == 'write': sc.append((o, k, rbytes(rng, rng.choice([0, 1, 2, 7, 100, 1000]), bytes(range(256))) if rng.random() < .4 else body))
            elif o in ('writes', 'writep'): sc.append((o, k, body if rng.random() < .7 else b''))
            elif o == 'writef': sc.append((o, k, rng.choice([0, 1, -1, 12345, -99999]), body))
            elif o == 'read': sc.append((o, k, rng.choice([0, 1, 2, 3, 8, 50, 700])))
            elif o == 'seek': sc.append((o, k, rng.choice([0, 0, 1, 2, 3, 10, -1, -2, -20, 400]), rng.choice([0, 0, 1, 1, 2, 2, 3])))
            else:
                sc.append((o, k))
                if o == 'close': del h[k]
        sc += [('peek', f) for f in range(4)]
        out[f'file_{c}'] = sc
    return out

def dir_driver():
    decl = '''type DP: &std::Directory;
let dl: DP 'c[2];
let tells: i64 'c[2000];
let cnt: i32 'c[2];
extern "C" {
    fn open(p: &char, flags: i32, mode: i32): i32;
    fn close(fd: i32): i32;
    fn unlink(p: &char): i32;
    fn mkdir(p: &char, mode: i32): i32;
    fn rmdir(p: &char): i32;
    fn chdir(p: &char): i32;
    fn stat(p: &char, b: &u64): i32;
    fn fcntl(fd: i32, c: i32, a: i32): i32;
}
fn fe(e: std::Error): i64 = if e.kind != 0 => 1: i64 else 0: i64;
fn some(): i64 { let b = std::error::is_some(); std::error::clear(); <- if b => 1: i64 else 0: i64; }
fn opened(k: i64, d: &std::Directory) { if d == nil { wr(0); wr(some()); } else { dl[k] = d; cnt[k] = 0; tells[k * 1000] = std::directory::tell(d); wr(if fcntl(std::directory::fd(d), 1, 0) == 1 => 1 else 2); wr(some()); } }
'''
    ops = {
     'make': ('si', 'i', 'if a1 == 4 { mkdir(a0, 448); } else { close(open(a0, 65, 384)); } wr(0);'),
     'remove': ('s', 'i', 'unlink(a0); rmdir(a0); wr(0);'),
     'open': ('i', 'ii', 'opened(a0, std::directory::open("."));'),
     'fopen': ('i', 'ii', 'opened(a0, std::directory::fopen(open(".", 65536, 0)));'),
     'stat': ('s', 'iiiiii', """let b: std::Stat; let r: u64 'c[20]; let k = std::syscall::stat(a0, &b); let l = stat(a0, &r[0]);
if k != 0 || l != 0 { wr(-1); wr(0); wr(0); wr(0); wr(0); wr(0); } else { wr(if S_ISDIR!(b.mode) => 4 else 8); wr(b.mode & 511); wr(b.uid); wr(b.gid); wr(if b.ino == r[1] && b.dev == r[0] && b.nlink == r[2] && b.rdev == r[5] => 1 else 0);
wr(if b.size == r[6] && b.blksize == r[7] && b.blocks == r[8] && b.atime == r[9] && b.atimensec == r[10] && b.mtime == r[11] && b.mtimensec == r[12] && b.ctime == r[13] && b.ctimensec == r[14] => 1 else 0); }"""),
     'bad': ('i', 'ii', """let d: &std::Directory = nil; let fd = -1;
if a0 == 0 { d = std::directory::open("missing"); }
if a0 == 1 { d = std::directory::open("../plain"); }
if a0 == 2 { d = std::directory::fopen(-1); std::error::new(std::Errno::BADF, ""); }
if a0 == 3 { fd = open("../plain", 0, 0); d = std::directory::fopen(fd); }
if a0 == 4 { fd = open(".", 2097152, 0); d = std::directory::fopen(fd); }
if fd >= 0 { close(fd); }
wr(if d == nil => 0 else 1); wr(some());"""),
     'read': ('i', 'sii', """let e = std::directory::read(dl[a0]); if e == nil { ws(nil); wr(0); wr(1); } else { let t = e.name: &char; ws(t); wr(e.type_); let l: u64 = len t; wr(if e.reclen % 8 == 0 && (e.reclen: u64) >= l + 20 && e.ino != 0 => 1 else 0);
 cnt[a0] = cnt[a0] + 1; tells[a0 * 1000 + cnt[a0]] = std::directory::tell(dl[a0]); }"""),
     'lost': ('', 'iii', 'mkdir("../gone", 448); let d = std::directory::open("../gone"); rmdir("../gone"); let e = std::directory::read(d); wr(if e == nil => 1 else 0); wr(some()); wr(std::directory::close(d)); std::error::clear();'),
     'none': ('', 'iiiii', 'let z: &std::Directory = nil; wr(std::directory::tell(z)); wr(some()); wr(fe(std::directory::seek(z, 0))); wr(fe(std::directory::rewind(z))); std::error::clear(); wr(std::directory::fd(z));'),
     'rewind': ('i', 'ii', 'wr(fe(std::directory::rewind(dl[a0]))); cnt[a0] = 0; wr(std::directory::tell(dl[a0]));'),
     'seek': ('ii', 'i', 'wr(fe(std::directory::seek(dl[a0], tells[a0 * 1000 + a1]))); cnt[a0] = a1;'),
     'close': ('i', 'i', 'wr(std::directory::close(dl[a0]));'),
    }
    setup = 'close(open("plain", 65, 384)); mkdir("d", 448); chdir("d");'
    return Driver('dir', 'Directory', ops, ['directory.csp', 'error.csp'], decl, setup)

def dir_scripts(rng, n):
    out = {}
    for c in range(n):
        sc = []; names = []
        big = c % 4 == 0
        def make():
            t = rbytes(rng, rng.choice([1, 2, 3, 8, 30, 60] if not big else [20, 50, 100]), b'abcdefgh_-XYZ0')
            if t not in names: names.append(t); sc.append(('make', t, rng.choice([4, 8, 8])))
        for _ in range(rng.choice([0, 1, 3, 6]) if not big else rng.choice([30, 60])): make()
        for _ in range(3):
            h = {}
            for _ in range(rng.choice([10, 30]) + 2 * len(names)):
                free = [k for k in (0, 1) if k not in h]
                if not h or (free and rng.random() < .05): k = free[0]; sc.append((rng.choice(['open', 'fopen']), k)); h[k] = 0; continue
                if rng.random() < .02: sc.append((rng.choice(['lost', 'none']),)); continue
                k = rng.choice(list(h)); o = rng.choice(['read'] * (12 if not big else 60) + ['rewind', 'seek', 'bad', 'close'])
                if o == 'read': sc.append((o, k)); h[k] = min(h[k] + 1, len(names) + 2)
                elif o == 'rewind': sc.append((o, k)); h[k] = 0
                elif o == 'seek':
                    if h[k]: p = rng.randint(0, h[k]); sc.append((o, k, p)); h[k] = p
                elif o == 'bad': sc.append((o, rng.randint(0, 4)))
                else: sc.append((o, k)); del h[k]
            for k in h:
                sc += [('read', k)] * (len(names) + 3 - h[k]); sc.append(('close', k))
            if names: sc.append(('stat', rng.choice(names + [b'.', b'none'])))
            for _ in range(rng.randint(0, 3)): make()
            if names and rng.random() < .7: t = names.pop(rng.randrange(len(names))); sc.append(('remove', t))
        out[f'dir_{c}'] = sc
    return out

# ---------------------------------------------------------------- the kernel's interface, clocks
# wrapper: types of its parameters (they decide how a 64-bit word reaches it)
SYSCALLS = {}
for _l in '''read i32,&void,usize|write i32,&const void,usize|open &const char,i32,mode_t|close i32|stat &const char,&Stat|fstat i32,&Stat|lstat &const char,&Stat
poll &PollFd,nfds_t,i32|lseek i32,Offset,i32|mmap &void,usize,i64,i32,i32,Offset|mprotect &void,usize,i64|munmap &void,usize|brk u64|ioctl i32,i32,u64
pread64 i32,&void,usize,Offset|pwrite64 i32,&void,usize,Offset|readv i32,&IOVec,i32|writev i32,&IOVec,i32|access &const char,i32|pipe &i32|time &TimeVal|shed_yield
mremap &void,usize,usize,u64|msync &void,usize,i32|mincore &void,usize,&u8|madvise &void,usize,i32|shmget key_t,usize,i32|shmat i32,&const void,i32|dup i32|dup2 i32,i32
pause|nanosleep &const TimeSpec,&TimeSpec|alarm u32|getpid|sendfile i32,i32,&Offset,usize|socket i32,i32,i32|accept i32,&SockAddr,&socklen_t|sendto i32,&const void,usize,i32
recvfrom i32,&void,usize,i32,&SockAddr,&socklen_t|shutdown i32,i32|bind i32,&const SockAddr,socklen_t|listen i32,i32|getsockname i32,&SockAddr,&socklen_t
getpeername i32,&SockAddr,&socklen_t|socketpair i32,i32,i32,&i32|setsockopt i32,i32,i32,&const void,socklen_t|getsockopt i32,i32,i32,&void,&socklen_t
clone FN,&void,i32,&void|fork|vfork|execve &const char,ARGV,ARGV|wait4 pid_t,&i32,i32,u64|kill pid_t,i32|getppid|uname &UTSName|semget key_t,i32,i32
semop i32,&sembuf,usize|semctl i32,i32,i32|shmdt &const void|msgget key_t,i32|msgsnd i32,&const void,usize,i32|msgrcv i32,&void,usize,i64,i32|fcntl i32,i32|fcntl2 i32,i32,i32
flock i32,i32|fsync i32|fdatasync i32|truncate &const char,Offset|ftruncate i32,Offset|getdents u32,&void,u32|getdents64 u32,&void,u32|getcwd &char,usize|chdir &const char|fchdir i32
rename &const char,&const char|mkdir &const char,mode_t|rmdir &const char|creat &const char,mode_t|link &const char,&const char|unlink &const char|symlink &const char,&const char
readlink &const char,&char,usize|chmod &const char,mode_t|fchmod i32,mode_t|clock_gettime Clock,&TimeSpec|clock_settime Clock,&const TimeSpec|gettimeofday &TimeSpec,u64'''.replace('\n', '|').split('|'):
    _n, _, _a = _l.partition(' ')
    SYSCALLS[_n] = [x for x in _a.split(',') if x]

def kernel_driver():
    base = {'i32', 'i64', 'u32', 'u64', '&void', '&const void', '&char', '&const char', '&i32', '&u8'}
    def ty(t):
        if t in base: return t
        if t == 'FN': return 'fn<i32>(&void)'
        if t == 'ARGV': return '&&const char'
        for p in ('&const ', '&', ''):
            if t.startswith(p) and p: return ty(t[len(p):]) and p + (t[len(p):] if t[len(p):] in base else 'std::' + t[len(p):])
        return 'std::' + t
    decl = '''
fn ctl(n: i64, a: i64, b: i64, c: i64): i64 { let r: i64 = 0; asm "mov " a ", %rdi;" "mov " b ", %rsi;" "mov " c ", %rdx;" "mov " n ", %rax;" "syscall;" "mov %rax, " &r; <- r; }
extern "C" { fn _exit(c: i32); }
let calls: i64 = 0;
let limit: i64 = 0;
fn again(): bool { calls = calls + 1; <- calls <= limit; }
'''
    ops = {}
    for n, tys in SYSCALLS.items():
        args = ', '.join(f'(a{i}: {ty(t)})' for i, t in enumerate(tys))
        ops[n] = ('wwwwwww', 'wwwwwwwww', f'ctl(9990, a6, 0, 0); let r = std::syscall::{n}({args}): i64; wr(ctl(9991, 7, 0, 0)); for let k: i64 = 0; k < 7; k++; {{ wr(ctl(9991, k, 0, 0)); }} wr(r);')
    ops.update({
     'begin': ('wii', 'i', 'wr(ctl(9992, a0, a1, a2));'),
     'date': ('', 'iiiiiiwi', 'let t = std::time::get(); wr(t.year); wr(t.month); wr(t.day); wr(t.hour); wr(t.minute); wr(t.second); wr(t.ts.tv_sec); wr(t.ts.tv_usec);'),
     'now': ('', 'iwi', 'let t: std::TimeSpec; wr(std::clock::get_time(std::clock::REALTIME, &t)); wr(t.tv_sec); wr(t.tv_nsec);'),
     'tod': ('', 'wi', 'let t = std::clock::get_time_of_day(); wr(t.tv_sec); wr(t.tv_usec);'),
     'secs': ('', 'w', 'let t = std::time::unix::secs(); wr(t.tv_sec);'),
     'setnow': ('wi', 'i', 'let t = std::TimeSpec::{a0, a1}; wr(std::clock::set_time(std::clock::REALTIME, &t));'),
     'other': ('i', 'i', 'let t: std::TimeSpec; wr(std::clock::get_time(a0, &t));'),
     'sleep': ('wi', 'i', 'let t = std::TimeSpec::{a0, a1}; let u: std::TimeSpec; std::timer::nanosleep(&t, &u); wr(0);'),
     'delay': ('i', 'i', 'let t = std::timer::delay(a0); wr(t.tv_sec + t.tv_nsec);'),
     'until': ('ii', 'i', 'calls = 0; limit = a1; std::timer::do_each_until(a0, again: fn<bool>); wr(calls);'),
    })
    return Driver('kernel', 'Kernel', ops, ['syscall.csp', 'time.csp', 'net.csp', 'io.csp', 'system.csp'], decl, 'if ctl(9991, 7, 0, 0) < 0 { _exit(3); }')

def kernel_scripts(rng, n):
    out = {}
    def word():
        x = rng.random()
        if x < .4: return rng.getrandbits(64)
        if x < .6: return rng.getrandbits(31)
        if x < .8: return rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1])
        return rng.getrandbits(8) << rng.choice([0, 8, 24, 31, 32, 56])
    def answer():
        x = rng.random()
        if x < .4: return (-rng.randint(1, 133)) & (2**64 - 1)
        if x < .6: return rng.randint(0, 9)
        return rng.getrandbits(31) if x < .8 else word()
    names = list(SYSCALLS)
    for c in range(n):
        l = names[:]; rng.shuffle(l)
        out[f'kernel_{c}'] = [(o, *[word() for _ in range(6)], answer()) for o in l]
    return out

def clock_scripts(rng, n):
    out = {}
    edges = []
    import datetime
    for y in (1970, 1971, 1972, 1999, 2000, 2001, 2004, 2024, 2038, 2096, 2099, 2100, 2101, 2104, 2199, 2200, 2300, 2399, 2400, 2401, 2500, 3000, 4000, 9999):
        for m, d in ((1, 1), (1, 31), (2, 28), (3, 1), (3, 31), (4, 30), (5, 31), (6, 30), (7, 31), (8, 31), (9, 30), (10, 31), (11, 30), (12, 1), (12, 31)):
            edges.append((datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days)
    for c in range(n):
        sc = []
        for _ in range(8):
            x = rng.random()
            day = rng.choice(edges) if x < .4 else rng.randint(0, 50000) if x < .8 else rng.randint(0, 23_000_000)
            s = day * 86400 + rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, rng.randint(0, 86399)])
            sc.append(('begin', s, rng.choice([0, 1, 999, 1000, 999_999_999, rng.randint(0, 999_999_999)]), int(rng.random() < .25)))
            for _ in range(10):
                o = rng.choice(['date', 'date', 'date', 'now', 'tod', 'secs', 'setnow', 'other', 'sleep', 'delay', 'delay', 'until'])
                ns = rng.choice([0, 1, 500_000_000, 999_999_999, rng.randint(0, 999_999_999)])
                if o == 'setnow': sc.append((o, rng.randint(0, 2**31), ns))
                elif o == 'other': sc.append((o, rng.choice([7, 9, 12, 100])))
                elif o == 'sleep': sc.append((o, rng.choice([0, 1, 60, rng.randint(0, 10**9)]), ns))
                elif o == 'delay': sc.append((o, rng.choice([0, 1, 9, 10, 999, 1000, 1001, 1500, 60_000, rng.randint(0, 2**31 - 1)])))
                elif o == 'until': sc.append((o, rng.choice([0, 1, 5, 250, 1000, 1700]), rng.randint(0, 5)))
                else: sc.append((o,))
                if o in ('delay', 'until', 'sleep', 'setnow'): sc.append(('now',))
        out[f'clock_{c}'] = sc
    return out

# ---------------------------------------------------------------- processes, assertions, tests
def process_driver():
    decl = '''
extern "C" {
    fn open(p: &char, flags: i32, mode: i32): i32;
    fn close(fd: i32): i32;
    fn dup(fd: i32): i32;
    fn dup2(a: i32, b: i32): i32;
    fn pause(): i32;
    fn unlink(p: &char): i32;
    fn _exit(c: i32);
    fn getpid(): i32;
    fn prctl(what: i32, x: u64): i32;
}
let sv: i32 'c[2];
let slots: i32 'c[3];
let beh: &char = nil;
fn redirect(name: &char, to: i32) { let f = open(name, 1601, 384); dup2(f, to); close(f); }
fn cap() { sv[0] = dup(1); sv[1] = dup(2); redirect("cap1", 1); redirect("cap2", 2); }
fn uncap() { dup2(sv[0], 1); dup2(sv[1], 2); close(sv[0]); close(sv[1]); }
fn show(name: &char) { let f = open(name, 0, 0); if f < 0 { wr(0); ret; } let b: &char = malloc(65536); let n: u64 = 0; let k: i64 = 1; while k > 0 { k = read(f, b + n, 60000 - n); if k > 0 { n = n + (k: u64); } } close(f); wb(b, n); }
fn note(k: i64, code: i64) { let f = open("log", 1089, 384); let b: char 'c[2]; b[0] = (k: char); b[1] = (code: char); write(f, &b[0], 2); close(f); }
fn h0(c: std::ExitCode) { note(0, c); }
fn h1(c: std::ExitCode) { note(1, c); }
fn h2(c: std::ExitCode) { note(2, c); }
fn handler(k: i64): bool { if k == 0 { <- std::process::at_exit(h0: fn(std::ExitCode)); } if k == 1 { <- std::process::at_exit(h1: fn(std::ExitCode)); } <- std::process::at_exit(h2: fn(std::ExitCode)); }
fn do4(x: i64, t: &char, go: bool): i64 { if go { assert!(x != 0, t); } <- __line__!; }
fn do5(x: i64, t: &char, go: bool): i64 { if go { assert!(x != 0); } <- __line__!; }
fn do6(x: i64, t: &char, go: bool): i64 { if go { assert_false!(x != 0, t); } <- __line__!; }
fn do7(t: &char, go: bool): i64 { if go { todo!(t); } <- __line__!; }
fn do8(go: bool): i64 { if go { todo!; } <- __line__!; }
fn do9(t: &char, go: bool): i64 { if go { unreachable!(t); } <- __line__!; }
fn do10(go: bool): i64 { if go { unreachable!; } <- __line__!; }
fn do11(go: bool): i64 { if go { not_implemented!; } <- __line__!; }
fn do12(go: bool): i64 { if go { not_implemented!("the thing"); } <- __line__!; }
fn act(how: i64, x: i64, t: &char, go: bool): i64 {
    if how == 4 { <- do4(x, t, go); }
    if how == 5 { <- do5(x, t, go); }
    if how == 6 { <- do6(x, t, go); }
    if how == 7 { <- do7(t, go); }
    if how == 8 { <- do8(go); }
    if how == 9 { <- do9(t, go); }
    if how == 10 { <- do10(go); }
    if how == 11 { <- do11(go); }
    if how == 12 { <- do12(go); }
    if go {
        if how == 0 { std::process::exit(x: std::ExitCode); }
        if how == 1 { std::process::die(t); }
        if how == 2 { std::process::panic(t); }
        if how == 3 { std::process::kill(std::process::getpid(), x); }
        if how == 13 { handler(x); std::process::exit(3: std::ExitCode); }
        if how == 14 { std::process::die(nil); }
    }
    <- 0;
}
fn status(s: i32) { wr(if std::process::exited(s) => 1 else 0); wr(std::process::exit_status(s)); wr(if std::process::signaled(s) => 1 else 0); wr(std::process::term_sig(s)); wr(if std::process::stopped(s) => 1 else 0); wr(std::process::stop_sig(s)); }
fn one(t: &std::Testing) {
    using std::testing;
    let b = beh[t.current]: i64;
    if b >= 1 && b <= 9 { for let i: i64 = 0; i < b; i++; { assert(t, false, "bad %l", i); assert(t, true, "no"); } }
    if b == 10 { skip(t); }
    if b == 11 { assert(t, false, "first"); assert_fatal(t, false, "then %s", "over"); assert(t, false, "never"); }
    if b == 12 { std::process::kill(std::process::getpid(), std::process::SIGSEGV); }
    if b == 13 { assert(t, true, "no"); assert_false(t, false, "no"); assert_fatal(t, true, "no"); }
    if b == 14 { assert_false(t, true, "was true"); }
    if b == 15 { std::io::printf("<out %l>", b); std::io::eprintf("<err>"); }
    if b == 16 { std::process::exit(0: std::ExitCode); }
    if b >= 17 && b <= 20 { let n = if b == 17 => 254 else if b == 18 => 255 else if b == 19 => 256 else 511; for let i = 0; i < n; i++; { t.errors++; } }
    if b == 22 { log(t, "log %l", b); }
    if b == 21 { std::process::kill(std::process::getpid(), std::process::SIGKILL); }
}
let names: &char = "t0\\0t1\\0t2\\0t3\\0t4\\0t5\\0t6\\0t7\\0";
fn suite(n: i64): std::Testing {
    let raw: &i64 = malloc(8 + 64 * 16): &i64;
    raw[0] = n;
    for let i: i64 = 0; i < n; i++; { let p = ((raw: &void) + 8 + i * 16): &std::testing::Test; *p = std::testing::Test::{one: const fn(&std::Testing), (names + 3 * i): &const char}; }
    let t: std::Testing; t.tests = (raw: &(std::testing::Test[])); <- t;
}
'''
    rep = 'show("cap1"); show("cap2"); show("log");'
    ops = {
     'handler': ('i', 'i', 'wr(if handler(a0) => 1 else 0);'),
     'handlers': ('ii', 'i', 'let n = 0; for let i: i64 = 0; i < a1; i++; { if handler(a0) { n++; } } wr(n);'),
     'enable': ('', 'i', 'std::assert::enable(); wr(if std::assert::status() => 1 else 0);'),
     'disable': ('', 'i', 'std::assert::disable(); wr(if std::assert::status() => 1 else 0);'),
     'child': ('iis', 'iiiiiiiiisss', '''unlink("log"); let line = act(a0, a1, a2, false); cap(); let pid = std::process::fork(); if pid == 0 { act(a0, a1, a2, true); _exit(77); } uncap();
let st: i32 = 0; let w = std::process::waitpid(pid, &st, 0); wr(if pid > 0 && w == pid => 1 else 0); status(st); wr(line); wr(st & 65535); ''' + rep),
     'decode': ('i', 'iiiiii', 'status(a0);'),
     'name': ('i', 's', 'let t = std::process::signum_str(a0): &char; ws(t);'),
     'pids': ('', 'i', 'wr(if std::process::getpid() == getpid() => 1 else 0);'),
     'spawn': ('i', 'i', 'let p = std::process::fork(); if p == 0 { prctl(1, 9); loop { pause(); } } slots[a0] = p; wr(if p > 0 => 1 else 0);'),
     'poll': ('i', 'iiiiiii', 'let st: i32 = 0; let w = std::process::waitpid(slots[a0], &st, 1); wr(if w == slots[a0] => 1 else if w == 0 => 0 else -1); status(st);'),
     'reap': ('i', 'iiiiiii', 'let st: i32 = 0; let w = std::process::waitpid(slots[a0], &st, 0); wr(if w == slots[a0] => 1 else if w == 0 => 0 else -1); status(st);'),
     'kill': ('ii', 'i', 'wr(if slots[a0] > 0 => std::process::kill(slots[a0], a1) else -9);'),
     'stop': ('i', 'iiiiiii', 'let st: i32 = 0; std::process::kill(slots[a0], std::process::SIGSTOP); let w = std::process::waitpid(slots[a0], &st, 2); wr(if w == slots[a0] => 1 else 0); status(st);'),
     'cont': ('i', 'iiiiiii', 'let st: i32 = 0; std::process::kill(slots[a0], std::process::SIGCONT); let w = std::process::waitpid(slots[a0], &st, 8); wr(if w == slots[a0] => 1 else 0); status(st);'),
     'exec': ('isss', 'iiiiiiiss', '''unlink("log"); cap(); let pid = std::process::fork(); if pid == 0 { let av: &&char = malloc(64): &&char; let ev: &&char = malloc(64): &&char; av[0] = "sh"; av[1] = "-c"; av[2] = a3; av[3] = a1; av[4] = a2; av[5] = nil; ev[0] = "PATH=/bin"; ev[1] = a2; ev[2] = nil;
  std::process::execve(if a0 == 0 => "/bin/sh" else "/nowhere/sh", av: &&const char, ev: &&const char); std::process::exit(99: std::ExitCode); } uncap();
let st: i32 = 0; let w = std::process::waitpid(pid, &st, 0); wr(if w == pid => 1 else 0); status(st); show("cap1"); show("log");'''),
     'suite': ('s', 'iiiisss', 'unlink("log"); beh = a0; let t = suite(n0); cap(); let r = std::testing::run_all(&t); uncap(); wr(r); wr(t.successful); wr(t.skipped); wr(t.failed); ' + rep),
     'run': ('si', 'iisss', 'unlink("log"); beh = a0; let t = suite(n0); cap(); let r = std::testing::run(&t, a1); uncap(); wr(r); wr(if std::error::is_some() => 1 else 0); std::error::clear(); ' + rep),
     'nothing': ('', 'iiiiiii', '''let z: &std::Testing = nil; std::error::clear(); wr(std::testing::run(z, 0)); wr(if std::error::is_some() => 1 else 0); std::error::clear(); wr(std::testing::run_all(z)); wr(if std::error::is_some() => 1 else 0); std::error::clear();
std::testing::assert(z, false, "x"); wr(if std::error::is_some() => 1 else 0); std::error::clear(); std::testing::assert_false(z, true, "x"); wr(if std::error::is_some() => 1 else 0); std::error::clear(); std::testing::assert_fatal(z, false, "x"); wr(if std::error::is_some() => 1 else 0); std::error::clear();'''),
    }
    return Driver('process', 'Process', ops, ['process.csp', 'assert.csp', 'testing.csp', 'io.csp', 'error.csp'], decl)

def process_line(drv):
    """the line of the driver's first function that may abort"""
    return next(i for i, l in enumerate(drv.source().split('\n'), 1) if l.startswith('fn do4('))

DEADLY = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31]
def process_scripts(rng, n):
    out = {}
    txt = lambda: rbytes(rng, rng.choice([0, 1, 5, 20, 80]), bytes(range(32, 127)) + b'%%%s\n\t\x80\xff')
    suite = lambda: bytes(rng.choice([0, 0, 0, 1, rng.randint(1, 9), 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8])))
    for c in range(n):
        sc = []; st = {}
        if c == 0: sc += [('name', k) for k in range(-1, 40)] + [('decode', k) for k in range(0, 256)]
        if c == 1: sc += [('decode', k * 256 + j) for k in range(256) for j in (0, 1, 9, 126, 127, 128, 137, 255)]
        if c == 2: sc += [('child', 3, k, b'') for k in DEADLY + [0, 17, 23, 28]]
        if c == 3: sc += [('child', 0, k, b'') for k in (0, 1, 2, 127, 128, 255, 256, 257, 511, 1000)] + [('child', k, x, b'50% %s') for k in range(4, 13) for x in (0, 1)] + [('nothing',), ('pids',), ('child', 14, 0, b'')]
        if c == 4: sc += [('handlers', 0, 1000), ('handlers', 1, 20), ('child', 0, 3, b''), ('child', 13, 2, b''), ('handlers', 2, 3), ('handler', 2), ('handlers', 1, 9), ('child', 13, 2, b''), ('child', 1, 0, b'bye')]
        if c == 5: sc += [('suite', bytes([k])) for k in range(23)] + [('suite', b''), ('suite', b'\n\n'), ('suite', bytes(8)), ('run', bytes(3), 3), ('run', b'', 0), ('run', bytes(3), 2)]
        for _ in range(rng.choice([4, 10, 20])):
            o = rng.choice(['handler', 'handler', 'enable', 'disable', 'child', 'child', 'child', 'child', 'decode', 'name', 'pids', 'watch', 'watch', 'watch', 'watch', 'watch', 'watch', 'exec', 'suite', 'run'])
            if o == 'handler' and rng.random() < .1: sc.append(('handlers', rng.randint(0, 2), rng.choice([2, 10, 50])))
            elif o == 'handler': sc.append((o, rng.randint(0, 2)))
            elif o in ('enable', 'disable', 'pids'): sc.append((o,))
            elif o == 'child':
                k = rng.randint(0, 13)
                x = rng.choice(DEADLY) if k == 3 else rng.randint(0, 2) if k == 13 else rng.choice([0, 1]) if k in (4, 5, 6) else rng.randint(0, 600)
                sc.append((o, k, x, txt()))
            elif o == 'decode': sc.append((o, rng.choice([rng.randint(0, 65535), rng.randint(0, 255) * 256, rng.randint(0, 255), rng.randint(0, 255) * 256 + 127])))
            elif o == 'name': sc.append((o, rng.randint(0, 34)))
            elif o == 'exec': v = rng.choice([0, 1, 7, 99, 200, 255]); sc.append((o, rng.choice([0, 0, 0, 1]), str(v).encode(), b'A=' + rbytes(rng, rng.randint(1, 9), b'abcXYZ019'), b'echo $0 $A; exit $0'))
            elif o == 'suite': sc.append((o, suite()))
            elif o == 'run': b = suite(); sc.append((o, b, rng.randint(0, len(b) + 1)))
            else:
                k = rng.randint(0, 2); s = st.get(k)
                if s is None: sc.append(('spawn', k)); st[k] = 'run'
                elif s == 'doomed': sc.append(('reap', k)); del st[k]
                elif s == 'run':
                    w = rng.choice(['poll', 'stop', 'kill', 'kill0'])
                    if w == 'poll': sc.append((w, k))
                    elif w == 'stop': sc.append((w, k)); st[k] = 'stop'
                    elif w == 'kill0': sc.append(('kill', k, 0))
                    else: sc.append(('kill', k, rng.choice(DEADLY))); st[k] = 'doomed'
                else:
                    w = rng.choice(['poll', 'cont', 'kill', 'kill0'])
                    if w == 'poll': sc.append((w, k))
                    elif w == 'cont': sc.append((w, k)); st[k] = 'run'
                    elif w == 'kill0': sc.append(('kill', k, 0))
                    else: sc.append(('kill', k, 9)); st[k] = 'doomed'
        for k, s in st.items():
            if s != 'doomed': sc.append(('kill', k, 9))
            sc.append(('reap', k))
        out[f'process_{c}'] = sc
    return out

# ------------------------------------------------ threads
def thread_driver():
    decl = '''
extern "C" {
    fn pipe(p: &i32): i32;
    fn close(fd: i32): i32;
    fn usleep(n: u32): i32;
}
type Box: struct { inr: i32, inw: i32, outr: i32, outw: i32, acc: i64, done: i64, bad: i64, data: i64, mode: i64 };
let slot: (&std::Thread) 'c[4];
let box: (&Box) 'c[4];
let handle: libc::PThread 'c[4];
let shared: i64 = 0;
let mutex: libc::PThreadMutex;
let cond: libc::PThreadCond;
let barrier: libc::PThreadBarrier;
let rw: libc::PThreadRWLock;
fn put(fd: i32, v: i64) { write(fd, &v, 8); }
fn get(fd: i32): i64 { let v: i64 = -77; if read(fd, &v, 8) != 8 { <- -78; } <- v; }
fn b2i(b: bool): i64 { <- if b => 1: i64 else 0: i64; }
fn newbox(data: i64): &Box { let b: &Box = malloc(sizeof Box): &Box; let p: i32 'c[2]; pipe(&p[0]); b.inr = p[0]; b.inw = p[1]; pipe(&p[0]); b.outr = p[0]; b.outw = p[1]; b.acc = 0; b.done = 0; b.bad = 0; b.data = data; b.mode = 0; <- b; }
fn drop(b: &Box) { close(b.inr); close(b.inw); close(b.outr); close(b.outw); }
fn deep(b: &Box) { b.done = 1; put(b.outw, 99); std::thread::exit(); b.bad = 1; put(b.outw, 98); }
fn body(t: &std::Thread) {
    let b = std::thread::get_userdata(t): &Box;
    let me = std::thread::self();
    put(b.outw, b.data); put(b.outw, b2i(std::thread::equal(&me, t)));
    let local: i64 = 0;
    loop {
        let c = get(b.inr);
        if c == -1 { b.done = 1; put(b.outw, 99); ret; }
        if c == -2 { deep(b); b.bad = 1; }
        if c == -3 { usleep(4000); b.done = 1; put(b.outw, 99); ret; }
        if c == -4 { put(b.outw, (std::thread::get_userdata(t): &Box).data); }
        if c == -5 { let other = get(b.inr); let o = slot[other]; let who = std::thread::self(); put(b.outw, b2i(std::thread::equal(&who, o))); }
        if c == -6 { let other = get(b.inr); let o = slot[other]; let e = std::thread::join(o); put(b.outw, e.kind); put(b.outw, box[other].done); }
        if c >= 0 { local = local + c; b.acc = b.acc + c; put(b.outw, local); }
    }
}
fn adder(t: &std::Thread) {
    let b = std::thread::get_userdata(t): &Box;
    using libc::pthread;
    if b.mode == 2 { pthread_barrier_wait(&barrier); }
    for let i: i64 = 0; i < b.data; i++; {
        if b.mode == 1 { pthread_rwlock_wrlock(&rw); let v = shared; shared = v + 1; pthread_rwlock_unlock(&rw); }
        else { pthread_mutex_lock(&mutex); let v = shared; shared = v + 1; pthread_mutex_unlock(&mutex); }
    }
    if b.mode == 3 { pthread_mutex_lock(&mutex); b.done = 1; pthread_cond_signal(&cond); pthread_mutex_unlock(&mutex); }
    b.done = 1;
}
let ran: i64 = 0;
fn once(t: &std::Thread) { usleep(2000); if std::thread::get_userdata(t) == nil { ran = ran + 1; } else { ran = -1000; } }
fn leaves(t: &std::Thread) { usleep(1000); ran = ran + 1; std::thread::exit(); ran = -1000; }
fn scoped(b: &Box) { with t = std::thread::create(slowly: const fn(&std::Thread), b: &void) { b.acc = b.acc + 1; } }
fn slowly(t: &std::Thread) { let b = std::thread::get_userdata(t): &Box; usleep(3000); b.done = 1; }
fn quick(t: &std::Thread) { let b = std::thread::get_userdata(t): &Box; b.done = b.done + 1; }
fn some(): i64 { let b = std::error::is_some(); std::error::clear(); <- b2i(b); }
let code: i64 = 0;
fn forever(t: &std::Thread) { loop { usleep(1000000); } }
fn leaver(t: &std::Thread) { std::process::exit(code: std::ExitCode); }
'''
    ops = {
     'leave': ('ii', 'iii', '''code = a1; let pid = std::process::fork(); if pid == 0 { let f = std::thread::create(forever: const fn(&std::Thread), nil); if a0 == 0 { std::process::exit(a1: std::ExitCode); } if a0 == 1 { let t = std::thread::create(leaver: const fn(&std::Thread), nil); std::thread::join(f); } std::process::panic("x"); }
let st: i32 = 0; let w = std::process::waitpid(pid, &st, 0); wr(b2i(w == pid)); wr(b2i(std::process::exited(st))); wr(std::process::exit_status(st));'''),
     'create': ('ii', 'iiii', '''let b = newbox(a1); box[a0] = b; let t = std::thread::create(body: const fn(&std::Thread), b: &void); slot[a0] = t; if t == nil { wr(0); wr(0); wr(0); wr(0); } else { handle[a0] = t.pt; wr(1); wr(get(b.outr)); wr(get(b.outr));
let me = std::thread::self(); wr(b2i(std::thread::get_userdata(t) == (b: &void)) + 2 * b2i(std::thread::get_pthread(t) == handle[a0]) + 4 * b2i(std::thread::equal(&me, t)) + 8 * b2i(t.running)); }'''),
     'ask': ('ii', 'ii', 'put(box[a0].inw, a1); wr(get(box[a0].outr)); wr(box[a0].acc);'),
     'data': ('i', 'i', 'put(box[a0].inw, -4); wr(get(box[a0].outr));'),
     'is': ('ii', 'i', 'put(box[a0].inw, -5); put(box[a0].inw, a1); wr(get(box[a0].outr));'),
     'same': ('ii', 'i', 'wr(b2i(std::thread::equal(slot[a0], slot[a1])));'),
     'end': ('ii', '', 'put(box[a0].inw, -a1);'),
     'join': ('i', 'iiiis', 'let e = std::thread::join(slot[a0]); wr(e.kind); wr(box[a0].done); wr(box[a0].bad); wr(b2i(slot[a0].running)); ws(e.msg: &char);'),
     'joinby': ('ii', 'ii', 'put(box[a1].inw, -6); put(box[a1].inw, a0); wr(get(box[a1].outr)); wr(get(box[a1].outr));'),
     'detach': ('i', 'ii', 'let e = std::thread::detach(slot[a0]); wr(e.kind); wr(b2i(slot[a0].running)); std::error::clear();'),
     'gone': ('i', 'iii', 'wr(get(box[a0].outr)); wr(box[a0].done); usleep(300); wr(box[a0].bad); drop(box[a0]);'),
     'peek': ('i', 'i', 'wr(box[a0].done);'),
     'async': ('i', 'iiss', 'let n: i64 = ran; std::error::clear(); let e = if a0 == 0 => std::thread::async(once: const fn(&std::Thread)) else std::thread::async(leaves: const fn(&std::Thread)); wr(ran - n); wr(e.kind); ws(e.msg: &char); let c = std::error::current(); ws(c.msg: &char);'),
     'stale': ('is', 'iis', 'std::error::new(a0, a1); let n: i64 = ran; let e = std::thread::async(once: const fn(&std::Thread)); wr(ran - n); wr(e.kind); ws(e.msg: &char); std::error::clear();'),
     'scope': ('i', 'ii', 'let b = newbox(a0); scoped(b); wr(b.done); wr(b.acc); drop(b);'),
     'race': ('iii', 'ii', '''using libc::pthread; shared = 0; pthread_mutex_init(&mutex, nil); pthread_rwlock_init(&rw, nil); pthread_cond_init(&cond, nil); if a2 == 2 { pthread_barrier_init(&barrier, nil, a0); }
let ts: (&std::Thread) 'c[8]; let bs: (&Box) 'c[8]; for let i: i64 = 0; i < a0; i++; { let b: &Box = malloc(sizeof Box): &Box; b.data = a1; b.mode = a2; b.done = 0; bs[i] = b; ts[i] = std::thread::create(adder: const fn(&std::Thread), b: &void); }
if a2 == 3 { pthread_mutex_lock(&mutex); let all = false; while !all { all = true; for let i: i64 = 0; i < a0; i++; { if bs[i].done == 0 { all = false; } } if !all { pthread_cond_wait(&cond, &mutex); } } let v = shared; pthread_mutex_unlock(&mutex); wr(v); for let i: i64 = 0; i < a0; i++; { std::thread::join(ts[i]); } }
else { for let i: i64 = 0; i < a0; i++; { std::thread::join(ts[i]); } wr(shared); }
let d: i64 = 0; for let i: i64 = 0; i < a0; i++; { d = d + bs[i].done; } wr(d); if a2 == 2 { pthread_barrier_destroy(&barrier); } pthread_mutex_destroy(&mutex); pthread_cond_destroy(&cond); pthread_rwlock_destroy(&rw);'''),
     'lock': ('', 'iiiiii', '''using libc::pthread; let a: libc::PThreadMutexAttr; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE!); pthread_mutex_init(&mutex, &a); wr(pthread_mutex_lock(&mutex)); wr(pthread_mutex_trylock(&mutex)); wr(pthread_mutex_unlock(&mutex)); wr(pthread_mutex_unlock(&mutex)); pthread_mutex_destroy(&mutex);
pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK!); pthread_mutex_init(&mutex, &a); pthread_mutex_lock(&mutex); wr(pthread_mutex_lock(&mutex)); pthread_mutex_unlock(&mutex); wr(pthread_mutex_unlock(&mutex)); pthread_mutex_destroy(&mutex); pthread_mutexattr_destroy(&a);'''),
     'many': ('i', 'i', 'let b = newbox(0); let n: i64 = 0; for let i: i64 = 0; i < a0; i++; { let t = std::thread::create(quick: const fn(&std::Thread), b: &void); if t != nil { std::thread::join(t); n++; } } wr(if n == a0 => b.done else -1: i64); drop(b);'),
     'nil': ('', 'isiiii', 'let z: &std::Thread = nil; std::error::clear(); let e = std::thread::join(z); wr(e.kind); ws(e.msg: &char); some(); wr(b2i(std::thread::get_userdata(z) == nil)); wr(some()); wr(b2i(std::thread::get_pthread(z) == nil)); wr(some());'),
    }
    return Driver('thread', 'Thread', ops, ['thread.csp', 'process.csp', 'error.csp'], decl)

def thread_scripts(rng, n):
    out = {}
    for c in range(n):
        sc = []; st = {}; det = set()          # st: run / end / joined
        if c == 0: sc += [('nil',), ('lock',), ('many', 300), ('nil',), ('stale', 5, b'old news'), ('async', 0), ('async', 1)]
        if c < 10: sc += [('leave', c % 3, 100 + c)]
        if c < 16: sc += [('race', 1 + c % 8, [0, 1, 500, 3000][c // 4], c % 4)]
        for _ in range(rng.choice([6, 15, 30])):
            live = [k for k in range(4) if st.get(k) == 'run']
            free = [k for k in range(4) if k not in st]
            objs = list(st)
            o = rng.choice(['create', 'create', 'create', 'ask', 'ask', 'ask', 'data', 'is', 'same', 'end', 'end', 'join', 'join', 'join', 'joinby', 'detach', 'gone', 'peek', 'async', 'stale', 'scope', 'race', 'nil', 'many', 'leave'])
            if o == 'leave':
                if not any(x[0] in ('create', 'detach') for x in sc): sc.append((o, rng.randint(0, 2), rng.choice([0, 1, 77, 255, 256 + 3])))      # fork is for processes without other threads
            elif o == 'create' and free: k = rng.choice(free); st[k] = 'run'; sc.append((o, k, rng.randint(-2**31, 2**31 - 1)))
            elif o == 'ask' and live: sc.append((o, rng.choice(live), rng.randint(0, 1000)))
            elif o == 'data' and live: sc.append((o, rng.choice(live)))
            elif o == 'is' and live: sc.append((o, rng.choice(live), rng.choice(live)))
            elif o == 'same' and live: sc.append((o, rng.choice(live), rng.choice(live)))
            elif o == 'end' and live: k = rng.choice(live); st[k] = 'end'; sc.append((o, k, rng.choice([1, 2, 3, 3])))
            elif o in ('join', 'joinby', 'peek'):
                ok = [k for k in objs if (st[k] != 'run' or k in det)] if o != 'peek' else objs
                if not ok: continue
                k = rng.choice(ok); others = [j for j in live if j != k]
                if o == 'joinby' and not others: continue
                sc.append((o, k) + ((rng.choice(others),) if o == 'joinby' else ()))
                if o != 'peek' and k not in det and st[k] == 'end': st[k] = 'joined'
            elif o == 'detach':
                ok = [k for k in live]
                if ok: k = rng.choice(ok); det.add(k); sc.append((o, k))
            elif o == 'gone':
                ok = [k for k in objs if st[k] == 'joined' or (k in det and st[k] == 'end')]
                if ok: k = rng.choice(ok); del st[k]; det.discard(k); sc.append((o, k))
            elif o == 'async': sc.append((o, rng.randint(0, 1)))
            elif o == 'stale': sc.append((o, rng.randint(1, 100), rbytes(rng, rng.randint(1, 9), b'abc XYZ')))
            elif o == 'scope': sc.append((o, rng.randint(0, 99)))
            elif o == 'race' and rng.random() < .3: sc.append((o, rng.randint(1, 8), rng.choice([0, 1, 10, 500]), rng.randint(0, 3)))
            elif o == 'nil': sc.append((o,))
            elif o == 'many' and rng.random() < .2: sc.append((o, rng.choice([1, 5, 40])))
        for k in list(st):
            if st[k] == 'run': sc.append(('end', k, rng.choice([1, 2, 3]))); st[k] = 'end'
            if k not in det: sc.append(('join', k))
            sc.append(('gone', k))
        out[f'thread_{c}'] = sc
    return out
