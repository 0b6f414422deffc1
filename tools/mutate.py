#!/usr/bin/env python3
"""mutate.py FILE N SEED CHECK...: small random changes to one source file of /repo (in a scratch copy); for those that build
and pass the test suite's programs, does one of the checks notice?  Survivors are printed as diffs.  A development tool:
no check uses it."""
import sys, os, re, random, subprocess, shutil, difflib, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('MUT_BASE', '/repo')
W = f'/tmp/mut/{os.getpid()}'
TREE = W + '/tree'
ENV = dict(os.environ, CSP_REPO=TREE, CSP_CACHE=W + '/cache', HOME=W)
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, env=ENV, **k)
    except subprocess.TimeoutExpired as e: r = subprocess.CompletedProcess(c, -9, str(e.stdout)[-1000:]); return r

SWAPS = [(r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
         (r'(?<![<=\-])<(?![<=\-])', ['<=', '>']), (r'(?<![->=|])>(?![>=])', ['>=']), (r'(?<!\+)\+(?![+=])', ['-']), (r'(?<!-)-(?![-=>\d])', ['+']),
         (r'\+=', ['-=']), (r'-=', ['+=']), (r'\+\+', ['--']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
         (r'\b\d+\b', ['N+', 'N-', 'N/']), (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<=[\w)\]] )%(?= )', ['/']), (r'(?<=[\w)\]] )\*(?= )', ['/']),
         (r'\bif ?\(', ['if(!']), (r'!(?=[a-z_(])', [' ']), (r'\bnil\b', ['STMT'])]
ASM = [(r'\bj[lgbae]+\b', ['jl', 'jb', 'jg', 'ja', 'jle', 'je', 'jne']), (r'\bset[a-z]+\b', ['setl', 'setb', 'setg', 'seta', 'sete', 'setne', 'setle', 'setbe']),
       (r'movs([xbw])', ['movz\\1']), (r'movz([xbw])', ['movs\\1']), (r'\bidiv', ['div']), (r'\bdiv', ['idiv']), (r'\bsar\b', ['shr']), (r'\bshr\b', ['sar']),
       (r'%rax', ['%eax', '%rdi', '%rcx']), (r'%rdi', ['%edi', '%rsi', '%rax']), (r'%rdx', ['%rcx']), (r'%eax', ['%rax', '%ax']), (r'%xmm0', ['%xmm1']), (r'%xmm1', ['%xmm0']),
       (r'\badd\b', ['sub']), (r'\bsub\b', ['add']), (r'\bcqo\b', ['cdq']), (r'ss\b', ['sd']), (r'sd\b', ['ss']), (r'%rsp', ['%rbp']), (r'\b8\b', ['16', '4']), (r'\bmovl\b', ['mov'])]

def mutants(text, is_c, rng, only=None):
    lines = text.split('\n'); out = []
    block = False
    for i, l in enumerate(lines):
        code = l
        if block:
            if '*/' in l or ']#' in l: block = False
            continue
        if re.match(r'\s*(/\*|#\[)', l):
            if '*/' not in l and ']#' not in l: block = True
            continue
        if re.match(r'\s*(//|#|\*|import|static const|extern|typedef)', l): continue
        cut = re.search(r'//.*$' if is_c else r'(?<!\')#.*$', l)
        if cut: code = l[:cut.start()]
        if only and not re.search(only, code): continue
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        instr = lambda p: any(a <= p < b for a, b in strs)
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                if instr(m.start()): continue
                for rp in reps:
                    t = m.group(0)
                    if rp == 'N+': n = str(int(t) + 1)
                    elif rp == 'N-':
                        if int(t) == 0: continue
                        n = str(int(t) - 1)
                    elif rp == 'N/':
                        if int(t) < 4: continue
                        n = str(int(t) // 2)
                    elif rp == 'STMT': continue
                    else: n = rp
                    out.append((i, code[:m.start()] + n + l[m.end():]))
        if is_c and strs:
            for a, b in strs:
                for pat, reps in ASM:
                    for m in re.finditer(pat, code[a:b]):
                        for rp in reps:
                            n = m.expand(rp)
                            if n != m.group(0): out.append((i, l[:a + m.start()] + n + l[a + m.end():]))
        s = code.strip()
        if s.endswith(';') and not re.match(r'(let|const|return|ret|<-|type|case|default|[A-Za-z_]+\*? \**\w+ ?(=|;)|(u?int|size_t|char|bool|static|struct|macro|\}))', s): out.append((i, re.match(r'\s*', l).group(0) + ';' if is_c else '')); out.append((i, re.match(r'\s*', l).group(0) + ';' if is_c else ''))
    rng.shuffle(out)
    return lines, out

def tests():
    r = sh(f'cd {V}/harness && python3 -c "import build; print(build.build()[2])"', 120)
    if r.returncode: return 'build'
    d = r.stdout.strip().split('\n')[-1]
    res = []
    for f in ('tests/language/language_tests.csp', 'tests/std/std_tests.csp'):
        os.makedirs(W + '/.cache', exist_ok=True)
        x = sh(f'cd {TREE}/{os.path.dirname(f)} && rm -f {W}/t.exe && timeout 60 {d}/build/bin/cspc build {os.path.basename(f)} -p {d}/src/std -o {W}/t.exe --silent </dev/null; cd {W} && timeout 30 {W}/t.exe </dev/null', 120)
        o = re.sub(r'\x1b\[[0-9;]*m', '', x.stdout)
        res.append((x.returncode, sorted(re.findall(r'.*(?:OK|FAIL|failed|SKIP).*', o)) if x.returncode else [l for l in re.findall(r'.*FAIL.*', o)], re.findall(r'\d+ of \d+', o)))
    open(W + '/chk.csp', 'w').write('import "std.csp";\n\nfn main(): i32 {\n    <- 0;\n}\n')
    x = sh(f'cd {W} && rm -f chk && timeout 60 {d}/build/bin/cspc build chk.csp -p {d}/src/std -o ./chk --silent </dev/null; test -x chk', 120)
    res.append(x.returncode)
    return json.dumps(res)

def main():
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    os.makedirs(W, exist_ok=True); subprocess.run(['chmod', '755', '/tmp/mut', W])
    shutil.copytree(BASE, TREE, ignore=lambda d, fs: ['.git', 'build'] if d == BASE else [], symlinks=True)
    text = open(f'{TREE}/{f}').read()
    base = tests()
    if base == 'build': sys.exit('the unchanged tree does not build')
    lines, ms = mutants(text, f.endswith(('.c', '.h')), random.Random(seed), os.environ.get('MUT_ONLY'))
    if os.environ.get('MUT_LINES'):
        a, b = map(int, os.environ['MUT_LINES'].split('-')); ms = [m for m in ms if a <= m[0] + 1 <= b]
    stat = {}
    seen = set(); k = 0
    for i, nl in ms:
        if (i, nl) in seen: continue
        seen.add((i, nl))
        if k >= n: break
        new = lines[:]; new[i] = nl
        open(f'{TREE}/{f}', 'w').write('\n'.join(new))
        t = tests()
        if t != base: stat['build' if t == 'build' else 'tests'] = stat.get('build' if t == 'build' else 'tests', 0) + 1; continue
        k += 1; how = None; t0 = time.time()
        for c in checks:
            r = sh(f'python3 {V}/harness/check.py {c}', 900)
            if r.returncode == 1: how = c; break
            if r.returncode != 0: how = f'{c}:exit{r.returncode}'; print('   ', r.stdout[-300:].replace('\n', ' | ')); break
        stat[how] = stat.get(how, 0) + 1
        print(f'{"SURVIVED" if how is None else how} {f}:{i+1} {time.time()-t0:.0f}s', flush=True)
        print(f'    - {lines[i].strip()}\n    + {nl.strip()}', flush=True)
    print('TOTAL', f, stat)
    shutil.rmtree(W)
main()
