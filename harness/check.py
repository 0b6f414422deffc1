#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: the check itself failed."""
import os, re, sys, json, time, random, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, runner

def known():
    """known_findings.txt: 'property=<id> case=<case id> <text>' lines"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('property='):
                a = l.split(None, 2)
                if len(a) == 3 and a[1].startswith('case='):
                    out[(a[0][9:], a[1][5:])] = a[2]
    return out

class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.thorough = tier == 'thorough'
        s.viol, s.findings, s.known = [], [], known()
        s.states = s.trans = s.traces = s.samples_n = 0
        s.samples = []
        s.nondet = 0
        s.rdir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(s.rdir, ignore_errors=True)
        s.t0 = time.time()
    def rng(s, salt=''): return random.Random(f'{s.seed}/{s.prop}/{salt}')
    def n(s, quick, thorough): return thorough if s.thorough else quick
    def count(s, r, traces=0):
        s.states += r.distinct; s.trans += r.generated; s.traces += traces
    def sample(s, d):
        if len(s.samples) < 6: s.samples.append(d)
    def replay_dir(s, case):
        d = os.path.join(s.rdir, case.replace('/', '_')); os.makedirs(d, exist_ok=True); return d
    def fail(s, case, why, files=None):
        """report one failing case"""
        k = s.known.get((s.prop, case))
        if k is not None:
            s.findings.append((case, k)); return
        d = s.replay_dir(case)
        open(os.path.join(d, 'why.txt'), 'w').write(why + '\n')
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode('utf8', 'replace'))
        s.viol.append((case, why, d))

    # ------------------------------------------------ programs against the machine
    def machine(s, progs, backend='asm', flags=(), label='', module='Machine', cfg=runner.MACHINE_CFG, strict=runner.STRICT_CFG):
        """run the programs for real and let TLC judge the recordings"""
        ids = [p.pid for p in progs]
        assert len(set(ids)) == len(ids), 'duplicate program ids'
        pre = (label + ':') if label else ''
        with runner.Scratch() as d:
            rs = runner.pmap(lambda p: runner.execute(p, d, backend, flags), progs)
        recs = [p.tojson(o, c) for p, (o, c, _) in zip(progs, rs)]
        v, r = runner.validate(recs, module, cfg, timeout=3000 if s.thorough else 800)
        missing = [p.pid for p in progs if p.pid not in v]
        if missing or not r.finished:
            raise RuntimeError(f'machine gave no verdict for {missing[:5]} (of {len(missing)}):\n' + runner.tlc_error(r))
        s.count(r, len(progs))
        for p, (o, c, note) in list(zip(progs, rs))[:2]:
            s.sample({'program': pre + p.pid, 'output_bytes': len(o), 'exit': c, 'verdict': str(v[p.pid])})
        bad = [(p, x) for p, x in zip(progs, rs) if v[p.pid] != 'OK']
        for p, first in bad:
            if (s.prop, pre + p.pid) not in s.known and len(s.viol) >= 5: continue
            # once more, alone, before reporting
            with runner.Scratch() as d: o, c, note = runner.execute(p, d, backend, flags)
            v2, r2 = runner.validate([p.tojson(o, c)], module, strict)
            if v2.get(p.pid) == 'OK':
                s.nondet += 1
                # failed once, passed once: try a few more times
                again = []
                for _ in range(3):
                    with runner.Scratch() as d: o, c, note = runner.execute(p, d, backend, flags)
                    again.append(runner.validate([p.tojson(o, c)], module, cfg)[0].get(p.pid))
                if all(a == 'OK' for a in again): continue
            w = v2.get(p.pid) or v[p.pid]
            why = f'{pre}{p.pid} ({backend} {" ".join(flags)}): {w}'
            if w[0] == 'output':
                why += f'\nat output byte {w[1]}: expected {w[3]} from `{p.tags.get(w[2])}`, the program wrote {list(o[w[1]:w[1]+16])}'
            elif w[0] == 'exit': why += f'\nexpected exit status {w[1]}, the program ended with {c}'
            elif w[0] == 'extra': why += f'\nafter {w[1]} bytes the program should have ended, it wrote {list(o[w[1]:w[1]+16])}'
            if note: why += '\n' + note
            s.fail(pre + p.pid, why, {'prog.csp': p.source(backend), 'record.json': json.dumps(p.tojson(o, c)), 'tlc_trace.txt': r2.out})

    # ------------------------------------------------ program texts against the language
    def source(s, texts, backend='asm', flags=(), label=''):
        """compile and run the texts for real; TLC reads the same texts and judges"""
        import srcfam
        ids = [t.pid for t in texts]
        assert len(set(ids)) == len(ids), 'duplicate program ids'
        pre = (label + ':') if label else ''
        def go(ts):
            with runner.Scratch() as d:
                return runner.pmap(lambda t: runner.build_text(t, d, backend, flags, srcfam.RT[backend]), ts)
        rs = go(texts)
        v, r = runner.validate([t.tojson(*x[:3], backend) for t, x in zip(texts, rs)], 'Source', runner.SOURCE_CFG, 3000 if s.thorough else 800)
        missing = [i for i in ids if i not in v]
        if missing or not r.finished:
            raise RuntimeError(f'no verdict for {missing[:5]} (of {len(missing)}):\n' + runner.tlc_error(r))
        s.count(r, len(texts))
        for t, x in list(zip(texts, rs))[:2]:
            s.sample({'program': pre + t.pid, 'compiled': x[0], 'output_bytes': len(x[1]), 'exit': x[2], 'verdict': str(v[t.pid])})
        for t in texts:
            if v[t.pid] == 'OK': continue
            if (s.prop, pre + t.pid) not in s.known and len(s.viol) >= 5: continue
            def again(strict=False):
                x = go([t])[0]
                v2, r2 = runner.validate([t.tojson(*x[:3], backend)], 'Source', runner.SOURCE_STRICT if strict else runner.SOURCE_CFG)
                return x, v2.get(t.pid), r2
            x, w, r2 = again(True)
            if w == 'OK':
                s.nondet += 1
                if all(again()[1] == 'OK' for _ in range(3)): continue
            w = v[t.pid] if w in (None, 'OK') else w
            why = f'{pre}{t.pid} ({backend} {" ".join(flags)}): '
            why += {'accepted': 'the compiler accepted an ill-formed program', 'rejected': 'the compiler made no program of a well-formed text',
                    'crashed': 'the compiler did not reject the text in an orderly way',
                    'exit': f'expected exit status {w[-1]}, the program ended with {x[2]}',
                    'output': f'at output byte {w[1] if len(w) > 1 else 0}: expected {w[-1]}, the program wrote {list(x[1][w[1]:w[1]+16]) if len(w) > 3 else ""}'}[w[0]]
            s.fail(pre + t.pid, why + '\n' + x[3], dict({n.replace('/', '_'): b for n, b in t.files.items()}, **{'record.json': json.dumps(t.tojson(*x[:3])), 'tlc_trace.txt': r2.out, 'rt.csp': srcfam.RT[backend]}))

    # ------------------------------------------------ library histories against their specifications
    def every(s, drv, depth, cfg='[x |-> 0]', label='', jcfg=None):
        """every history of that many small operations the specification allows, generated by TLC, replayed into the library"""
        import stdlib
        sc, r = stdlib.generate(drv, depth, cfg)
        s.count(r)
        s.library(drv, sc, jcfg, label=label)

    def library(s, drv, scripts, cfg=None, label='', argv=None, under=None):
        """scripts: {case: script}; run them with the real library and let TLC judge the histories"""
        import stdlib
        with runner.Scratch() as d:
            c = runner.compile_src(drv.source(), d, name='drv_' + re.sub(r'\W', '_', drv.name), flags=drv.flags)
            if not c.ok:
                s.fail(f'{label}{drv.name}:build', 'the driver does not compile: ' + c.log[-1500:], {'driver.csp': drv.source()}); return
            os.chmod(c.exe, 0o755)
            pre = [stdlib.stand_in(under, d)] if under else []
            def rec(case, script):
                ops, rc, extra = stdlib.record(drv, c.exe, script, d, argv, pre)
                return {'id': label + case, 'ops': ops, 'exit': rc, 'extra': extra, 'cfg': cfg or {'x': 0}}
            items = list(scripts.items())
            traces = runner.pmap(lambda x: rec(*x), items)
            v, r = stdlib.judge(drv.module, traces, 3000 if s.thorough else 800)
            missing = [t['id'] for t in traces if t['id'] not in v]
            if missing or not r.finished or 'is violated' in r.out:
                raise RuntimeError(f'no verdict for {missing[:5]} (of {len(missing)}):\n' + runner.tlc_error(r))
            s.count(r, len(traces))
            for t in traces[:2]: s.sample({'history': t['id'], 'operations': len(t['ops']), 'first': str(t['ops'][:2])[:200], 'verdict': str(v[t['id']])[:200]})
            for (case, script), t in zip(items, traces):
                if v[t['id']] == 'OK': continue
                if (s.prop, t['id']) not in s.known and len(s.viol) >= 5: continue
                t2 = rec(case, script); v2, r2 = stdlib.judge(drv.module, [t2])
                if v2.get(t['id']) == 'OK':
                    s.nondet += 1
                    if all(stdlib.judge(drv.module, [rec(case, script)])[0].get(t['id']) == 'OK' for _ in range(3)): continue
                w = v2.get(t['id'])
                w = v[t['id']] if w in (None, 'OK') else w
                why = f'{t["id"]}: '
                if w[0] == 'step': why += f'operation {w[1]} {stdlib.text(drv, script[w[1]-1:w[1]])}: the specification allows {w[2]}, the library returned {t2["ops"][w[1]-1]["r"]}'
                else: why += f'the driver ended with status {w[1]} and {w[2]} surplus bytes'
                s.fail(t['id'], why, {'script.txt': stdlib.text(drv, script, t2['ops']), 'driver.csp': drv.source(), 'stdin.bin': drv.encode(script), 'record.json': json.dumps(t2)})

    def done(s):
        ev = {'property': s.prop, 'tier': s.tier, 'seed': s.seed, 'level': LEVEL.get(s.prop, 'model_checking'),
              'coverage': {'states': s.states, 'transitions': s.trans, 'traces_validated_against_impl': s.traces,
                           'samples': s.samples or ['none']},
              'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for c, k in s.findings: print(f'KNOWN-FINDING: property={s.prop} {c}: {k}')
        for c, w, d in s.viol[:5]:
            print(w); print(f'VIOLATION property={s.prop} replay={d}')
        print(f'{s.prop} {s.tier} seed={s.seed}: {s.traces} traces, {s.states} states, {len(s.viol)} violations, {time.time()-s.t0:.1f}s')
        return 1 if s.viol else 0

LEVEL = {}
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    try:
        build.build_cached()
        c = Ctx(prop, tier, seed)
        props.CHECKS[prop](c)
        rc = c.done()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)

if __name__ == '__main__': main()
