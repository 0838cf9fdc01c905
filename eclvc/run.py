"""Driver: compile a specification with the real sources, generate obligations, discharge them, report."""
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import pickle
import signal
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ECLVC_REPO', '/repo')
CXXFLAGS = ['-std=gnu++14', '-DECL_STANDALONE', '-DECLVC', '-fno-exceptions', '-fno-rtti', '-fno-access-control',
            '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-math-errno', '-fno-builtin-sincos', '-w',
            '-I', VERIF + '/shim', '-I', REPO, '-I', VERIF + '/include', '-I', VERIF + '/specs']
UBSAN = 'signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,bounds,shift,unreachable'
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt' if os.path.exists('/usr/lib/llvm-18/bin/opt') else 'opt'
PASSES = 'function(sroa,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa)'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def compile_bc(spec, out, extra=()):
    raw = out + '.raw.bc'
    p = sh([CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', '-fsanitize=' + UBSAN,
            '-fsanitize-trap=all', '-fno-vectorize', '-fno-slp-vectorize', '-ftrivial-auto-var-init=pattern'] + CXXFLAGS + list(extra) + [spec, '-o', raw])
    if p.returncode:
        return p.stderr
    p = sh([OPT, '-passes=' + PASSES, raw, '-o', out])
    if p.returncode:
        return p.stderr
    return None


def compile_native(spec, out, extra=(), asan=False):
    san = ['-fsanitize=' + UBSAN, '-fsanitize-trap=' + UBSAN]
    if asan:
        san = ['-fsanitize=address', '-fsanitize-recover=address', '-fsanitize=' + UBSAN, '-fsanitize-trap=' + UBSAN]
    p = sh([CLANG, '-O1', '-g', '-rdynamic', '-fno-inline', '-falign-functions=16', '-ftrivial-auto-var-init=pattern'] + san + CXXFLAGS + list(extra) +
           [spec, VERIF + '/include/vc_native.cpp', '-ldl', '-lm', '-o', out])
    return None if p.returncode == 0 else p.stderr


# ---------------------------------------------------------------- discharge

MODES = {None: ['uf', 'fp'], 'fp': ['uf', 'fp'], 'uf': ['uf'], 'real': ['uf', 'lin', 'nra'], 'lin': ['uf', 'lin'],
         'poly': ['lin'], 'iv': ['iv', 'fp'], 'nra': ['nra'], 'realfp': ['uf', 'lin', 'nra', 'fp'], 'fponly': ['fp']}


def value_hex(sort, v):
    if sort == 'f':
        return struct.pack('<f', v).hex()
    if sort == 'd':
        return struct.pack('<d', v).hex()
    if sort == 'B':
        return '01' if v else '00'
    n = (sort + 7) // 8
    return int(v).to_bytes(n, 'little').hex()


def discharge(o, timeout):
    from . import arrays
    from .terms import FALSE
    reads = []
    A, goal = o.pc.lits(), o.goal
    if o.mode != 'uf' and arrays.has(A + [goal]):
        r = arrays.without(A + [goal])
        A, goal, reads = r[0][:-1], r[0][-1], r[1]
        if FALSE in A:
            return dict(status='proved', backend='simplifier', model=None, detail='', time=0.0)
    res = discharge_(o, A, goal, timeout, reads)
    if reads and res['model']:
        res['model'] = arrays.cells(res['model'], reads)
    return res


def discharge_(o, A, goal, timeout, reads):
    """-> dict(status, backend, time, model, detail)"""
    from . import smt, poly, numeval
    from .terms import collect
    t0 = time.time()
    modes = MODES.get(o.mode, None)
    if modes is None:
        modes = o.mode.split(',')
    res = dict(status='unknown', backend=None, model=None, detail='')
    if o.kind in ('mem', 'trap') and 'fp' not in modes and o.mode not in ('uf',):
        modes = list(modes) + ['fp']
    if reads and 'lin' in modes:
        for f in (smt.solve, smt.solve_cvc5):
            r = f('abs', o.pc.lits(), o.goal, 10)
            if (r if type(r) is str else r[0]) == 'unsat':
                res.update(status='proved', backend=('z3' if f is smt.solve else 'cvc5') + '/uf', time=time.time() - t0)
                return res
    if 'lin' in modes and 'uf' not in modes and goal.op not in ('feq', 'flt', 'fle'):
        modes = ['uf'] + list(modes)
    for m in modes:
        left = timeout
        try:
            if m == 'uf':
                A0 = o.pc.lits()
                r, mod = smt.solve('uf', A0, o.goal, min(left, 10))
                if r == 'unsat':
                    res.update(status='proved', backend='z3/uf')
                    break
                if r == 'unknown' and any(t.op in ('select', 'urem', 'srem') for t in collect(A0 + [o.goal])) \
                        and smt.solve_cvc5('uf', A0, o.goal, 30) == 'unsat':
                    res.update(status='proved', backend='cvc5/uf')
                    break
                if r == 'sat':
                    fl = any(t.op in ARITH or t.op == 'fbits' for t in collect(A0 + [o.goal]))
                    res['model'] = mod
                    if not fl and not ('lin' in modes or 'nra' in modes):
                        res.update(status='refuted', backend='z3/uf', detail='sat: model of the negated obligation')
                        break
            elif m == 'iv':
                from . import interval
                if interval.prove(A, goal):
                    res.update(status='proved', backend='interval')
                    break
            elif m == 'fp':
                r, mod = smt.solve_hard('fp', A, goal, left)
                if r == 'unsat':
                    res.update(status='proved', backend='z3/fp')
                    break
                if r == 'sat':
                    res['model'] = mod
                    fl = any(t.op in ('fn', 'frem', 'fbits') for t in collect(A + [goal]))
                    res.update(status='unknown' if fl else 'refuted', backend='z3/fp',
                               detail='sat: model of the negated obligation' + (' (libm uninterpreted)' if fl else ''))
                    break
                res['detail'] += ' fp:%s' % mod
            elif m == 'lin':
                r = poly.prove(A, goal, left)
                if r == 'unsat':
                    res.update(status='proved', backend='poly+z3/lra')
                    break
            elif m == 'nra':
                # cheap refutation first
                cex = numeval.search(A, goal, seed=1, trials=400, seconds=4, hints=o.hints)
                if cex:
                    res.update(status='refuted', backend='numeric', model=cex,
                               detail='counterexample of the ideal-real obligation')
                    break
                r, mod = smt.solve_hard('real', A, goal, left)
                if r == 'unsat':
                    res.update(status='proved', backend='z3/nra')
                    break
                if r == 'sat':
                    res['model'] = mod
                    unint = any(t.op in ('fn', 'frem', 'fbits', 'ffrombits', 'fptosi', 'fptoui', 'fceil', 'ftrunc', 'frint', 'froundaway')
                                for t in collect(A + [goal]))
                    res.update(status='unknown' if unint else 'refuted', backend='z3/nra', detail='sat in ideal reals')
                    if not unint:
                        break
                else:
                    res['detail'] += ' nra:%s' % mod
        except Exception as e:
            res['detail'] += ' %s: %s: %s' % (m, type(e).__name__, e)
    if res['status'] == 'unknown' and 'lin' in modes:
        cex = numeval.search(A, goal, seed=1, trials=2000, seconds=8, hints=o.hints)
        if cex:
            res.update(status='refuted', backend='numeric', model=cex,
                       detail='counterexample of the ideal-real obligation')
    res['time'] = time.time() - t0
    return res


ARITH = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fsqrt', 'ffma', 'ffloor', 'fceil', 'ftrunc', 'frint', 'froundaway',
         'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fn'}


def model_hex(model):
    out = {}
    for k, (s, v) in (model or {}).items():
        try:
            out[k] = value_hex(s, v)
        except Exception:
            pass
    return out


def _worker(obls, idxs, timeout, wfd):
    out = []
    with os.fdopen(wfd, 'wb') as f:
        for i in idxs:
            r = discharge(obls[i], timeout if FAILS.value < 4 else min(timeout, 6))     # enough to report: no long searches
            r['model'] = model_hex(r['model'])
            if r['status'] != 'proved':
                with FAILS.get_lock():
                    FAILS.value += 1
            out.append((i, r))
        pickle.dump(out, f)
    os._exit(0)


FAILS = mp.Value('i', 0)


def discharge_all(obls, timeout, workers):
    """fork workers; obligations distributed in small batches"""
    res = {}
    todo = list(range(len(obls)))
    if not todo:
        return res
    nb = max(1, min(len(todo) // workers // 3, 25))
    batches = [todo[i:i + nb] for i in range(0, len(todo), nb)]
    live = {}
    import select
    while batches or live:
        while batches and len(live) < workers:
            b = batches.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _worker(obls, b, timeout, w)
                finally:
                    os._exit(1)
            os.close(w)
            live[r] = (pid, b, b'', time.time())
        nf = sum(1 for x in res.values() if x['status'] != 'proved')
        if batches and (nf > 12 or (FAILS.value > 24 and nf)):
            # enough failed obligations to report; the rest is not attempted
            for b in batches:
                for i in b:
                    res[i] = dict(status='unknown', backend=None, model={}, detail='not attempted after failures', time=0)
            batches = []
            if not live:
                break
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for r in rl:
            pid, b, buf, t0 = live[r]
            d = os.read(r, 1 << 20)
            if d:
                live[r] = (pid, b, buf + d, t0)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                for i, x in pickle.loads(buf):
                    res[i] = x
            except Exception:
                if len(b) > 1:
                    for i in b:
                        batches.append([i])
                else:
                    res[b[0]] = dict(status='unknown', backend=None, model={}, detail='worker died', time=0)
        now = time.time()
        for r in list(live):
            pid, b, buf, t0 = live[r]
            if now - t0 > (timeout * 4 + 30) * len(b):
                os.kill(pid, signal.SIGKILL)
    return res


def run_proof(mod, name, timeout, workers, repo_of):
    """executed in a child process; returns plain data"""
    from . import exec as X
    from .terms import TRUE, Not, FALSE
    from . import smt
    t0 = time.time()
    ex = X.Exec(mod)
    ex.proof = name
    st = X.State(X.ROOT)
    out = dict(proof=name, error=None)
    try:
        ctors(ex, st)
        ex.obls = []
        ex.executed = {}
        r = ex.call(name, [], st)
    except X.ToolError as e:
        out['error'] = 'tool: %s (in %s line %d)' % (e, ' < '.join(ex.pretty(f) for f in ex.stack[::-1][:4]), ex.curline)
        return out
    except Exception as e:
        import traceback
        out['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
        return out
    out['exec_s'] = time.time() - t0
    out['steps'] = ex.steps
    out['terms'] = len(X.TM._all)
    out['trivial'] = getattr(ex, 'trivial', 0)
    out['functions'] = {ex.pretty(k): v for k, v in ex.executed.items()}
    out['stubbed'] = {ex.pretty(k): v for k, v in ex.stubbed.items()}
    out['assumes'] = ex.assumes
    out['loops'] = ex.loopscut
    # vacuity: covers and end of proof must be reachable
    covers = []
    cov = list(ex.covers)
    if r is not None:
        cov.append(('end of proof', r[0].pc, name))
    else:
        covers.append(('end of proof', 'unreachable', 0.0))
    for lab, pc, _ in cov:
        t1 = time.time()
        A = pc.lits()
        if not A:
            covers.append((lab, 'reached', 0.0))
            continue
        res = 'unknown'
        ideal = ''
        for m, to in (('num', 1.5), ('real', 4), ('uf', 4), ('fp', 40)):
            try:
                if m == "num":
                    from . import numeval
                    q = 'sat' if numeval.search(A, FALSE, seconds=to) is not None else 'unknown'
                else:
                    q, _m = smt.solve(m, A, FALSE, to, False)
            except Exception:
                continue
            if m == 'real':
                ideal = q
            if q == 'sat' and m == 'uf' and ideal == 'unsat':
                # no ideal-real state gets here: only a state with non-finite values may (decided exactly)
                res = 'unreachable in real arithmetic'
                continue
            if q == 'sat':
                res = 'reached' if m != 'uf' else 'reached (uninterpreted arithmetic; real %s)' % ideal
                if m == 'fp':
                    res = 'reached (IEEE arithmetic)'
                break
            if q == 'unsat' and m != 'real':
                res = 'unreachable'
                break
        covers.append((lab, res, time.time() - t1))
    out['covers'] = covers
    out['cells'] = {n: sorted((off, sz, str(t.sort)) for off, (sz, t) in s.leaves.items()) for n, s in ex.havocs.items()}
    t1 = time.time()
    # obligations which must hold trivially false -> still solved
    rs = discharge_all(ex.obls, timeout, workers)
    out['solve_s'] = time.time() - t1
    ol = []
    for i, o in enumerate(ex.obls):
        r = rs.get(i, dict(status='unknown', backend=None, model={}, detail='no result', time=0))
        ol.append(dict(label=o.label, kind=o.kind, fn=ex.pretty(o.fn), line=o.line, mode=o.mode, proof=name, scope=o.scope, **r))
    out['obls'] = ol
    return out


def ctors(ex, st):
    g = ex.m.globals.get('llvm.global_ctors')
    if not g:
        return
    from . import exec as X
    init = ex.L.LLVMGetInitializer(g)
    n = ex.m.ty(ex.L.LLVMGlobalGetValueType(g)).n
    for i in range(n):
        e = ex.L.LLVMGetAggregateElement(init, i)
        f = ex.m.name(ex.L.LLVMGetAggregateElement(e, 1))
        # run each initialiser; those that need unmodelled library code (iostream) are skipped
        d = ex.decode(f)
        for b in d.blocks:
            for ins in b:
                if ins[0] == 'call' and isinstance(ins[3], str):
                    try:
                        r = ex.call(ins[3], [], st) if not ex.decode(ins[3]).decl else (st, None)
                        if r:
                            st = r[0]
                    except X.ToolError:
                        ex.stack = []


# ---------------------------------------------------------------- property check

def load_known():
    p = VERIF + '/known_findings.json'
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def check(pid, reg, tier, seed):
    t0 = time.time()
    ent = reg[pid]
    quick = tier != 'thorough'
    timeout = ent.get('timeout', 40) * (1 if quick else 4)
    tmp = tempfile.mkdtemp(prefix='eclvc_%s_' % pid)
    try:
        return _check(pid, ent, tier, seed, timeout, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _child(q, mod, name, timeout, workers):
    try:
        q.send(run_proof(mod, name, timeout, workers, None))
    except BaseException as e:
        import traceback
        q.send(dict(proof=name, error='internal: %s %s' % (e, traceback.format_exc()[-800:])))
    q.close()
    os._exit(0)


def _check(pid, ent, tier, seed, timeout, tmp, t0):
    from . import llvm as LL
    results = []
    only = os.environ.get('ECLVC_ONLY')
    specs = ent['specs']
    errors = []
    broken = []
    jobs = []
    compiles = []
    if ent.get('layout'):
        # the members of these classes, enumerated from the current source
        from . import layout
        h, e = layout.header(ent['layout'], CLANG, CXXFLAGS, os.path.join(VERIF, 'specs', specs[0]))
        if e:
            errors.append('layout: ' + e[:3000])
        else:
            open(os.path.join(tmp, 'vc_layout.h'), 'w').write(h)
            ent = dict(ent, cflags=tuple(ent.get('cflags', ())) + ('-I', tmp))
    for k, sp in enumerate(specs):
        compiles.append((sp, os.path.join(tmp, 's%d.bc' % k)))
    # compile in parallel
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as tp:
        errs = list(tp.map(lambda x: compile_bc(os.path.join(VERIF, 'specs', x[0]), x[1], ent.get('cflags', ())), compiles))
    for (sp, bc), e in zip(compiles, errs):
        if e:
            errors.append('compile %s: %s' % (sp, e[:3000]))
            m = re.search(r'^(\S+?):\d+:\d+: (?:fatal )?error: ', e, re.M)
            if m and os.path.realpath(m[1]).startswith(os.path.join(os.path.realpath(VERIF), 'specs')):
                broken.append((os.path.splitext(os.path.basename(sp))[0], 'the contracts no longer attach to the code: ' + e[:3000]))
    if not errors:
        for sp, bc in compiles:
            mod = LL.Module(bc)
            names = [n for n, f in mod.functions.items() if n.startswith('proof_%s_' % pid) and not mod.L.LLVMIsDeclaration(f)]
            thor = [n for n in names if n.endswith('_thorough')]
            if tier != 'thorough':
                names = [n for n in names if n not in thor]
            if only:
                names = [n for n in names if only in n]
            for n in names:
                jobs.append((sp, mod, n))
        if not jobs:
            errors.append('no proofs found for ' + pid)
    par = ent.get('parallel', 8)
    workers = max(1, int(ent.get('workers', 8 if len(jobs) <= 2 else 4 if len(jobs) <= 4 else 2)))
    live = []
    queue = list(jobs)
    specof = {n: sp for sp, _, n in jobs}
    while queue or live:
        while queue and len(live) < par:
            sp, mod, n = queue.pop(0)
            a, b = mp.Pipe(False)
            pidc = os.fork()
            if pidc == 0:
                a.close()
                _child(b, mod, n, timeout, workers)
            b.close()
            live.append((pidc, a, n, time.time()))
        for x in list(live):
            pidc, a, n, ts = x
            if a.poll(0.02):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(dict(proof=n, error='proof process died'))
                os.waitpid(pidc, 0)
                live.remove(x)
    obls = []
    for r in results:
        if r.get('error'):
            errors.append('%s: %s' % (r['proof'], r['error']))
            if r['error'] != 'proof process died':
                broken.append((r['proof'], r['error']))
        else:
            obls += r['obls']
            for lab, c, _ in r['covers']:
                if c.startswith('unreachable'):
                    errors.append('%s: vacuous: "%s" is unreachable under the assumptions' % (r['proof'], lab))
                    broken.append((r['proof'], 'the case it states can no longer occur ("%s" is unreachable under the contract)' % lab))
            if not r['obls'] and not r['trivial']:
                errors.append('%s: no obligations generated' % r['proof'])
                broken.append((r['proof'], 'no obligation is left'))
    bad = [o for o in obls if o['status'] != 'proved']
    violations = []
    undecided = []
    known = load_known()
    knownhits = []
    if bad:
        violations, undecided, knownhits = confirm(pid, ent, bad, results, specof, tmp, seed, known, errors)
    if broken and not any(v['confirmed'] for v in violations):
        # a proof the verifier does not accept as a whole: its obligations are not discharged
        rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        for nm, why in broken[:5]:
            fnm = os.path.join(rep, '%s_%s_not_accepted.txt' % (pid, nm.replace('proof_', '')))
            with open(fnm, 'w') as f:
                f.write('property: %s\nproof not accepted: %s\nverifier: %s\nThis proof is accepted on the unchanged tree; no failing native input found.\n' % (pid, nm, why))
            violations.append(dict(label='not accepted', replay=fnm, confirmed=False, proof=nm))
    wall = time.time() - t0
    write_evidence(pid, ent, tier, seed, results, obls, violations, undecided, errors, knownhits, wall)
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for e in errors:
        print('ERROR %s' % e)
    for u in undecided:
        print('UNDECIDED %s' % u)
    n = len(obls)
    nd = sum(1 for o in obls if o['status'] == 'proved')
    print('%s: %d proofs, %d obligations (+%d folded), %d discharged, %.1fs' % (
        pid, len(results), n, sum(r.get('trivial', 0) for r in results), nd, wall))
    if os.environ.get('ECLVC_V'):
        for r in results:
            print(' ', r['proof'], 'exec %.1fs solve %.1fs steps %d obls %d terms %d' % (
                r.get('exec_s', 0), r.get('solve_s', 0), r.get('steps', 0), len(r.get('obls', [])), r.get('terms', 0)), r.get('covers'))
            if os.environ['ECLVC_V'] > '1':
                for o in r.get('obls', []):
                    print('    ', o['status'], o['backend'], '%.2f' % o['time'], o['label'], o['fn'], o['line'], o['detail'])
    if violations:
        for v in violations:
            print('VIOLATION property=%s replay=%s%s' % (pid, v['replay'], '' if v['confirmed'] else ' no-failing-input-found'))
        return 1
    if errors or undecided:
        return 2
    return 0


def confirm(pid, ent, bad, results, specof, tmp, seed, known, errors):
    """replay counterexamples of failed obligations against the real code"""
    violations, undecided, knownhits = [], [], []
    rep = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    byproof = {}
    for o in bad:
        byproof.setdefault(o['proof'], []).append(o)
    natives = {}
    import glob
    for g in glob.glob(os.path.join(rep, pid + '_*.txt')):
        os.unlink(g)
    t0 = time.time()
    for proof, ol in byproof.items():
        sp = specof[proof]
        for asan in (False, True) if any(o['kind'] == 'mem' for o in ol) else (False,):
            if (sp, asan) not in natives:
                out = os.path.join(tmp, 'native_%d' % len(natives))
                e = compile_native(os.path.join(VERIF, 'specs', sp), out, ent.get('cflags', ()), asan)
                natives[(sp, asan)] = None if e else out
                if e and not asan:
                    errors.append('native build: ' + e[:500])
        plain = natives[(sp, False)]
        res = [r for r in results if r['proof'] == proof][0]
        cellf = os.path.join(tmp, 'cells')
        with open(cellf, 'w') as f:
            for nm, cs in res['cells'].items():
                for off, sz, so in cs:
                    f.write('%s %d %s %d\n' % (nm, off, so if so in ('f', 'd', 'B') else 'i', sz))
        # one search per distinct label
        labels = {}
        for o in ol:
            labels.setdefault(o['label'], []).append(o)
        for lab, os_ in labels.items():
            conf = None
            binp = (natives.get((sp, True)) if os_[0]['kind'] == 'mem' else None) or plain
            kf = [k for k in known.get('findings', []) if k['property'] == pid and k['proof'] == proof and k['label'] == lab]
            if kf:
                if kf[0]['what'] not in knownhits:
                    knownhits.append(kf[0]['what'])
                continue
            budget = 12 if time.time() - t0 < 60 else 3
            os_.sort(key=lambda o: (o['detail'].startswith('not att'), o['status'] != 'refuted'))
            if os_[0]['detail'].startswith('not att') and violations:
                continue
            nconf = sum(1 for v in violations if v['confirmed'])
            if nconf >= 2 or ((time.time() - t0 > 150 or len(violations) > 25) and violations):
                continue
            if binp and not os.environ.get('ECLVC_NOREPLAY'):
                for o in os_[:6]:
                    if not o['model']:
                        continue
                    inp = os.path.join(tmp, 'inp')
                    with open(inp, 'w') as f:
                        for k, v in o['model'].items():
                            f.write('%s %s\n' % (k, v))
                    p = run_native(binp, [proof, cellf, lab if os_[0]['kind'] == 'ensures' else '-', 'replay', inp], 20, o['scope'])
                    if p and p.startswith('FAIL'):
                        conf = (p, o)
                        break
                if conf is None:
                    p = run_native(binp, [proof, cellf, lab if os_[0]['kind'] == 'ensures' else '-', 'random', str(seed), '3000000', str(budget)], budget + 20, os_[0]['scope'])
                    if p and p.startswith('FAIL'):
                        conf = (p, os_[0])
            refuted = [o for o in os_ if o['status'] == 'refuted']
            if os.environ.get('ECLVC_KEEP') and not conf:
                import shutil
                shutil.copy(cellf, '/tmp/w/cells')
                shutil.copy(binp, '/tmp/w/nat')
            if conf or refuted:
                o = conf[1] if conf else refuted[0]
                fnm = os.path.join(rep, '%s_%s_%s.txt' % (pid, proof[6:], re.sub(r'[^A-Za-z0-9]+', '_', lab)[:60]))
                with open(fnm, 'w') as f:
                    f.write('property: %s\nfailed obligation: %s\nproof: %s\nin: %s line %d\nverifier: %s %s\n' % (
                        pid, lab, proof, o['fn'], o['line'], o['backend'], o['detail']))
                    f.write('obligations with this label that failed: %d\n' % len(os_))
                    if conf:
                        f.write('confirmed on the real code (native run of the same proof function):\n%s' % conf[0])
                        f.write('\nscope: VC_SCOPE=%s' % o['scope'])
                        f.write('\nreplay: compile specs/%s with include/vc_native.cpp and run: <bin> %s <cells> - replay <inputs above>\n' % (sp, proof))
                    else:
                        f.write('no failing native input found\nmodel: %s\n' % json.dumps(o['model']))
                violations.append(dict(label=lab, replay=fnm, confirmed=bool(conf), proof=proof))
            else:
                o = os_[0]
                fnm = os.path.join(rep, '%s_%s_%s.txt' % (pid, proof[6:], re.sub(r'[^A-Za-z0-9]+', '_', lab)[:60]))
                with open(fnm, 'w') as f:
                    f.write('property: %s\nobligation not discharged: %s\nproof: %s\nin: %s line %d\nverifier: %s\n' % (
                        pid, lab, proof, o['fn'], o['line'], o['detail']))
                    f.write('scope %s model %s\n' % (o['scope'], json.dumps(o['model'])))
                    f.write('This obligation is discharged on the unchanged tree; no failing native input found.\n')
                violations.append(dict(label=lab, replay=fnm, confirmed=False, proof=proof))
                undecided.append('%s: %s (%s line %d) %s' % (proof, lab, o['fn'], o['line'], o['detail']))
    if any(v['confirmed'] for v in violations):
        violations = [v for v in violations if v['confirmed']]
    violations.sort(key=lambda v: not v['confirmed'])
    return violations, undecided, knownhits


def run_native(binp, args, to, scope=''):
    try:
        p = subprocess.run([binp] + args, env=dict(os.environ, VC_SCOPE=str(scope), ASAN_OPTIONS='halt_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:allow_user_segv_handler=1:abort_on_error=0'), capture_output=True, text=True, timeout=to, errors='replace')
        return p.stdout
    except subprocess.TimeoutExpired:
        return None


def write_evidence(pid, ent, tier, seed, results, obls, violations, undecided, errors, knownhits, wall):
    by = {}
    st = 0.0
    for o in obls:
        if o['status'] == 'proved':
            by[o['backend']] = by.get(o['backend'], 0) + 1
        st += o['time']
    fns = {}
    stub = {}
    for r in results:
        for k, v in r.get('functions', {}).items():
            fns[k] = fns.get(k, 0) + v
        for k, v in r.get('stubbed', {}).items():
            stub[k] = stub.get(k, 0) + v
    triv = sum(r.get('trivial', 0) for r in results)
    mech, note = [], ''
    try:
        for ln in open(os.path.join(VERIF, 'properties.jsonl')):
            d = json.loads(ln)
            if d['id'] == pid:
                mech = ['%s (%s)' % (x['name'], x['where']) for x in d['anchors']['mechanism']]
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                note = c['level_note']
    except (OSError, ValueError, KeyError):
        pass
    repo_fns = sorted(k for k in fns if not k.startswith(('proof_', 'vc_', 'matrix::', 'stub_', 'std::', 'spec_', 'operator')) and 'matrix::' not in k.split('(')[0])
    fbuilt = [dict(label=o['label'], proof=o['proof'], function=o['fn'], line=o['line'], status=o['status'], detail=o['detail'])
              for o in obls if o['status'] != 'proved'][:50]
    cov = {
        'obligations': len(obls) + triv,
        'discharged': sum(1 for o in obls if o['status'] == 'proved') + triv,
        'discharged_by': dict(by, **{'simplifier (folded while generating)': triv}),
        'solver_time_s': round(st, 2),
        'proofs': [dict(name=r['proof'], obligations=len(r.get('obls', [])), instructions=r.get('steps', 0),
                        vacuity=[(c[0], c[1]) for c in r.get('covers', [])]) for r in results],
        'functions_under_contract': mech,
        'real_functions_executed': repo_fns,
        'contracts_assumed_at_call_sites': sorted(stub),
        'loops_under_invariant': sorted({l for r in results for l in r.get('loops', [])}),
        'checker_cmd': 'python3-vt %s/check.py %s' % (VERIF, pid),
        'trusted_base': ['clang 18 front end and LLVM sroa/early-cse/simplifycfg', 'eclvc VC generator (/verif/eclvc)',
                         'z3, cvc5', '/verif/shim/matrix (contract of PX4/Matrix)'] + ent.get('trusted', []),
        'unproved': fbuilt,
        'known_findings': knownhits,
        'errors': errors,
    }
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=ent.get('level', 'proof'),
              coverage=cov, assumptions=([note] if note else []) + ['contract used at call sites: ' + k for k in sorted(stub)], wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
