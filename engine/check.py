"""check.py <property> [quick|thorough]: verify one property on /repo."""
import os, sys, time, json, random, importlib, traceback, re
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF + '/contracts')
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
import extract, forms, solver, verify, native, gen
from execu import Program, build_symtab
import common

def log(*a):
    if os.environ.get('VERIF_LOG'): print('[%.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def closure(prog, build, fns, stop):
    """units reachable through direct calls from fns"""
    seen = set(); todo = []
    for f in fns:
        u = prog.symtab.get(f)
        if u: todo.append(u)
    todo = sorted(set(todo))
    with ThreadPoolExecutor(8) as tp:
        while todo:
            new = [u for u in todo if u not in seen]
            seen |= set(new)
            if not new: break
            def one(u):
                try: return build.ll(u)
                except extract.ExtractError as e: return None
            paths = list(tp.map(one, new))
            nxt = set()
            for u, p in zip(new, paths):
                if p is None: continue
                s = open(p).read()
                for nm in set(re.findall(r'@([\w.$]+)', s)):
                    if nm in stop or nm in prog.symtab and prog.symtab[nm] == u: continue
                    v = prog.symtab.get(nm) or (prog.symtab.get(nm[5:]) if nm.startswith('__GI_') else None)
                    if v and v not in seen: nxt.add(v)
            todo = sorted(nxt)
    return seen

def search_chunk(a):
    ci, n, seed, cases, tlim, seeds = (a + ((),))[:6]
    c = verify.CONTRACTS[ci]
    R = random.Random(seed)
    t0 = time.time(); tried = 0; nontriv = set(); bad = []
    while tried < n and time.time() - t0 < tlim:
        batch = []
        for _ in range(400):
            case = R.choice(cases) if cases and R.random() < .5 else None
            rm, inp = gen.inputs(R, c, case, seeds)
            batch.append((ci, rm, inp))
        for (i, rm, inp), r in zip(batch, NAT.run(batch)):
            tried += 1
            b = judge(c, rm, inp, r)
            if b is None: continue
            nontriv.add((rm, tuple(inp)))
            if b: bad.append((rm, inp, r, b))
        if bad: break
    return tried, len(nontriv), bad[:5]
def hx(x): return repr(x) if isinstance(x, bytes) else hex(x)
def judge(c, rm, inp, r):
    if c.judge:
        if 'signal' in r: return ['terminates normally (signal %s)' % r['signal']]
        return c.judge(c, rm, inp, r)
    if 'signal' in r:
        b = verify.eval_post(c, rm, inp, {'ret': 0, 'outs': {i: 0 for i, a in enumerate(c.args) if a[0] == 'P'}, 'exc': 0, 'errno': 0})
        return None if b is None else ['terminates normally (signal %s)' % r['signal']]
    return verify.eval_post(c, rm, inp, r)
NAT = None

def main():
    global NAT
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(pid.lower())
    P = mod.prop(tier)
    cts = P['contracts']; bnd = P.get('bounded', [])
    allc = cts + bnd
    build = extract.Build()
    ncpu = min(8, os.cpu_count() or 8)
    viol = []
    try:
        build.configure()
        build.native()
    except extract.ExtractError as e:
        print('check error: cannot build /repo: %s' % e); sys.exit(2)
    log('built')
    tab = build_symtab(build.b)
    prog = Program(build, tab)
    for f in forms.F.values(): assert forms.partition_ok(f)
    import contracts as bc
    stop = set(bc.BASE) | set(P.get('stop', ()))
    units = closure(prog, build, [c.fn for c in cts], stop) if cts else set()
    for u in units:
        try: prog.mod(u)
        except extract.ExtractError: pass
    log('extracted', len(units))
    NAT = native.Native(build, allc)
    verify.setup_worker(prog, allc)
    budget = P.get('budget', {}).get(tier, 700 if tier == 'quick' else 6 * 3600)
    tasks = []
    for i, c in enumerate(cts):
        for case in c.cases(tier):
            tasks.append((i, case, {'deadline': T0 + budget}))
    weight = P.get('weight')
    verify.TASKS = tasks
    order = sorted(range(len(tasks)), key=lambda k: -weight(cts[tasks[k][0]], tasks[k][1])) if weight else list(range(len(tasks)))
    results = []
    with mp.get_context('fork').Pool(ncpu, maxtasksperchild=int(P.get('recycle', 40))) as pool:
        for r in pool.imap_unordered(verify.run_task_i, order, chunksize=1 if len(order) < 2000 else 4):
            results.append(r)
            if os.environ.get('VERIF_LOG') == '2': log(r['fn'], cname(r['case']), r['goals'], r['dis'], r['paths'], round(r['wall'], 2), r['fails'][:1], r['undis'][:1])
    log('verified', len(results))
    # ---- witnesses: paths' models executed natively (fidelity, vacuity)
    R = random.Random(seed)
    wit = 0; wsamples = []; suspicious = {}
    per = {}
    idx = {}
    for i, c in enumerate(allc): idx.setdefault(c.fn, i)
    reqs = []
    for r in results:
        for rm, inp in r['witness'][:2 if len(results) > 400 else 4]: reqs.append((idx[r['fn']], rm, inp))
    R.shuffle(reqs); reqs = reqs[:4000]
    reqs = [q for q in reqs if not allc[q[0]].internal]
    for (i, rm, inp), out in zip(reqs, NAT.run(reqs)):
        b = judge(allc[i], rm, inp, out)
        if b is None: continue
        wit += 1
        if len(wsamples) < 5: wsamples.append({'fn': allc[i].fn, 'rm': rm, 'inputs': [hx(x) for x in inp], 'result': hex(out.get('ret', 0))})
        if b: viol.append((allc[i], rm, inp, out, b, 'path witness'))
    # ---- failures
    obligations = sum(r['goals'] for r in results); discharged = sum(r['dis'] for r in results)
    need = {}
    for r in results:
        for f in r['fails']:
            obligations += f['kind'] == 'safety'
            need.setdefault(r['fn'], []).append((r['case'], f))
        for u in r['undis']:
            obligations += not u.endswith(': unknown')
            need.setdefault(r['fn'], []).append((r['case'], {'kind': 'undischarged', 'goal': u, 'inputs': None, 'detail': ''}))
    confirmed = {v[0].fn for v in viol}
    unconf = []
    for fn, fl in need.items():
        c = allc[idx[fn]]
        if fn in confirmed or c.internal: continue
        reqs = [(idx[fn], f['inputs'][0], f['inputs'][1]) for _, f in fl if f['inputs']][:200]
        hit = False
        for (i, rm, inp), out in zip(reqs, NAT.run(reqs)):
            b = judge(c, rm, inp, out)
            if b: viol.append((c, rm, inp, out, b, 'verifier counterexample')); hit = True; break
        if hit: confirmed.add(fn)
    left = [fn for fn in need if fn not in confirmed]
    searched = 0
    if left:
        with mp.get_context('fork').Pool(ncpu) as pool:
            jobs = []
            tl = max(8, min(60, 120 / len(left)))
            for fn in left:
                c = allc[idx[fn]]
                cases = [case[0] for case, f in need[fn]]
                if c.internal:
                    # an internal function: look for an exported one that shows the failure
                    bits = [b for _, f in need[fn] if f['inputs'] for b in f['inputs'][1]][:50]
                    ws = {a for a in c.args if a in verify.DECW}
                    via = [k for k, d in enumerate(allc) if not d.internal and (not ws or ws & set(d.args + [d.ret] + [a[1:] for a in d.args if a[0] == 'P']))]
                    for k in via: jobs.append((k, 20000, '%d.%s.%d' % (seed, fn, k), None, max(3, 60 * ncpu / len(via) / len(left)), tuple(bits)))
                    continue
                for k in range(ncpu): jobs.append((idx[fn], 40000, '%d.%s.%d' % (seed, fn, k), cases, tl))
            for job, (n, nn, bad) in zip(jobs, pool.map(search_chunk, jobs, chunksize=1)):
                searched += n
                c = allc[job[0]]
                if bad and c.fn not in confirmed:
                    rm, inp, out, b = bad[0]
                    confirmed.add(c.fn); viol.append((c, rm, inp, out, b, 'directed search after a failed obligation'))
    for fn in left:
        if fn in confirmed: continue
        # an internal function's failure is reported by the exported function that shows it
        if allc[idx[fn]].internal and any(v[5].startswith('directed') for v in viol): continue
        unconf.append((fn, need[fn]))
    # ---- bounded stand-ins
    bt = bn = 0; bper = {}
    if bnd:
        N = P.get('bounded_n', {}).get(tier, 12000 if tier == 'quick' else 400000)
        tl = P.get('bounded_t', {}).get(tier, 40 if tier == 'quick' else 1200) * ncpu / max(1, len(bnd) * 1.0)
        nch = max(1, min(8, 16 // len(bnd)))
        jobs = [(len(cts) + k, N // nch, '%d.%s.%d' % (seed, c.fn, q), None, tl / nch) for k, c in enumerate(bnd) for q in range(nch)]
        with mp.get_context('fork').Pool(ncpu) as pool:
            for job, (n, nn, bad) in zip(jobs, pool.map(search_chunk, jobs, chunksize=1)):
                bt += n; bn += nn; c = allc[job[0]]
                bper[c.fn] = bper.get(c.fn, 0) + nn
                if bad and c.fn not in confirmed:
                    rm, inp, out, b = bad[0]
                    confirmed.add(c.fn); viol.append((c, rm, inp, out, b, 'bounded stand-in'))
        log('bounded', bt, bn)
    # ---- frame condition of the rounding mode
    frm = None
    if P.get('frame'):
        import frame
        frm = frame.check(build, log)
        obligations += len(frm['results']); discharged += sum(ok for _, _, ok, _ in frm['results'])
        for fn, ob, ok, detail in frm['results']:
            if ok: continue
            if any(v[0].judge and frame.base(fn).lstrip('_') in (v[0].fn, 'bid_' + v[0].fn.lstrip('_')) for v in viol): continue
            unconf.append((fn, [(((), None), {'kind': 'frame', 'goal': ob, 'inputs': None, 'detail': detail})]))
    # ---- known findings
    for kf in common.KNOWN:
        if kf['property'] != pid: continue
        i = next((i for i, c in enumerate(allc) if c.fn == kf['function']), None)
        if i is None: continue
        c = allc[i]; inp = [x[2:-1].encode() if x[:2] == "b'" else int(x, 16) for x in kf['inputs']]
        out = NAT.run([(i, kf['rounding_mode'], inp)])[0]
        c.known_off = True
        b = judge(c, kf['rounding_mode'], inp, out)
        c.known_off = False
        if b: print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    nvio = 0
    rdir = VERIF + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + '-'): os.unlink(os.path.join(rdir, old))
    seen = set()
    for c, rm, inp, out, b, how in viol:
        if (c.fn) in seen: continue
        seen.add(c.fn); nvio += 1
        path = '%s/%s-%d.json' % (rdir, pid, nvio)
        json.dump({'property': pid, 'function': c.fn, 'rounding_mode': ['nearest-even', 'down', 'up', 'zero', 'nearest-away'][rm], 'argument_types': c.args,
                   'argument_bits': [hx(x) for x in inp], 'native_result': {k: (hex(v) if isinstance(v, int) else {str(a): hx(x) for a, x in v.items()}) for k, v in out.items()},
                   'failed_obligations': b, 'found_by': how, 'verifier_output': [{'case': cname(cs), **f} for cs, f in need.get(c.fn, [])[:5]],
                   'replay': 'call %s in a program linked with libdfp on these bits' % c.fn}, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for fn, fl in unconf:
        nvio += 1
        path = '%s/%s-%d.json' % (rdir, pid, nvio)
        json.dump({'property': pid, 'function': fn, 'failed_obligations': [{'case': cname(cs), **f} for cs, f in fl[:20]], 'count': len(fl),
                   'native_search': '%d directed inputs, none violates the postcondition' % searched}, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    fns = {}
    for r in results:
        d = fns.setdefault(r['fn'], {'cases': 0, 'paths': 0, 'obligations': 0, 'discharged': 0, 'seconds': 0.0})
        d['cases'] += 1; d['paths'] += r['paths']; d['obligations'] += r['goals']; d['discharged'] += r['dis']; d['seconds'] = round(d['seconds'] + r['wall'], 2)
    if frm: fns['(frame of the rounding mode: every function of the library)'] = {'functions': frm['functions'], 'units': frm['units'], 'obligations': len(frm['results']), 'discharged': sum(ok for _, _, ok, _ in frm['results']), 'executed': [list(x) for x in frm['results'] if 'neither' not in x[3]], 'seconds': frm['seconds']}
    inl = sorted({x for r in results for x in r['inl']})
    used = sorted({x for r in results for x in r['used']})
    level = P.get('level', 'proof')
    cov = {'obligations': obligations, 'discharged': discharged, 'checker_cmd': 'python3-vt engine/check.py %s %s' % (pid, tier),
           'trusted_base': P.get('trusted', []) + TRUSTED + ['assumed contract: ' + u for u in used],
           'functions_under_contract': fns, 'callees_executed_in_place': inl,
           'discharged_by': {'simplifier and interval engine': sum(r['simp'] for r in results), 'z3 %s' % '.'.join(map(str, solver.z3.get_version()[:3])): sum(r['z3'] - r['cvc5'] for r in results), 'cvc5': sum(r['cvc5'] for r in results)},
           'paths': sum(r['paths'] for r in results), 'instructions_executed': sum(r['insts'] for r in results), 'solver_seconds': round(sum(r['z3_time'] for r in results), 1),
           'path_witnesses_replayed_natively': wit, 'samples': wsamples, 'units_extracted': len(units),
           'bounded_standins': {'functions': bper, 'evaluations': bt, 'distinct_nontrivial': bn, 'rule': 'directed pseudo-random operands (cohorts, boundaries, ties, extreme exponents, non-canonical and special encodings); non-trivial: distinct and inside the precondition', 'note': 'bounded, not counted as obligations'} if bnd else {}}
    if level != 'proof':
        cov['explanation'] = P.get('explanation', ''); cov['evaluations'] = bt + wit; cov['distinct_nontrivial'] = bn
        cov['rule'] = 'directed pseudo-random operands'
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': P.get('assumptions', []) + ASSUME,
               'wall_s': round(time.time() - T0, 1), 'violations': nvio}, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d functions, %d paths, bounded evaluations %d, %.1f s, violations %d' % (pid, tier, obligations, discharged, len(fns), cov['paths'], bt, time.time() - T0, nvio))
    if not nvio and cts and (not obligations or obligations != discharged):
        print('check error: obligations not accounted for'); sys.exit(2)
    sys.exit(1 if nvio else 0)
def cname(case): return ','.join(case[0]) + ('' if case[1] is None else ' ' + str(case[1][0]))
TRUSTED = ['engine (symbolic executor, term normaliser, spec evaluator): /verif/engine', 'clang 18 front end and the listed opt passes (C to LLVM IR)', 'z3 / cvc5', 'gcc code generation agrees with clang on defined behaviour (path witnesses replayed natively)']
ASSUME = ['extraction: clang compiles the same sources with the configured include path; _Decimal types are lowered to structs whose operators call the libdfp entry points gcc emits calls to',
          'fesetexcept(m) raises exactly the flags in m and returns; errno is an ordinary thread-local int', 'non-const static tables with internal linkage keep their initial values']
if __name__ == '__main__': main()
