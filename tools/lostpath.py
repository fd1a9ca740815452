"""tools/lostpath.py PROPERTY FUNCTION FORMS LABEL VAR=VALUE...: path-coverage probe
of the engine.  Follows concrete operands (base variables such as x0.c, x0.e,
x0.s, rm) through the symbolic execution of one case, and reports the point where
no successor of a path that holds them does: a feasible path the engine dropped.
Meant for functions without abstracted (fresh) results of callees."""
import sys, os, time, traceback, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts']
import common
common.select = lambda cs, tier, **k: (cs, [])
import extract, verify, execu, state, solver, term, check, contracts
pid, fn, forms_, lab = sys.argv[1:5]
X = {k: int(v) for k, v in (a.split('=') for a in sys.argv[5:])}
build = extract.Build(); build.configure(); build.native()
prog = execu.Program(build, execu.build_symtab(build.b))
P = importlib.import_module(pid.lower()).prop('quick'); cts = P['contracts'] + P['bounded']
for u in check.closure(prog, build, [fn], set(contracts.BASE)):
    try: prog.mod(u)
    except extract.ExtractError: pass
verify.setup_worker(prog, cts)
class Plain:
    def __init__(self, s): self.s = s; self.sub = {}
    def atom_bounds(self, i): return self.s.atom_bounds(i)
def holds(st):
    m = {a.id: X[a.name.split('[')[0]] for a in term.ATOMS if a.kind == 'var' and a.name.split('[')[0] in X}
    ev = solver.Ev(m, Plain(st))
    return all(ev.cond(c) for c in st.pc)
step = execu.Executor.step_path
def probe(self, st, work, ret):
    n = len(work); ok = holds(st)
    try: r = step(self, st, work, ret)
    except state.Infeasible:
        if ok: print('dropped as infeasible in', [f.fn.name for f in st.frames]); traceback.print_exc(); sys.exit(1)
        raise
    if ok and len(work) > n and not any(holds(w) for w in work[n:]):
        print('lost at a case split in', [f.fn.name for f in st.frames])
        for w in work[n:]: print('   kept:', [str(x)[:300] for x in w.pc[len(st.pc):]])
        sys.exit(1)
    if ok and not st.frames and len(work) == n: print('returned:', str(st.ret)[:200])
    return r
execu.Executor.step_path = probe
for i, c in enumerate(cts):
    if c.fn != fn: continue
    for cs in c.cases('quick'):
        if ','.join(cs[0]) == forms_ and (not cs[1] or cs[1][0] == lab):
            r = verify.run_task((i, cs, {'deadline': time.time() + 300}))
            print(r['paths'], 'paths,', r['goals'], 'obligations', r['undis'] or '')
