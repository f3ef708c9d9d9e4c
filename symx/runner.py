"""Runs one property: symbolic exploration over 8 processes, replay, evidence."""
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
REALPY = '/opt/venv/bin/python'
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
NPROC = int(os.environ.get('SX_NPROC', '0')) or min(8, os.cpu_count() or 1)


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)


def setup_symbolic(path):
    """install the instrumenting importer and load the harness instrumented"""
    from . import rewrite, runtime
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    runtime.REPO_PREFIX = REPO.rstrip('/') + '/'
    sys.meta_path.insert(0, rewrite.Finder({'sldr': os.path.join(REPO, 'lib')}))
    sys.path.insert(0, os.path.dirname(path))
    rewrite.collections_std()
    with open(path, encoding='utf-8') as f:
        src = f.read()
    # declarations read before instrumented loading
    ns = {}
    for line in src.splitlines():
        if line.startswith('#std '):
            rewrite.load_std(*line.split()[1:])
        if line.rstrip() == '#xml':
            rewrite.xml_std()
        if line.startswith('#tab '):
            mod, qn = line.split()[1:3]
            runtime.TAB_NAMES.add((None if mod == '-' else mod, qn))
        if line.startswith('#symlib '):
            # instrumented third-party package, or one module of a package
            top, root = line.split()[1:3]
            for f in sys.meta_path:
                if isinstance(f, rewrite.Finder):
                    f.roots[top] = VENV_SITE if root == '-' else root
    name = os.path.splitext(os.path.basename(path))[0]
    sys.path.insert(0, VERIF)
    # helper modules of harnesses are instrumented too
    for f in sys.meta_path:
        if isinstance(f, rewrite.Finder):
            for fn in os.listdir(os.path.dirname(path)):
                if fn.startswith('h_') and fn.endswith('.py'):
                    f.roots[fn[:-3]] = os.path.dirname(path)
    h = rewrite.load_file(name, path)
    if hasattr(h, 'setup_symbolic'):
        h.setup_symbolic()
    return h


def repo_where(e):
    tb = e.__traceback__
    where = '?'
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO):
            where = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return where


def run_path(eng, h, case, prefix, model):
    from . import engine as E, symapi
    from .ir import ev
    eng.start(prefix, model)
    x = symapi.Symbolic(eng)
    status = 'completed'
    why = None
    try:
        h.run(x, case)
    except E.PathEnd:
        status = 'pruned'
    except E.Infeasible:
        status = 'pruned'
    except E.Found as f:
        eng.found.append((f.label, dict(eng.model)))
        status = 'violation'
    except E.Unsupported as e:
        status, why = 'undecided', 'unsupported: %s' % e
    except E.Incomplete as e:
        status, why = 'incomplete', str(e)
    except E.StepLimit:
        status, why = 'steplimit', 'step limit'
    except RecursionError as e:
        status, why = 'steplimit', 'recursion limit'
    except MemoryError:
        status, why = 'undecided', 'memory'
    except Exception as e:
        eng.found.append(('raises %s in %s' % (type(e).__name__, repo_where(e)), dict(eng.model)))
        status = 'violation'
        why = traceback.format_exc()[-1500:]

    def inputs(m):
        r = {}
        for name, kind, p in eng.inputs:
            if kind == 'const':
                r[name] = p
            elif kind == 'real':
                r[name] = str(ev(p, m))
            else:
                r[name] = ev(p, m)
        return r

    def full(m):
        mm = dict(eng.model)
        mm.update(m)
        return mm
    res = {'status': status, 'why': why, 'inputs': inputs(eng.model), 'covers': sorted(eng.covers),
           'found': [(l, inputs(full(m))) for l, m in eng.found], 'obl': eng.path_obl,
           'ndec': len(eng.decisions)}
    if status == 'completed':
        if not eng.finish():
            status = res['status'] = 'undecided'
            why = 'path condition not confirmed'
        try:
            res['observed'] = [[n, symapi.realise(v, eng.model)] for n, v in eng.observed]
        except Exception as e:
            res['observed'] = None
            res['why'] = 'observe: %r' % e
    eng.stats.paths += 1
    eng.stats.steps += eng.steps
    if status == 'completed':
        eng.stats.completed += 1
    elif status == 'pruned':
        eng.stats.pruned += 1
    elif status == 'undecided':
        eng.stats.undecided += 1
        eng.note(why)
    elif status == 'incomplete':
        eng.stats.incomplete += 1
    elif status == 'steplimit':
        eng.stats.steplimit += 1
        eng.note(why)
    return res


def worker(conn, path, seed):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    import gc
    gc.freeze()
    sys.setrecursionlimit(6000)
    from . import engine as E, ir
    devnull = NullOut()
    h = worker.h
    cases = worker.cases
    eng = E.Engine(step_limit=getattr(h, 'STEP_LIMIT', 400000))
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            ci, prefix, model, slice_s = msg
            if ir.cons_size() > 400000:
                ir.cons_clear()
                old = eng
                eng = E.Engine(step_limit=getattr(h, 'STEP_LIMIT', 400000))
                eng.functions = old.functions
            eng.stats = E.Stats()
            eng.reasons = {}
            eng.concretised = {}
            eng.str_cap = getattr(h, 'STR_CAP', 6)
            eng.frontier = [(prefix, model)]
            t0 = time.time()
            results = []
            so, sys.stdout = sys.stdout, devnull
            try:
                while eng.frontier and time.time() - t0 < slice_s:
                    p, m = eng.frontier.pop()
                    try:
                        results.append(run_path(eng, h, cases[ci], p, m))
                    except MemoryError:
                        eng.stats.undecided += 1
                        eng.note('memory')
            finally:
                sys.stdout = so
            left = eng.frontier
            eng.frontier = []
            conn.send((ci, results, left, {f: getattr(eng.stats, f) for f in E.Stats.FIELDS},
                       sorted(eng.functions), eng.reasons, eng.concretised))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        conn.close()


class Replayer(object):
    """batch replay in subprocesses of the repository's interpreter"""
    def __init__(self, path, scratch):
        self.path = path
        self.scratch = scratch

    def env(self):
        env = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1',
               'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8', 'HOME': self.scratch, 'SX_REPO': REPO,
               'TMPDIR': self.scratch}
        return env

    def run(self, reqs):
        if not reqs:
            return []
        n = max(1, min(NPROC, len(reqs) // 20 + 1))
        chunks = [reqs[i::n] for i in range(n)]
        procs = []
        for ch in chunks:
            inp = os.path.join(self.scratch, 'rq%d.jsonl' % len(procs))
            outp = os.path.join(self.scratch, 'an%d.jsonl' % len(procs))
            with open(inp, 'w') as f:
                for r in ch:
                    f.write(json.dumps(r) + "\n")
            fi, fo = open(inp), open(outp, 'w')
            p = subprocess.Popen([REALPY, os.path.join(VERIF, 'symx', 'replay.py'), self.path], stdin=fi, stdout=fo,
                                 stderr=subprocess.PIPE, cwd=self.scratch, env=self.env())
            procs.append((p, outp, len(ch)))
            fi.close()
            fo.close()
        out = [None] * len(reqs)
        self.err = ''
        for k, (p, outp, cnt) in enumerate(procs):
            try:
                _, er = p.communicate(timeout=240)
            except subprocess.TimeoutExpired:
                p.kill()
                _, er = p.communicate()
            if er:
                self.err = er.decode('utf-8', 'replace')[-2000:]
            with open(outp) as f:
                for j, line in enumerate(f):
                    out[k + j * n] = json.loads(line)
        return out


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                if line.startswith('KNOWN: '):
                    # KNOWN: property=X label=<label> when=<python expr over case, i> :: description
                    head, _, desc = line[7:].partition(' :: ')
                    d = {}
                    prop, _, rest = head.partition(' ')
                    d['property'] = prop.split('=', 1)[1]
                    lab, _, when = rest.partition(' when=')
                    d['label'] = lab.split('=', 1)[1].strip()
                    d['when'] = when.strip()
                    d['desc'] = desc.strip()
                    known.append(d)
    return known


def is_known(known, prop, label, case, inputs):
    for k in known:
        if k['property'] != prop:
            continue
        if k['label'] != '*' and k['label'] != label:
            continue
        try:
            if eval(k['when'], {'case': case, 'i': inputs}):
                return k
        except Exception:
            continue
    return None


def main(path, tier=None, seed=None, budget=None, verbose=False, only=None):
    t_start = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    h = setup_symbolic(path)
    prop = h.PROPERTY
    cases = list(h.cases(tier))
    if only is not None:
        cases = [c for i, c in enumerate(cases) if str(i) in only or str(c) in only]
    cases = [json.loads(json.dumps(c)) for c in cases]
    budget = budget or (getattr(h, 'BUDGET', 120) if tier == 'quick' else getattr(h, 'BUDGET_THOROUGH', 1500))
    scratch = tempfile.mkdtemp(prefix='sx_')
    os.chdir(scratch)
    worker.h = h
    worker.cases = cases
    known = load_known()
    if hasattr(h, 'preload'):
        h.preload()
    ctx = mp.get_context('fork')
    procs = []
    conns = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, path, seed), daemon=True)
        p.start()
        b.close()
        return p, a
    for i in range(NPROC):
        p, a = spawn()
        procs.append(p)
        conns.append(a)
    from .engine import Stats
    stats = Stats()
    # queue of tasks; round robin over the cases so that a budget stop is fair
    queue = [[(ci, (), None)] for ci in range(len(cases))]
    rr = 0
    busy = {}
    idle = list(range(NPROC))
    functions = set()
    reasons = {}
    concretised = {}
    covers = {}
    completed = []
    violations = []
    kinds = {}
    lost = 0
    deadline = time.time() + budget
    percase = {}
    casedone = [0] * len(cases)
    grace = None
    rep = Replayer(path, scratch)
    confirmed = []
    unreproduced = []
    knownhits = {}
    checked_keys = set()

    def pick():
        nonlocal rr
        for k in range(len(queue)):
            q = queue[(rr + k) % len(queue)]
            if q:
                rr = (rr + k + 1) % len(queue)
                return q.pop()
        return None
    while True:
        now = time.time()
        stop = now > deadline or (grace is not None and now > grace)
        while idle and not stop:
            t = pick()
            if t is None:
                break
            w = idle.pop()
            ntasks = sum(len(q) for q in queue)
            slice_s = 0.3 if ntasks < 2 * NPROC else 2.0
            try:
                conns[w].send((t[0], t[1], t[2], slice_s))
                busy[w] = t
            except (BrokenPipeError, OSError):
                lost += 1
                procs[w], conns[w] = spawn()
                idle.append(w)
        if not busy:
            break
        ready = multiprocessing.connection.wait([conns[w] for w in busy], timeout=1.0)
        for c in ready:
            w = conns.index(c)
            t = busy.pop(w)
            try:
                ci, results, left, st, fns, rs, cc = c.recv()
            except (EOFError, OSError):
                lost += 1
                if verbose:
                    print("worker lost on case", cases[t[0]])
                procs[w], conns[w] = spawn()
                idle.append(w)
                continue
            idle.append(w)
            for f in Stats.FIELDS:
                setattr(stats, f, getattr(stats, f) + st[f])
            functions.update(fns)
            for k, v in rs.items():
                reasons[k] = reasons.get(k, 0) + v
            for k, v in cc.items():
                concretised[k] = concretised.get(k, 0) + v
            queue[ci].extend((ci, p, m) for p, m in left)
            pc = percase.setdefault(ci, [0, 0])
            pc[0] += len(results)
            newv = []
            for r in results:
                for cv in r['covers']:
                    covers[cv] = covers.get(cv, 0) + 1
                if r['status'] == 'completed':
                    completed.append((ci, r))
                elif r['status'] == 'steplimit':
                    newv.append((ci, 'does not terminate', r['inputs'], r['why']))
                elif verbose and r['status'] in ('undecided', 'incomplete'):
                    print(r['status'], cases[ci], r['inputs'], r['why'])
                for lab, inp in r['found']:
                    newv.append((ci, lab, inp, r['why']))
            todo = []
            for v in newv:
                key = (v[0], v[1])
                kinds[key] = kinds.get(key, 0) + 1
                if kinds[key] <= 12:
                    todo.append(v)
                elif kinds[key] == 13:
                    pass
            if todo:
                ans = rep.run([{'case': cases[v[0]], 'inputs': v[2]} for v in todo])
                for v, a in zip(todo, ans):
                    if a is not None and a['status'] == 'violation':
                        kn = is_known(known, prop, a['label'], cases[v[0]], v[2])
                        if kn is not None:
                            knownhits[kn['desc']] = knownhits.get(kn['desc'], 0) + 1
                        else:
                            confirmed.append((v, a))
                    else:
                        unreproduced.append((v, a))
                        if verbose:
                            print("UNREPRODUCED", cases[v[0]], v[1:], a, rep.err if a is None else '')
                if confirmed and grace is None:
                    grace = time.time() + float(os.environ.get('SX_GRACE', '3'))
        if stop and not busy:
            break
    for c in conns:
        try:
            c.send(None)
        except OSError:
            pass
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.terminate()
    remaining = sum(len(q) for q in queue)
    explore_s = time.time() - t_start
    # replay of the models of completed paths
    import random
    rnd = random.Random(seed)
    cap = getattr(h, 'REPLAY_CAP', 3000 if tier == 'quick' else 20000)
    sel = completed
    if len(sel) > cap:
        sel = rnd.sample(completed, cap)
    validated = mismatch = 0
    mism = []
    if not confirmed:
        ans = rep.run([{'case': cases[ci], 'inputs': r['inputs']} for ci, r in sel])
        for (ci, r), a in zip(sel, ans):
            if a is None:
                mismatch += 1
                mism.append((cases[ci], r['inputs'], 'no answer', rep.err))
                continue
            if a['status'] == 'violation':
                kn = is_known(known, prop, a['label'], cases[ci], r['inputs'])
                if kn is not None:
                    knownhits[kn['desc']] = knownhits.get(kn['desc'], 0) + 1
                    continue
                confirmed.append(((ci, a['label'], r['inputs'], 'found on replay of a solver model'), a))
            elif a['status'] == 'ok' and r.get('observed') is not None and \
                    json.loads(json.dumps(r['observed'])) == a['observed']:
                validated += 1
            else:
                mismatch += 1
                mism.append((cases[ci], r['inputs'], r.get('observed'), a))
    if verbose:
        for m in mism[:5]:
            print("MISMATCH", json.dumps(m, ensure_ascii=True, default=str)[:1500])
    missing = [c for c in getattr(h, 'COVERS', []) if c not in covers]
    wall = time.time() - t_start
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    vio = []
    seen = set()
    for (ci, lab, inp, why), a in confirmed:
        key = a['label']
        if key in seen:
            continue
        seen.add(key)
        name = '%s-%s.json' % (prop, hashlib.sha1(repr((ci, key)).encode()).hexdigest()[:8])
        rp = os.path.join(evdir, 'replays', name)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'harness': os.path.relpath(path, VERIF), 'case': cases[ci], 'inputs': inp,
                       'label': a['label'], 'detail': a.get('detail'), 'symbolic_label': lab,
                       'observed': a.get('observed'),
                       'how': '%s symx/replay.py --file %s' % (REALPY, rp)}, f, indent=1)
        vio.append((a['label'], rp, cases[ci], inp))
    exhaustive = remaining == 0 and lost == 0 and stats.undecided == 0 and stats.incomplete == 0 \
        and stats.unknown == 0 and not confirmed and stats.steplimit == 0
    samples = []
    for ci, r in (rnd.sample(completed, min(5, len(completed))) if completed else []):
        samples.append({'case': cases[ci], 'inputs': show(r['inputs']), 'decisions': r['ndec'],
                        'obligations': r['obl'], 'observed': r.get('observed')})
    if not samples and vio:
        samples = [{'case': v[2], 'inputs': show(v[3]), 'violates': v[0]} for v in vio[:3]]
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': stats.paths, 'transitions': stats.decisions,
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': bool(exhaustive),
            'technique': 'symbolic execution of the real source, z3 deciding branches and obligations',
            'bounds': h.BOUNDS if isinstance(getattr(h, 'BOUNDS', ''), str) else str(h.BOUNDS),
            'functions_encoded': sorted(functions),
            'cases': len(cases), 'paths_completed': stats.completed, 'paths_pruned_by_assumptions': stats.pruned,
            'paths_undecided': stats.undecided, 'paths_incomplete': stats.incomplete,
            'paths_step_limit': stats.steplimit,
            'paths_not_explored_at_budget': remaining, 'workers_lost': lost,
            'solver_queries': stats.queries, 'solver_sat': stats.sat, 'solver_unsat': stats.unsat,
            'feasible_by_witness_evaluation': stats.witness,
            'solver_unknown': stats.unknown, 'solver_seconds': round(stats.solver_s, 2),
            'forced_branches': stats.forced,
            'obligations': stats.obligations, 'obligations_discharged': stats.discharged,
            'obligations_folded_to_true_by_path_condition': stats.folded,
            'replays_disagreeing_with_encoding': mismatch,
            'counterexamples_not_reproduced': len(unreproduced),
            'reachability_witnesses': covers, 'reachability_missing': missing,
            'undecided_reasons': reasons, 'concretised_calls': concretised,
            'engine_s': round(explore_s, 2),
        },
        'assumptions': list(getattr(h, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(vio),
    }
    tmp = os.path.join(evdir, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, prop + '.json'))
    os.chdir(VERIF)
    shutil.rmtree(scratch, ignore_errors=True)
    for d in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    print("%s %s: %d paths (%d completed, %d pruned, %d undecided, %d incomplete), %d queries, %.1fs solver, "
          "%d/%d obligations, %d replays agree, %d disagree, left %d, wall %.1fs%s" % (
              prop, tier, stats.paths, stats.completed, stats.pruned, stats.undecided, stats.incomplete, stats.queries,
              stats.solver_s, stats.discharged, stats.obligations, validated, mismatch, remaining, wall,
              '' if exhaustive else ' (not exhaustive)'))
    if missing:
        print("warning: never reached: %s" % ", ".join(missing))
    if unreproduced:
        print("warning: %d counterexamples of the encoding did not reproduce" % len(unreproduced))
    if verbose:
        print(reasons, concretised)
        for ci in sorted(percase, key=lambda c: -percase[c][0])[:30]:
            print("  case", cases[ci], percase[ci][0], "left", len(queue[ci]))
    if vio:
        for lab, rp, case, inp in vio[:8]:
            print("counterexample: %s case=%s inputs=%s" % (lab, json.dumps(case)[:200], json.dumps(show(inp))[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, vio[0][1]))
        return 1
    return 0


def show(inp):
    return inp
