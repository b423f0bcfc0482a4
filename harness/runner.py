"""Runs the scenarios of a property: symbolic execution, oracle, replay, evidence."""
import copy, json, os, sys, time, subprocess, multiprocessing as mp, traceback, shutil, signal, random
import z3
import build
from rec import Rec, Malformed, parse_dot, parse_top, canon, concretize, show

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Violation:
    def __init__(self, desc, model, cond=None):
        self.desc, self.model = desc, model


class Ctx:
    """what an oracle gets: assertions over one explored path"""
    def __init__(self, rec, sc):
        self.rec, self.sc, self.T = rec, sc, sc.truth
        self.found = []
        self.asserted = 0
        self.pending = []

    def fail(self, desc, cond=True):
        """the property is broken on this path whenever cond holds"""
        self.asserted += 1
        if cond is True: cond = z3.BoolVal(True)
        c = z3.simplify(cond)
        if z3.is_false(c): return
        self.pending.append((desc, c))

    def require(self, cond, desc):
        if cond is True: self.asserted += 1
        elif cond is False: self.fail(desc)
        else: self.fail(desc, z3.Not(cond))

    def flush(self):
        if not self.pending: return
        if len(self.pending) > 1 and self.rec.sat(z3.Or([c for _, c in self.pending])) is None:
            self.pending = []
            return
        for d, c in self.pending:
            m = self.rec.sat(c)
            if m is not None:
                self.found.append((d, m))
                break
        self.pending = []

    def graph(self):
        """the reported dot graph; a malformed one is a failure of the oracle's property"""
        if not hasattr(self, '_g'):
            self._g = parse_dot(self.rec.out, self.rec)
        return self._g

    @property
    def ok(self):
        return self.rec.kind == 'exit' and self.rec.code == 0


class Split(Exception):
    """the oracle needs to know this condition, which the path leaves open"""
    def __init__(self, cond): self.cond = cond


def decide(c, cond):
    """the truth value of a condition on this path; the oracle is run for both values if it has none"""
    if isinstance(cond, bool): return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond): return True
    if z3.is_false(cond): return False
    if c.rec.must(cond): return True
    if c.rec.must(z3.Not(cond)): return False
    raise Split(cond)


def apply_oracle(oracle, rec, sc, depth=0):
    c = Ctx(rec, sc)
    try:
        oracle(c)
    except Split as s:
        if depth > 12: raise
        c.pending = []
        for b in (s.cond, z3.Not(s.cond)):
            r = copy.copy(rec)
            r.pc, r._solver = rec.pc + [b], None
            x = apply_oracle(oracle, r, sc, depth + 1)
            c.found += x.found
            c.asserted += x.asserted
            c.tag = getattr(x, 'tag', None) or getattr(c, 'tag', None)
        return c
    except Malformed as e:
        c.fail('malformed output: %s' % e, e.cond if e.cond is not None else True)
    c.flush()
    return c


_W = {}


def _init(sc_list):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W['s'] = sc_list


def _work(a):
    k, line = a
    try:
        sc, oracle = _W['s'][k]
        j = json.loads(line)
        r = Rec(j, sc)
        # nothing can be said about a path the engine could not follow: it counts as not explored
        c = apply_oracle(oracle, r, sc) if r.kind != 'error' else Ctx(r, sc)
        nq = getattr(r, 'nq', 0) if r._solver is not None else 0
        res = dict(kind=r.kind, code=r.code, msg=r.msg, found=c.found, asserted=c.asserted, q=j['q'] + nq, ns=j['ns'], steps=j['steps'],
                   fns=j['fns'], nfn=j['nfn'], depth=j['depth'], wit=j['wit'], npc=len(j['pc']), tag=getattr(c, 'tag', None))
        return k, res, None
    except Exception:
        return k, None, traceback.format_exc() + line[:300]


class Group:
    """scenarios explored one after the other with one oracle each"""
    def __init__(self, prop, gens, known=None):
        self.prop = prop
        self.gens = gens      # list of (name, gen(root)->Scenario, oracle, opts)
        self.known = known or (lambda name, desc, model: None)


def engine_run(engine, sp, out, budget):
    if os.path.exists(out): os.remove(out)
    try:
        r = subprocess.run([engine, sp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 60)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-f', sp])
        return 'engine did not stop'
    if r.returncode != 0: return 'engine: ' + r.stderr.decode(errors='replace')[-500:]
    return None


def whole(line):
    try: json.loads(line)
    except ValueError: return False
    return True


def known_findings(prop):
    p = os.path.join(build.VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']


def run_check(prop, gens, level_note='', bounds='', validate=3, tier=None, budget=None):
    """gens: list of dicts(name, gen, oracle, weight). Exit status is the verdict."""
    tier = tier or TIER
    t0 = time.time()
    total = budget or (780 if tier == 'quick' else 6 * 3600)
    engine, ll, native, key = build.all()
    work = os.path.join(build.BUILD, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(os.path.join(build.BUILD, 'replay', prop), ignore_errors=True)
    os.makedirs(work)
    fnlist = os.path.join(work, 'fnlist')
    scs = []
    stats = dict(paths=0, exits=0, aborts=0, errors=0, limits=0, q=0, ns=0, steps=0, branches=0, asserted=0, validated=0)
    fns, errs, found, incomplete, samples, persc = set(), [], [], [], [], []
    pool = None
    notes = []
    t_build = time.time() - t0
    for k, g in enumerate(gens):
        root = os.path.join(work, g['name'])
        sc = g['gen'](root)
        sc.name = g['name']
        scs.append((sc, g['oracle']))
    pool = mp.Pool(8, _init, (scs,))
    known = known_findings(prop)
    hits = []
    for k, g in enumerate(gens):
        sc = scs[k][0]
        left = total - (time.time() - t0)
        if left < 20:
            incomplete.append(g['name'] + ' (not started)')
            continue
        sc.deadline = int(min(g.get('deadline', 300 if tier == 'quick' else 5400), left - 10))
        out = os.path.join(work, g['name'] + '.out')
        sp = sc.write_symbolic(ll, out, fnlist if k == 0 else None)
        ts = time.time()
        e = engine_run(engine, sp, out, sc.deadline)
        te = time.time() - ts
        lines = []
        if os.path.exists(out):
            with open(out, errors='replace') as f: lines = f.read().splitlines()
        if e:
            # what was explored may still show a violation
            errs.append('%s: %s' % (g['name'], e))
            lines = [l for l in lines if whole(l)]
            if not lines: continue
        if not lines: errs.append('%s: no paths' % g['name']); continue
        n_as, tags = 0, {}
        sfound = []
        wits = []
        for li, (kk, res, err) in enumerate(pool.imap(_work, [(k, l) for l in lines], chunksize=max(1, min(32, len(lines) // 64)))):
            if err: errs.append('%s: oracle: %s' % (g['name'], err)); continue
            stats['paths'] += 1
            stats['q'] += res['q']; stats['ns'] += res['ns']; stats['steps'] += res['steps']; stats['branches'] += 1 if res['depth'] else 0
            stats['asserted'] += res['asserted']
            n_as += res['asserted']
            fns.update(res['fns'])
            stats['nfn'] = max(stats.get('nfn', 0), res['nfn'])
            if res['kind'] == 'exit': stats['exits'] += 1
            elif res['kind'] in ('abort', 'ub'): stats['aborts'] += 1
            elif res['kind'] == 'limit': stats['limits'] += 1; incomplete.append(g['name'])
            else: stats['errors'] += 1; incomplete.append(g['name']); notes.append('%s: %s' % (g['name'], res['msg'][:300]))
            if res['tag']: tags[res['tag']] = tags.get(res['tag'], 0) + 1
            if res['kind'] in ('exit', 'abort'): wits.append((li, res['wit'], res['kind'], res['code']))
            for d, m in res['found']: sfound.append((d, m))
        # which expected situations were reached (vacuity)
        for need in g.get('reach', []):
            if need not in tags and not sfound and g['name'] not in incomplete:
                errs.append('%s: situation %r was never reached' % (g['name'], need))
        # model validation: the same scenario, natively, under witnesses of explored paths
        rnd = random.Random(SEED)
        rnd.shuffle(wits)
        seen = set()
        nv = 0
        for li, w, kind, code in wits:
            if nv >= g.get('validate', validate): break
            r = validate_one(g, root_of(work, g, 'v'), lines[li], native, sc)
            nv += 1
            if r != 'ok': errs.append('%s: native run disagrees with the encoding: %s' % (g['name'], r))
        stats['validated'] += nv
        # counterexamples: replay against the real program
        sfound.sort(key=lambda x: x[0])
        cls = {}
        for d, m in sfound: cls.setdefault(d, []).append(m)
        for d, ms in list(cls.items())[:6]:
            done = False
            for m in ms[:4]:
                r = replay(g, prop, d, m, native)
                if r:
                    kf = next((x for x in known if x['scenario'] == g['name'] and x['desc'] in r[0]), None)
                    if kf: hits.append(kf)
                    else: found.append((g['name'], r[0], m, r[1]))
                    done = True
                    break
            if not done: errs.append('%s: counterexample does not reproduce: %s %s' % (g['name'], d, {a: b for a, b in ms[0].items()}))
        persc.append(dict(scenario=g['name'], paths=len(lines), violations=len(sfound), engine_s=round(te, 1), assertions=n_as, situations=tags, symbolic_bits=sum(v.size() for v in sc.vars.values())))
        if wits and len(samples) < 6:
            samples.append(dict(scenario=g['name'], witness={a: b for a, b in list(wits[0][1].items())[:24]}, outcome='%s %d' % wits[0][2:]))
        if tier == 'quick' and found: break
        shutil.rmtree(os.path.join(work, g['name']), ignore_errors=True)
        os.remove(out)
    pool.terminate()
    names = []
    if os.path.exists(fnlist):
        table = dict(l.rstrip('\n').split(' ', 1) for l in open(fnlist))
        names = sorted({demangle(table[str(f)]) for f in fns if str(f) in table})
    verdict = 'violation' if found else ('error' if errs else ('incomplete' if incomplete else 'held'))
    ev = dict(property=prop, tier=tier, seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(found),
              coverage=dict(states=stats['paths'], transitions=stats['branches'], traces_validated_against_impl=stats['validated'], samples=samples or ['none'],
                            exhaustive=not incomplete and not errs, verdict=verdict, scenarios=persc, functions_encoded=names, functions_encoded_total=stats.get('nfn', 0),
                            ir_instructions_executed=stats['steps'], solver_queries=stats['q'], solver_s=round(stats['ns'] / 1e9, 2), oracle_assertions=stats['asserted'],
                            paths=dict(normal=stats['exits'], panicking=stats['aborts'], engine_limit=stats['limits'], engine_error=stats['errors']),
                            bounds=bounds, incomplete=sorted(set(incomplete)), program_key=key, build_s=round(t_build, 1), notes=notes[:10], errors=[x[:600] for x in errs[:10]],
                            explanation='states = explored symbolic paths (each stands for all inputs satisfying its path condition), transitions = feasible symbolic branch decisions that led to a new path'),
              assumptions=['LLVM IR of the program built with fat LTO, -C opt-level=1, panic=abort stands for the shipped binary (checked by native replays of path witnesses)',
                           'libc calls, file system, child processes and clock follow the models in engine/src/libc.rs', bounds])
    os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(build.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for kf in {json.dumps(x, sort_keys=True) for x in hits}:
        kf = json.loads(kf)
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    for s in persc: print('  %-34s paths %6d  assertions %7d  %6.1f s  %s' % (s['scenario'], s['paths'], s['assertions'], s['engine_s'], s['situations'] or ''))
    print('%s %s: %s; %d paths, %d assertions, %d solver queries (%.1f s), %d native validations, %.1f s' % (prop, tier, verdict, stats['paths'], stats['asserted'], stats['q'], stats['ns'] / 1e9, stats['validated'], time.time() - t0))
    if found:
        for n, d, m, path in found[:5]:
            print('  %s: %s' % (n, d))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    for n in notes[:5]: print('  note:', n)
    if errs:
        for x in errs[:5]: print('ERROR', x)
        sys.exit(2)
    if incomplete: print('INCOMPLETE within this budget:', ', '.join(sorted(set(incomplete))))
    sys.exit(0)


def root_of(work, g, suffix):
    return os.path.join(work, g['name'] + '.' + suffix)


def demangle(s):
    """readable enough: path components of a v0 symbol"""
    import re
    out, i = [], 0
    for m in re.finditer(r'(?<![0-9])(\d+)_?', s):
        n = int(m.group(1))
        seg = s[m.end():m.end() + n]
        if n and len(seg) == n and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', seg): out.append(seg)
    return '::'.join(out) or s


def validate_one(g, root, line, native, sc):
    """run natively under the witness of an explored path; its record must predict the outcome"""
    rec = Rec(json.loads(line), sc)
    wit = rec.wit
    s2 = g['gen'](root)
    last = None
    for attempt in range(g.get('attempts', 6)):
        n = s2.run_native(wit, native, seed=attempt + 1)
        if n['kind'] == 'timeout': return 'native run timed out'
        last = compare(rec, n, wit, root_of_sc(sc), root)
        if last == 'ok': break
    shutil.rmtree(root, ignore_errors=True)
    return last


def root_of_sc(sc):
    return sc.root


def compare(rec, n, wit, r1, r2):
    if rec.kind == 'abort':
        return 'ok' if n['kind'] == 'abort' else 'expected a panic, exit %s' % n['code']
    if n['kind'] != 'exit' or n['code'] != rec.code: return 'exit status %s, expected %s; stderr %s' % (n['code'], rec.code, n['err'][-300:])
    fix = lambda b: b.replace(r1.encode() + b'/', b'@/').replace(r2.encode() + b'/', b'@/')
    out = fix(concretize(rec.out, wit))
    if out == fix(n['out']): pass
    elif out.startswith(b'digraph'):
        try:
            dummy = Rec(); dummy.pc = []; dummy._solver = None; dummy.sc = None; dummy.wit = wit
            a, b = canon(parse_dot(list(out), dummy)), canon(parse_dot(list(fix(n['out'])), dummy))
        except Malformed as e:
            return 'outputs differ (malformed: %s)' % e
        if a != b: return 'graphs differ: %r / %r' % ([x - y for x, y in zip(a, b)], [y - x for x, y in zip(a, b)])
    elif sorted(out.split(b'\n')) != sorted(fix(n['out']).split(b'\n')): return 'stdout differs: %r / %r' % (out[:300], n['out'][:300])
    gone = {p.id for p in rec.sc.procs if p.errno}
    a = [[fix(concretize(x, wit)) for x in e['argv']] for e in rec.ev if e['kind'] == 'spawn' and e.get('id') not in gone]
    b = [[fix(x) for x in e['argv']] for e in n['ev'] if e['kind'] == 'spawn']
    strip = lambda l: sorted([x[0].rsplit(b'/', 1)[-1]] + x[1:] for x in l)
    if strip(a) != strip(b): return 'child processes differ: %r / %r' % (strip(a), strip(b))
    return 'ok'


def replay(g, prop, desc, model, native):
    """does the real program break the property under this assignment? (hash order is random: try several times)"""
    base = os.path.join(build.BUILD, 'replay', prop, '%s-%d' % (g['name'], os.getpid()))
    n = 0
    while os.path.exists('%s-%d' % (base, n)): n += 1
    root = '%s-%d' % (base, n)
    for attempt in range(g.get('replays', 24)):
        s = g['gen'](root)
        n = s.run_native(model, native, seed=attempt + 1)
        if n['kind'] == 'timeout':
            r = Rec.concrete(dict(n, kind='timeout', code=-1), model, s.vars, s)
        else:
            r = Rec.concrete(n, model, s.vars, s)
        c = apply_oracle(g['oracle'], r, s)
        if c.found:
            s.save_replay(model, root, native, '%s %s: %s' % (prop, g['name'], c.found[0][0]), seed=attempt + 1)
            with open(os.path.join(root, 'stdout'), 'wb') as f: f.write(n['out'])
            with open(os.path.join(root, 'stderr'), 'wb') as f: f.write(n['err'])
            return c.found[0][0], os.path.join(root, 'replay.sh')
    shutil.rmtree(root, ignore_errors=True)
    return None
