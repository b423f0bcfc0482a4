"""mutate.py OUTDIR WORKERS N SEED [FILE...]: mechanical mutants of /repo's sources, each run against the checks (in scratch
copies of /repo and /verif) until one reports a violation. Survivors are to be read by hand: a gap, or equivalent."""
import os, random, re, shutil, subprocess, sys, threading, json, time
OUT, W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
FILES = sys.argv[5:] or ['src/main.rs', 'src/thumb.rs', 'src/wrapper.rs', 'src/ir.rs', 'src/ir/define.rs', 'src/ir/item.rs', 'src/ir/ty.rs']
REPO, VERIF = '/repo', '/verif'
rnd = random.Random(SEED)
SWAP = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bcontinue;', 'break;'), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'Exact\(', 'LowerBound('),
        (r'LowerBound\(', 'Exact('), (r'\bspace1\b', 'space0'), (r'\bspace0\b', 'space1'), (r'many0', 'many1'), (r'many1', 'many0'), (r'separated_list0', 'separated_list1'), (r'\.starts_with\(', '.contains('), (r'\.starts_with\(', '.ends_with('),
        (r'\.insert\(', '.remove(&'), (r' << ', ' >> '), (r' & ', ' | '), (r'b\.cmp\(&a\)', 'a.cmp(&b)'), (r'\.skip\(1\)', '.skip(2)'), (r'Outgoing', 'Incoming'), (r'cmp::max', 'cmp::min'), (r'i32::from', 'u32::from'), (r'\?;', '.ok();'),
        (r'\.args\(', '.args(&[] as &[&str]).args('), (r'\.max\(', '.min('), (r'\.next\(\)', '.last()'), (r'unwrap_or\((\w+)\)', r'unwrap_or(\1 ^ true)')]
def muts(f, text):
    ls = text.split('\n')
    out = []
    end = len(ls)
    for i, l in enumerate(ls):
        if '#[cfg(test)]' in l or 'mod tests' in l:
            end = i
            break
    for i, l in enumerate(ls[:end]):
        c = l.split('//')[0] if not '"' in l else l
        if not c.strip() or c.strip().startswith(('//', 'use ', '#', 'eprintln', 'warn!', 'error!', 'mod ', 'extern')): continue
        def put(n, kind):
            if n != l: out.append((f, i, l, n, kind))
        for a, b in SWAP:
            for m in re.finditer(a, c): put(l[:m.start()] + m.expand(b) + l[m.end():], a)
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."xb])', c): put(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], 'const+1')
        if f.endswith('thumb.rs'):
            for m in re.finditer(r'"0b([01xX_a-zA-Z]+)"', c):
                s = m.group(1)
                bits = [j for j, ch in enumerate(s) if ch in '01x' or ch == 'X']
                j = rnd.choice(bits)
                n = {'0': '1', '1': '0', 'x': rnd.choice('01'), 'X': '0'}[s[j]]
                put(l[:m.start(1)] + s[:j] + n + s[j + 1:] + l[m.end(1):], 'bit')
            for m in re.finditer(r'0b([01_]{4,})', c):
                if '"' in c: continue
                s = m.group(1); bits = [j for j, ch in enumerate(s) if ch in '01']; j = rnd.choice(bits)
                put(l[:m.start(1)] + s[:j] + ('1' if s[j] == '0' else '0') + s[j + 1:] + l[m.end(1):], 'mask')
        else:
            for m in re.finditer(r'"([^"\\{}]{2,})"', c):
                put(l[:m.start(1)] + m.group(1)[:-1] + l[m.end(1):], 'string')
                put(l[:m.start(1)] + m.group(1) + 'q' + l[m.end(1):], 'string+')
        if re.match(r'\s*(?!let|return|use|pub|break|continue|type|const|mod)[\w.*\[\]]+.*;$', l): put(re.match(r'\s*', l).group(0) + '/* gone */', 'delete')
        if re.match(r'\s*(tag\(|map\(tag\(|delimited).*,$', l): put('', 'delete-alt')
        if f.endswith('define.rs') or f.endswith('item.rs') or f.endswith('ty.rs'):
            if re.match(r'\s*[\w:]+,$', l): put('', 'delete-alt')
    return out
def props(f, i, l):
    if f.endswith('thumb.rs'): p = ['C03', 'C04', 'C05', 'C08', 'C17']
    elif f.endswith('wrapper.rs'): p = ['C14', 'C15', 'C18']
    elif '/ir' in f: p = ['C06', 'C07', 'C12', 'C17', 'C16', 'C10']
    elif i < 230: p = ['C18', 'C20', 'C22', 'C21']
    elif i < 340: p = ['C22', 'C21', 'C18', 'C19', 'C17', 'C06']
    elif i < 520: p = ['C12', 'C19', 'C08', 'C07', 'C06', 'C13']
    elif i < 800: p = ['C06', 'C16', 'C07', 'C08', 'C03', 'C13']
    elif i < 975: p = ['C03', 'C04', 'C05', 'C08']
    elif i < 1090: p = ['C07', 'C08', 'C10']
    elif i < 1180: p = ['C09', 'C13']
    else: p = ['C01', 'C02', 'C10', 'C11', 'C13', 'C09']
    return p + [x for x in ['C%02d' % k for k in range(1, 24)] if x not in p]
def main():
    os.makedirs(OUT, exist_ok=True)
    src = {f: open(os.path.join(REPO, f)).read() for f in FILES}
    pool = {f: muts(f, t) for f, t in src.items()}
    tot = sum(len(v) for v in pool.values())
    print({f: len(v) for f, v in pool.items()}, flush=True)
    # one mutant per line and kind first: random order, at most one per line until exhausted
    allm = [m for v in pool.values() for m in v]
    rnd.shuffle(allm)
    seen, pick = set(), []
    for m in allm:
        if (m[0], m[1]) not in seen:
            seen.add((m[0], m[1])); pick.append(m)
    done = set()
    log = os.path.join(OUT, 'log.jsonl')
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l); done.add((d['file'], d['old'], d['new']))
    pick = [m for m in pick if (m[0], m[2], m[3]) not in done][:N]
    lock = threading.Lock()
    def work(k):
        d = os.path.join(OUT, 'w%d' % k)
        R, V = d + '/repo', d + '/verif'
        subprocess.run(['rm', '-rf', d]); os.makedirs(d)
        subprocess.run(['git', 'clone', '-q', REPO, R], check=True)
        subprocess.run(['git', 'clone', '-q', VERIF, V], check=True)
        os.makedirs(V + '/build', exist_ok=True)
        for x in os.listdir(VERIF + '/build'):
            if x.startswith(('symx-', 'shim-')): shutil.copy(VERIF + '/build/' + x, V + '/build/')
        while True:
            with lock:
                if not pick: return
                m = pick.pop()
            f, i, old, new, kind = m
            ls = src[f].split('\n'); ls[i] = new
            open(os.path.join(R, f), 'w').write('\n'.join(ls))
            t = time.time(); res = 'SURVIVED'; by = ''
            for x in os.listdir(V + '/build'):
                if x.startswith('prog-'): shutil.rmtree(V + '/build/' + x, ignore_errors=True)
            for p in props(f, i, old):
                try: r = subprocess.run(['python3-vt', 'harness/check.py', p, 'quick'], cwd=V, env=dict(os.environ, SYMX_REPO=R), capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired: res, by = 'TIMEOUT', p; break
                if 'cannot build' in r.stderr or 'build failed' in r.stderr: res = 'NOBUILD'; break
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    q = [l for l in r.stdout.split('\n') if l.strip()]
                    res, by = 'KILLED', p + ' ' + next((q[j - 1].strip() for j, l in enumerate(q) if 'VIOLATION' in l), '')[:120]
                    break
                if r.returncode: res, by = 'RC%d' % r.returncode, p + ' ' + (r.stdout + r.stderr)[-200:]; break
            open(os.path.join(R, f), 'w').write(src[f])
            with lock:
                with open(log, 'a') as o: o.write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, kind=kind, res=res, by=by, t=round(time.time() - t))) + '\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
