#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: discharges the obligations of one property on /repo's current source.

See DESIGN.md.  Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import sys, os, re, json, shlex, subprocess, tempfile, shutil, time, random, signal, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CV_REPO', '/repo')
H = VERIF + '/harness'
DEFS = ['-std=c99', '-I' + REPO, '-I' + REPO + '/vendor', '-I' + H, '-DNAN_TAGGING=1', '-DLX_BUILT_DIR=/repo', '-D_GNU_SOURCE', '-DNDEBUG']
CBMC_FLAGS = ['--json-ui', '--verbosity', '8', '--object-bits', '12', '--no-signed-overflow-check', '--no-undefined-shift-check',
              '--no-malloc-may-fail', '--no-pointer-primitive-check', '--drop-unused-functions', '--div-by-zero-check']
NCPU = int(os.environ.get('CV_JOBS', '8'))
COMMON_STUBS = ['throwErrorFmt', 'throwError', 'diePrintCBacktrace', 'die']
DEADLINE = None
TMP = None

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Ob:
    pass

def parse_harness(path):
    obs, dflt = [], {}
    for line in open(path):
        m = re.match(r'\s*//@(default|ob)\s+(.*)', line)
        if not m: continue
        toks = shlex.split(m.group(2))
        if m.group(1) == 'default':
            dflt.update(t.split('=', 1) for t in toks)
            continue
        d = dict(dflt)
        o = Ob(); o.id = toks[0]; o.file = path
        for t in toks[1:]:
            k, v = t.split('=', 1)
            if k.endswith('+'): k = k[:-1]; v = (d.get(k, '') + ',' + v).strip(',')
            d[k] = v
        lst = lambda k: [x for x in d.get(k, '').split(',') if x]
        o.props = lst('props'); o.entry = d.get('entry', 'h_' + o.id); o.src = lst('src'); o.link = lst('link')
        o.stubs = lst('stubs'); o.defs = lst('defs'); o.unwind = int(d.get('unwind', '4')); o.unwindset = lst('unwindset')
        o.level = d.get('level', 'proof'); o.bound = d.get('bound', ''); o.fns = lst('fns'); o.tier = d.get('tier', 'quick')
        o.timeout = int(d.get('timeout', '240')); o.loops = d.get('loops'); o.small = d.get('small') == '1'
        o.known = d.get('known'); o.flags = lst('flags'); o.trust = d.get('trust', ''); o.solver = d.get('solver', 'satfront')
        o.smallunwind = int(d.get('smallunwind', o.unwind)); o.replay = d.get('replay', '1') == '1'
        o.remove = lst('remove'); o.subst = lst('subst')
        obs.append(o)
    return obs

def all_obs():
    r = []
    for f in sorted(os.listdir(H)):
        if f.startswith('h_') and f.endswith('.c'): r += parse_harness(H + '/' + f)
    ids = [o.id for o in r]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return r

procs = set()
def run(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    if DEADLINE: timeout = min(timeout or 1e9, max(1, DEADLINE - time.time()))
    if TMP: env = dict(env or os.environ, TMPDIR=TMP)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=cwd, env=env, preexec_fn=pre)
    procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
        return 'timeout', out.decode('utf8', 'replace'), err.decode('utf8', 'replace')
    finally:
        procs.discard(p)

class BuildError(Exception): pass

def dflags(defs): return [d for d in defs if d.startswith('-')] + ['-D' + d for d in defs if not d.startswith('-')]
def substitute(o):
    """subst=FILE:NAME:N: FILE is included from a copy of the current one in which `#define NAME <number>` has the number N"""
    if not o.subst: return
    d = TMP + '/subst_' + re.sub(r'\W', '_', ','.join(o.subst)); os.makedirs(d, exist_ok=True)
    for f in sorted(set(x.split(':')[0] for x in o.subst)):
        txt = open(REPO + '/' + f).read()
        for g, name, n in [x.split(':') for x in o.subst]:
            if g == f: txt = re.sub(r'^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\d+[ \t]*$' % name, r'\g<1>' + n, txt, flags=re.M)
        open(d + '/' + f, 'w').write(txt)
    o.defs.append('-I' + d)

class Builder:
    """goto binaries, each built once per run from /repo's current text"""
    def __init__(self, tmp):
        self.tmp, self.locks, self.done, self.mu, self.n = tmp, {}, {}, threading.Lock(), 0
    def once(self, key, fn):
        with self.mu:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done:
                try: self.done[key] = fn()
                except BuildError as e: self.done[key] = e
        if isinstance(self.done[key], Exception): raise self.done[key]
        return self.done[key]
    def new(self, suffix):
        with self.mu:
            self.n += 1
            return '%s/%d%s' % (self.tmp, self.n, suffix)
    def must(self, cmd, timeout=300):
        rc, out, err = run(cmd, timeout)
        if rc != 0: raise BuildError('%s\nrc=%s\n%s\n%s' % (' '.join(cmd), rc, out[-3000:], err[-3000:]))
    def solver(self):
        def f():
            p = self.tmp + '/satfront'
            self.must(['g++', '-O2', '-o', p, VERIF + '/tools/satfront.cpp'])
            return p
        return self.once('satfront', f)
    def gb(self, path, defs=()):
        def f():
            out = self.new('.gb')
            self.must(['goto-cc', '-c'] + [d for d in defs if d.startswith('-I')] + DEFS + ['-DCV_CBMC', '-include', H + '/cv_prelude.h', '-Wno-all'] + dflags(defs) + [path, '-o', out])
            return out
        return self.once(('gb', path, tuple(defs)), f)
    def linked(self, o, small):
        defs = o.defs + (['CV_SMALL'] if small else [])
        key = ('link', o.file, tuple(defs), tuple(o.link), tuple(o.stubs), o.loops, tuple(o.remove))
        def f():
            parts = [self.gb(o.file, defs), self.gb(H + '/cv_cbmc.c', [d for d in defs if d.startswith('CV_NREG')])] + [self.gb(REPO + '/' + l) for l in o.link]
            a = self.new('.gb'); b = self.new('.gb')
            self.must(['goto-cc', '--function', o.entry] + parts + ['-o', a])
            rc, out, err = run(['goto-instrument', '--list-symbols', a], 100)
            syms = set(l.split(' ')[0] for l in out.splitlines())
            cmd = ['goto-instrument']
            for s in COMMON_STUBS + o.stubs:
                if 'cvs_' + s not in syms: continue
                # a static function of a header has a copy, with a suffix, for every file that includes it
                for t in sorted(syms):
                    if t == s or t.startswith(s + '$link'): cmd += ['--replace-calls', '%s:cvs_%s' % (t, s)]
            for s in o.remove:
                if s in syms: cmd += ['--remove-function-body', s]
            self.must(cmd + [a, b])
            return b
        return self.once(key, f)
    def loops(self, o, b):
        if not o.loops: return b
        out = self.new('.gb')
        self.must(['goto-instrument', '--dfcc', o.entry, '--apply-loop-contracts', '--loop-contracts-file', H + '/' + o.loops, b, out])
        return out

def parse_cbmc(out):
    try: j = json.loads(out)
    except ValueError:
        # a killed run: salvage nothing
        return None, 'unparsable verifier output: ' + out[-500:]
    res, msgs = None, []
    for e in j:
        if 'result' in e: res = e['result']
        if e.get('messageType') == 'ERROR': msgs.append(e.get('messageText', ''))
    return res, '\n'.join(msgs)

AUX = ('unwind', 'no-body', 'loop_invariant', 'loop_decreases', 'loop_assigns', 'loop_step', 'recursion')
def classify(p):
    d, n = p['description'], p['property']
    if d.startswith('REACH'): return 'reach'
    if d.startswith('P:'): return 'prop'
    if d.startswith('AUX:'): return 'aux'
    cls = n.split('.')[-2] if '.' in n else n
    if cls in AUX or 'loop invariant' in d.lower() or 'decreases' in d: return 'aux'
    return 'safety'

class Result: pass
DEV = '--dev' in sys.argv  # first pass only
SEEN = set()

def cbmc(bld, o, small, unwind=None, extra=(), timeout=None):
    t = time.time()
    b = bld.loops(o, bld.linked(o, small)) if not small else bld.linked(o, small)
    cmd = ['cbmc', b, '--function', o.entry, '--unwind', str(unwind or (o.smallunwind if small else o.unwind))] + CBMC_FLAGS
    cmd += ['--unwindset', ','.join(['cv_obj_val.0:' + next((str(int(d[8:]) + 2) for d in o.defs if d.startswith('CV_NREG=')), '50'), 'vmh_objects.0:12'] + o.unwindset)]
    if o.solver == 'satfront': cmd += ['--external-sat-solver', bld.solver()]
    elif o.solver in ('cvc5', 'z3'): cmd += ['--' + o.solver]
    cmd += o.flags + list(extra)
    rc, out, err = run(cmd, timeout or o.timeout, mem_gb=14)
    r = Result(); r.wall = time.time() - t; r.cmd = ' '.join(cmd)
    if rc == 'timeout':
        r.status = 'timeout'; r.res = None; r.msg = 'verifier ran out of time'; return r
    r.res, r.msg = parse_cbmc(out)
    m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out)
    r.vccs = int(m.group(1)) if m else 0
    if r.res is None:
        r.status = 'error'; r.msg = (r.msg + ' rc=%s ' % rc + err[-1500:]); return r
    r.status = 'done'
    return r

def judge(r):
    """-> (verdict, failing list, note, counts)"""
    if r.status != 'done': return 'undecided', [], r.status + ': ' + r.msg, (0, 0)
    reach = [p for p in r.res if classify(p) == 'reach']
    vac = [p['description'] for p in reach if p['status'] != 'FAILURE' and not p['description'].startswith('REACH?')]
    obl = [p for p in r.res if classify(p) != 'reach']
    bad = [p for p in obl if p['status'] == 'FAILURE']
    unk = [p for p in obl if p['status'] not in ('SUCCESS', 'FAILURE')]
    counts = (max(0, r.vccs - len(reach)), max(0, r.vccs - len(reach) - len(bad) - len(unk)))
    aux = [p for p in bad if classify(p) == 'aux']
    real = [p for p in bad if classify(p) != 'aux']
    if real: return ('fail' if not aux else 'fail-aux'), real, '; '.join(p['property'] + ' ' + p['description'] for p in aux), counts
    if aux: return 'undecided', aux, 'auxiliary obligations failed: ' + '; '.join(p['property'] + ' ' + p['description'] for p in aux[:6]), counts
    if unk: return 'undecided', unk, 'unknown: ' + unk[0]['property'], counts
    if vac or not any(p['status'] == 'FAILURE' for p in reach): return 'undecided', [], 'vacuous: ' + (', '.join(vac) or 'no reachability guard'), counts
    if not obl: return 'undecided', [], 'no obligations', counts
    return 'ok', [], '', counts

def tape_of(trace):
    tape = {}
    for s in trace:
        if s.get('stepType') != 'assignment': continue
        m = re.match(r'cv_tape\[(\d+)[a-zA-Z]*\]$', s.get('lhs', ''))
        if m and 'value' in s and 'binary' in s['value']: tape[int(m.group(1))] = int(s['value']['binary'], 2)
    return [tape.get(i, 0) for i in range(max(tape) + 1)] if tape else []

# ---------------------------------------------------------------- the real code, natively
def repo_srcs():
    mk = open(REPO + '/Makefile').read()
    m = re.search(r'^SRCS=(.*)$', mk, re.M)
    return [s for s in m.group(1).split() if s.endswith('.c')]

NFLAGS = DEFS + ['-O0', '-g', '-w', '-fno-inline', '-pthread', '-DCV_NATIVE', '-DCOMPUTED_GOTO']
def native_objs(bld):
    def f():
        d = bld.tmp + '/nat'; os.makedirs(d, exist_ok=True)
        def one(s):
            out = d + '/' + s.replace('/', '_') + '.o'
            bld.must(['gcc', '-c'] + NFLAGS + (['-Dmain=clox_main'] if s == 'main.c' else []) + ['-fsanitize=address', REPO + '/' + s, '-o', out])
            return s, out
        with ThreadPoolExecutor(NCPU) as ex: return dict(ex.map(one, repo_srcs()))
    return bld.once('native_objs', f)

def native_bin(bld, o):
    def f():
        objs = native_objs(bld)
        s = bld.new('.s'); ho = bld.new('.o'); rt = bld.new('.o'); exe = bld.new('.exe')
        bld.must(['gcc', '-S'] + [d for d in o.defs if d.startswith('-I')] + NFLAGS + ['-DCV_SMALL', '-fsanitize=address'] + dflags(o.defs) + [o.file, '-o', s])
        txt = open(s).read()
        stubs = [x for x in COMMON_STUBS + o.stubs if re.search(r'^cvs_%s:' % re.escape(x), txt, re.M)]
        for x in stubs:
            e = re.escape(x)
            txt = re.sub(r'^%s:' % e, x + '__as_written:', txt, flags=re.M)
            txt = re.sub(r'^\s*\.(globl|type|size|weak)\s+%s\b.*$' % e, '', txt, flags=re.M)
            txt += '\n\t.globl %s\n\t.set %s, cvs_%s\n' % (x, x, x)
        open(s, 'w').write(txt)
        bld.must(['gcc', '-c', s, '-o', ho])
        bld.must(['gcc', '-c'] + NFLAGS + ['-DCV_ENTRY=' + o.entry, H + '/cv_native.c', '-o', rt])
        others = []
        for k, v in objs.items():
            if k in o.src: continue
            if stubs:
                w = bld.new('.o')
                bld.must(['objcopy'] + ['--weaken-symbol=' + x for x in stubs] + [v, w])
                others.append(w)
            else: others.append(v)
        bld.must(['gcc', '-fsanitize=address', '-rdynamic', '-pthread', '-Wl,-z,muldefs', ho, rt] + others + ['-o', exe, '-ldl', '-lm'])
        return exe
    return bld.once(('native', o.file, o.entry, tuple(o.defs), tuple(o.stubs)), f)

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1', LC_ALL='C')
def native_run(exe, args, cwd):
    rc, out, err = run([exe] + args, 70, cwd=cwd, env=NENV)
    fails = re.findall(r'^CV-FAIL (.*)$', out, re.M)
    m = re.search(r'SUMMARY: AddressSanitizer: (.*)', err)
    if m: fails.append('safety ' + m.group(1))
    elif isinstance(rc, int) and (rc < 0 or rc in (136, 139, 134)): fails.append('crash rc=%d' % rc)
    elif rc == 'timeout': fails.append('does not terminate within 70 s')
    tape = re.findall(r'^tape:(.*)$', out, re.M)
    return rc, fails, (tape[-1].split() if tape else None), out[-3000:] + err[-3000:]

# ---------------------------------------------------------------- battery: scripts run on the real interpreter
def clox_bin(bld):
    def f():
        d = bld.tmp + '/clox'; os.makedirs(d, exist_ok=True)
        def one(s):
            out = d + '/' + s.replace('/', '_') + '.o'
            bld.must(['gcc', '-c'] + [x for x in DEFS if x != '-I' + H] + ['-O1', '-g', '-w', '-pthread', '-DCOMPUTED_GOTO', REPO + '/' + s, '-o', out])
            return out
        with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, repo_srcs()))
        bld.must(['gcc', '-rdynamic', '-pthread'] + objs + ['-o', d + '/clox', '-ldl', '-lm'])
        return d + '/clox'
    return bld.once('clox', f)

def battery(bld, prop):
    """[(script, expected, got)] of the scripts whose output is wrong"""
    d = VERIF + '/battery/' + prop
    if not os.path.isdir(d): return [], 0
    exe = clox_bin(bld)
    work = bld.tmp + '/bat'; os.makedirs(work, exist_ok=True)
    def one(s):
        exp = open(d + '/' + s[:-4] + '.out').read()
        rc, out, err = run(['stdbuf', '-o0', exe, '-L', REPO + '/lib', '-f', d + '/' + s], 60, cwd=work)
        if out == exp: return None
        return s, exp, out + '\n[rc=%s]\n' % rc + err[-1500:]
    scripts = sorted(x for x in os.listdir(d) if x.endswith('.lox'))
    with ThreadPoolExecutor(NCPU) as ex: r = list(ex.map(one, scripts))
    return [x for x in r if x], len(scripts)

def known_findings():
    kf = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN property=(\S+) id=(\S+) (.*)', line)
            if m: kf[m.group(2)] = (m.group(1), m.group(3).strip())
    return kf

def main():
    global DEADLINE, TMP
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--only' in sys.argv: only = sys.argv[sys.argv.index('--only') + 1]
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    DEADLINE = t0 + (700 if tier == 'quick' else 3300)
    kf = known_findings()
    obs = [o for o in all_obs() if prop in o.props and (tier == 'thorough' or o.tier == 'quick')]
    if only: obs = [o for o in obs if re.search(only, o.id)]
    if not obs: log('no obligations for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='cv_%s_' % prop)
    TMP = tmp
    for o in obs: substitute(o)
    rep = '%s/replays/%s' % (VERIF, prop)
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    try:
        return check(prop, tier, seed, obs, kf, tmp, rep, t0, verbose)
    finally:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)

def discharge(bld, o, tier, verbose):
    """first pass over one obligation"""
    r = Result(); r.o = o; r.verdict = 'undecided'; r.fail = []; r.counts = (0, 0); r.wall = 0; r.mode = 'full'; r.note = ''; r.cmd = ''
    try:
        c = cbmc(bld, o, False)
        r.wall += c.wall; r.cmd = c.cmd
        r.verdict, r.fail, r.note, r.counts = judge(c)
        if r.verdict == 'undecided' and c.status == 'done' and r.fail and all('unwind' in p['property'] for p in r.fail):
            c = cbmc(bld, o, False, unwind=max(o.unwind * 3, 12)); r.wall += c.wall
            r.verdict, r.fail, r.note, r.counts = judge(c)
    except BuildError as e:
        r.note = 'cannot be built against the current source: ' + str(e)
    if verbose and DEV and r.note.startswith('cannot be built') and r.note in SEEN: log('%-34s same build error' % o.id)
    elif verbose: log('%-34s %-10s %5.1fs %s %s' % (o.id, r.verdict, r.wall, r.counts, r.note[:3000]), *['\n    ' + p['property'] + ': ' + p['description'] + ' line ' + p.get('sourceLocation', {}).get('line', '?') for p in r.fail[:8]])
    SEEN.add(r.note or 0)
    return r

def find_input(bld, o, r, rep, verbose):
    """the verifier's counterexample, run against the real code"""
    texts = []
    for p in sorted(r.fail, key=lambda p: classify(p) != 'prop')[:3]:
        for small in ([True] if o.small else [False]):
            try: c = cbmc(bld, o, small, extra=['--trace', '--property', p['property']] if not small else ['--trace'])
            except BuildError as e: texts.append(str(e)); continue
            if c.status != 'done': texts.append('trace run: ' + c.status + ' ' + c.msg); continue
            cand = [q for q in c.res if q['status'] == 'FAILURE' and classify(q) in ('prop', 'safety') and 'trace' in q]
            cand.sort(key=lambda q: (q['property'] != p['property'], q['description'] != p['description'], classify(q) != 'prop'))
            for q in cand[:3]:
                tape = tape_of(q['trace'])
                texts.append('counterexample for %s (%s): inputs %s' % (q['property'], q['description'], tape))
                tf = '%s/%s.tape' % (rep, o.id)
                open(tf, 'w').write('\n'.join(map(str, tape)) + '\n')
                try: exe = native_bin(bld, o)
                except BuildError as e: texts.append('native build: ' + str(e)); return None, texts
                rc, fails, _, out = native_run(exe, [tf], bld.tmp)
                texts.append('replayed on the real code: rc=%s %s\n%s' % (rc, fails, out))
                if fails: return (q, fails, tf), texts
    return None, texts

def sample(bld, o, seed, n):
    """random tapes through the same harness, natively; used only when the verifier gives no answer"""
    try: exe = native_bin(bld, o)
    except BuildError as e: return None, 0, 'native build: ' + str(e)
    rnd = random.Random(seed)
    seeds = [rnd.randrange(1, 2**40) for _ in range(n)]
    hit = []; ran = [0]
    stop = time.time() + 40
    def one(s):
        if hit or time.time() > stop: return
        rc, fails, tape, out = native_run(exe, ['-r', str(s)], bld.tmp)
        if rc != 77: ran[0] += 1
        if fails: hit.append((s, fails, tape, out))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, seeds))
    return (hit[0] if hit else None), ran[0], ''

def check(prop, tier, seed, obs, kf, tmp, rep, t0, verbose):
    bld = Builder(tmp)
    try: bld.solver()
    except BuildError as e: log(e); return 2
    # the slowest first
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(lambda o: discharge(bld, o, tier, verbose), sorted(obs, key=lambda o: -o.timeout)))
    if DEV: return 0
    violations, notes, undecided, known_hit = [], [], [], []
    for r in results:
        o = r.o
        if o.known:
            if r.verdict.startswith('fail') and o.known in kf: known_hit.append((o, r))
            elif r.verdict.startswith('fail'): violations.append((r, None))
            elif r.verdict == 'undecided': notes.append('%s (known finding %s): %s' % (o.id, o.known, r.note[:400]))
            continue
        if r.verdict == 'fail': violations.append((r, None))
        elif r.verdict in ('fail-aux', 'undecided'): undecided.append(r)
    out_viol = []
    bat = None
    def get_battery():
        nonlocal bat
        if bat is None:
            try: bat = battery(bld, prop)
            except BuildError as e: bat = ([], 0); notes.append('battery: ' + str(e)[:500])
        return bat
    def write_replay(o, body):
        p = '%s/%s.txt' % (rep, o.id)
        open(p, 'w').write(body)
        return p
    def describe(r):
        return 'property %s\nobligation %s (%s, entry %s)\nverifier: %s\nfailed:\n%s\n%s\n' % (prop, r.o.id, r.o.file, r.o.entry, r.cmd,
            '\n'.join('  %s: %s (%s:%s)' % (p['property'], p['description'], p.get('sourceLocation', {}).get('file', ''), p.get('sourceLocation', {}).get('line', '')) for p in r.fail), r.note)
    todo = sorted([r for r, _ in violations if r.o.replay], key=lambda r: r.wall)[:16]
    budget = time.time() + (250 if tier == 'quick' else 900)
    hits = {}
    def confirm(r):
        if time.time() > budget: return
        try: hits[r.o.id] = find_input(bld, r.o, r, rep, verbose)
        except Exception as e: hits[r.o.id] = (None, ['replay: %r' % e])
        if not hits[r.o.id][0] and time.time() < budget:
            h, ran, note = sample(bld, r.o, seed, 200)
            if h: hits[r.o.id] = ((None, h[1], 'seed %d: %s' % (h[0], h[2])), hits[r.o.id][1] + ['random input %s: %s' % (h[2], h[1]), h[3]])
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex: list(ex.map(confirm, todo))
    for r, _ in violations:
        hit, texts = hits.get(r.o.id, (None, []))
        body = describe(r) + '\n'.join(texts) + '\n'
        if hit:
            body += 'To replay: the tape %s holds the inputs, in the order the harness reads them.\n' % hit[2]
            out_viol.append((write_replay(r.o, body), ''))
        else:
            b, n = get_battery()
            if b:
                body += '\n'.join('script %s\nexpected:\n%s\ngot:\n%s\n' % x for x in b)
                out_viol.append((write_replay(r.o, body), ''))
            else:
                out_viol.append((write_replay(r.o, body), ' no-failing-input-found'))
    out_viol.sort(key=lambda x: x[1])
    degraded = []
    for r in undecided:
        o = r.o
        got = None; what = []
        if r.verdict == 'fail-aux':
            hit, texts = find_input(bld, o, r, rep, verbose)
            if hit: got = (describe(r) + '\n'.join(texts)); 
            what.append('counterexample not confirmed on the real code' if not hit else '')
        if not got and o.small:
            try:
                c = cbmc(bld, o, True); v, fail, note, counts = judge(c)
                what.append('bounded instance: %s %s' % (v, note[:300]))
                if v == 'fail':
                    r2 = Result(); r2.__dict__.update(r.__dict__); r2.fail = fail; r2.note = note
                    hit, texts = find_input(bld, o, r2, rep, verbose)
                    if hit: got = describe(r2) + '\n'.join(texts)
            except BuildError as e: what.append('bounded instance: does not build')
        if not got and o.replay:
            h, ran, note = sample(bld, o, seed, 400)
            what.append('%d random runs of the same contract on the real code%s' % (ran, ' ' + note[:200] if note else ''))
            if h: got = describe(r) + 'random input (seed %d) tape %s\nreal code: %s\n%s' % (h[0], h[2], h[1], h[3])
        if not got:
            b, n = get_battery()
            what.append('%d scripts on the real interpreter' % n)
            if b: got = describe(r) + '\n'.join('script %s\nexpected:\n%s\ngot:\n%s\n' % x for x in b)
        if got: out_viol.append((write_replay(o, got), ''))
        else:
            degraded.append({'obligation': o.id, 'why': r.note[:600], 'instead': '; '.join(w for w in what if w)})
            log('NOTE: obligation %s not discharged (%s); instead: %s' % (o.id, r.note[:300], '; '.join(what)))
    for o, r in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, kf[o.known][1]))
    for p, suffix in out_viol: print('VIOLATION property=%s replay=%s%s' % (prop, p, suffix))
    proved = [r for r in results if r.verdict == 'ok' and r.o.level == 'proof']
    bounded = [r for r in results if r.verdict == 'ok' and r.o.level != 'proof']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1), 'violations': len(out_viol),
      'coverage': {
        'obligations': sum(r.counts[0] for r in results if r.o.level == 'proof' and not r.o.known),
        'discharged': sum(r.counts[1] for r in results if r.o.level == 'proof' and not r.o.known),
        'checker_cmd': 'python3 cv/check.py %s; per obligation: goto-cc, goto-instrument, cbmc 6.11 --external-sat-solver satfront (kissat)' % prop,
        'trusted_base': ['cbmc 6.11.0 / goto-cc front end', 'tools/satfront.cpp (gate hashing) and kissat 4.0.1', 'harness/cv_prelude.h pointer packing', 'stub contracts named per obligation'],
        'contracts_proved': [{'id': r.o.id, 'functions': r.o.fns, 'obligations': r.counts[0], 'solver_s': round(r.wall, 1), 'backend': r.o.solver, 'replaced_by_contract': COMMON_STUBS + r.o.stubs} for r in proved],
        'contracts_bounded': [{'id': r.o.id, 'functions': r.o.fns, 'bound': r.o.bound, 'obligations': r.counts[0], 'discharged': r.counts[1], 'solver_s': round(r.wall, 1)} for r in bounded],
        'not_discharged': degraded, 'known_findings': [o.known for o, r in known_hit], 'notes': notes,
      },
      'assumptions': sorted(set(a for a in (
        ['release configuration (NDEBUG), switch dispatch instead of computed goto in vm_run', 'allocation succeeds',
         'machine arithmetic is bit-precise; signed overflow wraps', 'single thread: no other thread runs during the call'] + [r.o.trust for r in results]) if a))}
    try: claimed = next(c['level'] for c in json.load(open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/MANIFEST.json'))['checks'] if c['property'] == prop)
    except (OSError, StopIteration): claimed = 'other'
    if not proved or claimed != 'proof':
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ('%d contracts proved for all inputs, %d checked within a bound (contracts_bounded)' % (len(proved), len(bounded))) if proved else 'bounded contract checks only, see contracts_bounded'
    ev['coverage'].setdefault('explanation', 'every obligation generated from the current source of the functions under contract, by deductive symbolic execution; loops either fully unwound with the unwinding obligation discharged, or by loop contract')
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    log('%s: %d obligations of %d contracts, %d not decided, %d violations, %.0f s' % (prop, sum(r.counts[0] for r in results), len(results), len(degraded), len(out_viol), time.time() - t0))
    return 1 if out_viol else 0

if __name__ == '__main__': sys.exit(main())
