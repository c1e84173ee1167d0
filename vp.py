#!/usr/bin/env python3
"""Driver: encodes the functions of /repo's current tree with goto-cc, lets CBMC decide every assertion
for all values within the stated bounds, and replays counterexamples natively before reporting them.

  python3 vp.py check P01 [--tier quick|thorough] [--job NAME] [-v]
  python3 vp.py list
"""
import sys, os, json, re, subprocess, time, tempfile, shutil, hashlib, threading, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
H = os.path.join(HERE, 'harness')
NPROC = int(os.environ.get('VP_JOBS', '8'))
MEM_MB = int(os.environ.get('VP_MEM_MB', '6000'))

BASE_DEFS = ['-D_DEFAULT_SOURCE', '-DWSS_SERVER_VERSION="v2.0.0"', '-DUSE_OPENSSL', '-DFIPS_mode_set(x)=(0)', '-D__NO_CTYPE']
INCS = ['-I' + H + '/shadow', '-I' + H + '/rt', '-I' + H]
REPO_INCS = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/extensions', '-I' + REPO + '/subprotocols']
AVX2 = ['-D__AVX__', '-D__AVX2__', '-U__AVX512F__', '-U__AVX512BW__', '-U__AVX512VL__']
SSE = ['-U__AVX__', '-U__AVX2__', '-D__SSE2__', '-D__SSSE3__', '-D__SSE4_1__']
SCALAR = ['-U__AVX__', '-U__AVX2__', '-U__SSE2__', '-U__SSE__', '-U__SSE3__', '-U__SSSE3__', '-U__SSE4_1__', '-U__SSE4_2__']


class Job:
    """One solver query batch: a harness, the repository sources it encodes, and its bounds."""
    def __init__(self, name, harness, repo, defs=(), repo_defs=(), simd=SCALAR, unwind=10, unwindset=None, rt=('vp_rt.c', 'vp_libc.c', 'vp_log.c'),
                 native_rt=('vp_rt.c', 'vp_log.c'), pre=('shadow/alloc.h',), flags=(), timeout=200, tiers=('quick', 'thorough'), bounds='', shadow=True,
                 native_libs=(), replay=True, mem=None, malloc_fail=False, witness=True, prio=0, fs=400):
        self.__dict__.update(locals())
        self.defs = ['-D%s' % d for d in defs]
        self.repo_defs = list(repo_defs)
        self.unwindset = unwindset or {}


def sh(cmd, timeout=None, mem_mb=None, cwd=None, env=None):
    t = time.time()
    def pre():
        import resource
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, e = p.communicate()
        rc = 'timeout'
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), time.time() - t


class Run:
    def __init__(self, prop, tier, verbose=False):
        self.prop, self.tier, self.v = prop, tier, verbose
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
        self.cache, self.lock, self.violated = {}, threading.Lock(), 0
        self.t0 = time.time()
        self.deadline = self.t0 + (float(os.environ.get('VP_DEADLINE', 780)) if tier == 'quick' else float(os.environ.get('VP_DEADLINE_THOROUGH', 3300)))

    def log(self, *a):
        if self.v:
            print('[%6.1f]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def left(self):
        return self.deadline - time.time()

    def once(self, key, fn):
        with self.lock:
            f = self.cache.get(key)
            if f is None:
                f = self.cache[key] = cf.Future(); own = True
            else:
                own = False
        if own:
            try: f.set_result(fn())
            except BaseException as ex: f.set_exception(ex)
        return f.result()

    def compile_one(self, tool, src, flags, suffix):
        key = hashlib.sha1(repr((tool, src, flags)).encode()).hexdigest()[:16]
        out = os.path.join(self.tmp, os.path.basename(src) + '.' + key + suffix)
        def go():
            cmd = tool + flags + ['-c', src, '-o', out]
            rc, o, e, t = sh(cmd, timeout=120)
            if rc != 0:
                raise CompileError('%s\n%s' % (' '.join(cmd), (e + o)[-3000:]))
            return out
        return self.once(key, go)

    def rewrite(self, src, subs):
        """the current source with accesses marked (instrumentation points); the text is otherwise unchanged"""
        txt = open(src).read()
        for a, b in subs: txt = re.sub(a, b, txt)
        out = os.path.join(self.tmp, hashlib.sha1(repr(subs).encode()).hexdigest()[:6] + '_' + os.path.basename(src))
        with open(out, 'w') as f: f.write('#line 1 "%s"\n' % src + txt)
        return out

    def flags(self, job, repo_file, native):
        simd = job.simd
        if native: simd = {'AVX2': ['-mavx', '-mavx2'], 'SSE': ['-msse4.1'], 'SCALAR': SCALAR + ['-DVP_MODEL_INTRIN']}['AVX2' if simd == AVX2 else 'SSE' if simd == SSE else 'SCALAR']
        f = ['-std=gnu11'] + BASE_DEFS + simd + ([d for d in job.defs if d.startswith('-DVP_')] if repo_file else job.defs)
        if native: f += ['-DVP_REPLAY']
        if repo_file:
            f += job.repo_defs
            for p in job.pre:
                f += ['-include', os.path.join(H, p)]
        return f + INCS + REPO_INCS

    def build(self, job, native=False, extra_h=()):
        tool = ['goto-cc'] if not native else ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined',
                '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift,signed-integer-overflow,enum,bool', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        suffix = '.gb' if not native else '.o'
        objs = []
        for s in job.repo:
            s, opts = (s, {}) if isinstance(s, str) else s
            fl = (['-iquote', os.path.join(REPO, 'include')] if opts.get('noshadow') else []) + self.flags(job, not opts.get('noshadow'), native) + list(opts.get('flags', []))
            src = os.path.join(REPO, s)
            if opts.get('sub'):
                src = self.once('sub:%s:%r' % (s, opts['sub']), lambda: self.rewrite(src, opts['sub']))
                fl = fl + ['-I' + os.path.dirname(os.path.join(REPO, s))]
            objs.append(self.compile_one(tool, src, fl, suffix))
        for s in (job.native_rt if native else job.rt):
            objs.append(self.compile_one(tool, os.path.join(H, 'rt', s), self.flags(job, False, native), suffix))
        objs.append(self.compile_one(tool, os.path.join(H, job.harness), self.flags(job, False, native) + list(extra_h), suffix))
        out = os.path.join(self.tmp, 'j%s%s' % (hashlib.sha1((job.name + str(native)).encode()).hexdigest()[:12], '.native' if native else '.goto'))
        cmd = tool + objs + ['-o', out] + (list(job.native_libs) + ['-lm', '-lpthread'] if native else [])
        rc, o, e, t = sh(cmd, timeout=120)
        if rc != 0:
            raise CompileError('%s\n%s' % (' '.join(cmd), (e + o)[-3000:]))
        return out

    def cbmc_flags(self, job, scale=1):
        f = ['--unwind', str(job.unwind * scale), '--unwinding-assertions', '--drop-unused-functions', '--no-standard-checks', '--bounds-check',
             '--pointer-check', '--div-by-zero-check', '--object-bits', '12', '--max-field-sensitivity-array-size', str(job.fs), '--json-ui', '--verbosity', '8']
        us = dict({'vp_realloc_any.0': 100}, **{k: v * scale for k, v in job.unwindset.items()})
        if us:
            f += ['--unwindset', ','.join('%s:%d' % kv for kv in us.items())]
        if not job.malloc_fail: f += ['--no-malloc-may-fail']
        return f + list(job.flags)

    def cbmc(self, job, goto, timeout, scale=1, extra=()):
        cmd = ['cbmc', goto] + self.cbmc_flags(job, scale) + list(extra)
        rc, o, e, t = sh(cmd, timeout=max(5, min(timeout, self.left())), mem_mb=job.mem or MEM_MB)
        res = {'rc': rc, 'time': t, 'props': None, 'steps': 0, 'vccs': 0, 'vccs_left': 0, 'solver_s': 0.0, 'vars': 0, 'clauses': 0}
        try:
            js = json.loads(o)
        except Exception:
            res['error'] = (e or o)[-400:]
            return res
        res['funcs'] = set()
        for m in js:
            txt = m.get('messageText', '') if isinstance(m, dict) else ''
            x = re.search(r'size of program expression: (\d+) steps', txt)
            if x: res['steps'] += int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', txt)
            if x: res['vccs'] += int(x.group(1)); res['vccs_left'] += int(x.group(2))
            x = re.search(r'Runtime Solver: ([\d.e+-]+)s', txt)
            if x: res['solver_s'] += float(x.group(1))
            x = re.search(r'(\d+) variables, (\d+) clauses', txt)
            if x and not res['vars']: res['vars'], res['clauses'] = int(x.group(1)), int(x.group(2))
            if isinstance(m, dict) and 'result' in m:
                res['props'] = m['result']
            if isinstance(m, dict) and m.get('messageType') == 'ERROR':
                res['error'] = txt
        if any(p.get('status') not in ('SUCCESS', 'FAILURE', 'UNKNOWN') for p in res['props'] or []):
            res['error'] = 'solver gave status ' + str({p.get('status') for p in res['props']}) + ' ' + str(res.get('error', ''))
            res['props'] = None
        elif any(p.get('status') == 'UNKNOWN' for p in res['props'] or []) and not any(p.get('status') == 'FAILURE' for p in res['props']):
            res['error'] = 'solver gave status UNKNOWN'; res['props'] = None
        for p in res['props'] or []:
            fn = p.get('sourceLocation', {}).get('function')
            if fn: res['funcs'].add(fn)
        return res

    @staticmethod
    def kind(p):
        d = p.get('description', '')
        if d.startswith('reach: '): return 'reach'
        if 'unwinding assertion' in d or 'recursion unwinding' in d: return 'unwind'
        if d.startswith('vp: '): return 'vp'
        if d.startswith('no body for'): return 'nobody'
        return 'safety'

    @staticmethod
    def inputs(trace):
        out = []
        for st in trace:
            if st.get('stepType') == 'input' and st.get('inputID') == 'vp':
                v = st['values'][0]
                d = v.get('data')
                if d in ('TRUE', 'true', True): x = 1
                elif d in ('FALSE', 'false', False): x = 0
                elif 'binary' in v: x = int(v['binary'], 2)
                else: x = int(re.sub(r'[uUlL]+$', '', str(d)))
                w = v.get('width', 64)
                if x < 0: x &= (1 << 64) - 1
                elif 'binary' in v and v.get('type', '').startswith('signed') and x >> (w - 1): x = (x - (1 << w)) & ((1 << 64) - 1)
                out.append(x)
        return out

    def trace_inputs(self, job, goto, prop, timeout, scale=1):
        r = self.cbmc(job, goto, timeout, scale, ['--trace', '--property', prop['property']])
        for p in r['props'] or []:
            if p.get('property') == prop['property'] and p.get('status') == 'FAILURE':
                return self.inputs(p.get('trace', []))
        return None

    def native(self, job):
        return self.once('native:' + job.name, lambda: self.build(job, native=True))

    def replay(self, job, vals, timeout=20):
        """-> (outcome, text). outcome: assert | crash | hang | clean | invalid"""
        exe = self.native(job)
        fn = os.path.join(self.tmp, 'in-%s.txt' % hashlib.sha1(repr((job.name, vals)).encode()).hexdigest()[:12])
        with open(fn, 'w') as f: f.write('\n'.join(map(str, vals)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='exitcode=43:print_stacktrace=1')
        rc, o, e, t = sh([exe, fn], timeout=timeout, env=env, cwd=self.tmp)
        txt = (o[-1500:] + '\n' + e[:3000]).strip()
        if rc == 'timeout': return 'hang', txt + '\n(no termination within %ds)' % timeout
        if rc == 42: return 'assert', txt
        if rc == 77: return 'invalid', txt
        if rc == 0: return 'clean', txt
        return 'crash', 'exit %s\n%s' % (rc, txt)


class CompileError(Exception):
    pass


def resolve(job, names):
    """sources of /repo that define the named functions (a helper may have been moved to a file the job does not list)"""
    have = {x if isinstance(x, str) else x[0] for x in job.repo}
    out = []
    for d in ('src',):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = d + '/' + f
            if f.endswith('.c') and p not in have:
                txt = open(os.path.join(REPO, p), errors='replace').read()
                if any(re.search(r'^[A-Za-z_][\w \t*]*\b%s\s*\([^;{]*\)\s*\{' % re.escape(n), txt, re.M) for n in names): out.append(p)
    return out


def do_job(run, job):
    r = {'job': job.name, 'status': 'ok', 'bounds': job.bounds, 'cex': [], 'notes': [], 'unreached': [], 'reached': 0, 'props': 0, 'witness': None}
    if run.left() < 10:
        r['status'] = 'skipped'; r['notes'].append('time budget exhausted'); return r
    if run.violated >= 3 and not os.environ.get('VP_ALL'):
        r['status'] = 'skipped'; r['notes'].append('violations already found'); return r
    t = time.time()
    try:
        goto = run.build(job)
    except CompileError as ex:
        r['status'] = 'nobuild'; r['notes'].append('cannot encode: ' + str(ex)[-390:]); return r
    scale = 1
    BAD = ('assert', 'crash', 'hang')
    def fails(res, k): return [p for p in res['props'] or [] if p['status'] == 'FAILURE' and run.kind(p) == k]
    def examine(p):
        vals = run.trace_inputs(job, goto, p, job.timeout * 2, scale)
        loc = p.get('sourceLocation', {})
        item = {'property': p['property'], 'desc': p['description'], 'where': '%s:%s %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'), loc.get('function', '')), 'inputs': vals}
        if vals is None: item['replay'] = 'no-trace'
        elif not job.replay: item['replay'] = 'not-replayable'
        else:
            try: item['replay'], item['text'] = run.replay(job, vals)
            except CompileError as ex: item['replay'], item['text'] = 'nobuild', str(ex)
        r['cex'].append(item)
        run.log(job.name, 'CEX', item['property'], item['desc'], item['where'], '->', item['replay'], (item.get('text') or '')[:600])
        return item['replay'] in BAD
    def confirm_some(ps):
        ps.sort(key=lambda p: 0 if run.kind(p) == 'vp' else 1)
        return any(examine(p) for p in ps[:4])
    res = run.cbmc(job, goto, job.timeout)
    if res['props'] is not None and fails(res, 'unwind') and not confirm_some(fails(res, 'vp') + fails(res, 'safety')):
        u = fails(res, 'unwind')
        r['notes'].append('unwinding bound %d too small for %s; retried with larger bound' % (job.unwind, ', '.join(sorted({p['property'] for p in u}))[:300]))
        res2 = run.cbmc(job, goto, job.timeout, 3)
        if res2['props'] is not None:
            res = res2; scale = 3
    if res['props'] is not None and fails(res, 'nobody'):
        more = resolve(job, [p['description'].split()[-1] for p in fails(res, 'nobody')])
        if more:
            try:
                job2 = Job(**{k: v for k, v in job.__dict__.items() if k not in ('self', 'defs', 'repo_defs', 'repo')}, defs=[d[2:] for d in job.defs], repo_defs=job.repo_defs, repo=list(job.repo) + more)
                job2.name = job.name + '+'
                goto2 = run.build(job2)
                res2 = run.cbmc(job2, goto2, job.timeout, scale)
                if res2['props'] is not None:
                    r['notes'].append('also encoded ' + ' '.join(more)); name = job.name
                    job, goto, res = job2, goto2, res2
                    try: run.native(job2)
                    except CompileError: pass
            except CompileError as ex:
                r['notes'].append('could not add %s' % more)
    if res['props'] is not None and fails(res, 'nobody'):
        r['notes'].append('no body (nondeterministic result): ' + ', '.join(sorted(p['description'] for p in fails(res, 'nobody')))[:300])
    r.update({k: res.get(k, 0) for k in ('steps', 'vccs', 'vccs_left', 'solver_s', 'vars', 'clauses')})
    r['funcs'] = sorted(res.get('funcs', []))
    if res['props'] is None:
        r['status'] = 'inconclusive'
        r['notes'].append('no verdict: rc=%s %s' % (res['rc'], res.get('error', '')))
        r['wall'] = time.time() - t
        run.log(job.name, 'INCONCLUSIVE', r['notes'])
        return r
    r['props'] = sum(1 for p in res['props'] if run.kind(p) in ('vp', 'safety', 'unwind'))
    reach = {}
    for p in res['props']:
        if run.kind(p) == 'reach':
            reach.setdefault(p['description'], []).append(p)
    for d, ps in reach.items():
        if any(p['status'] == 'FAILURE' for p in ps): r['reached'] += 1
        else: r['unreached'].append(d[7:])
    bad = fails(res, 'vp') + fails(res, 'safety')
    bad.sort(key=lambda p: 0 if run.kind(p) == 'vp' else 1)
    unw = fails(res, 'unwind')
    if not any(c['replay'] in BAD for c in r['cex']):
        for p in (bad[:10] + unw[:3]):
            if run.left() < 15: r['notes'].append('no time left to replay'); break
            if examine(p): break
    if any(c['replay'] in ('assert', 'crash', 'hang') for c in r['cex']):
        r['status'] = 'violated'; run.violated += 1
    elif bad:
        r['status'] = 'unconfirmed'
    elif unw:
        r['status'] = 'bounded'   # unwinding assertion failed: result is not complete for the stated bound
    if job.witness and r['status'] == 'ok' and reach and run.left() > 60:
        # validate the encoding: the solver's witness for the last reach point is run against the real code
        ps = [p for d in reach for p in reach[d] if p['status'] == 'FAILURE']
        if ps:
            p = ps[-1]
            vals = run.trace_inputs(job, goto, p, job.timeout)
            if vals is not None:
                try:
                    oc, txt = run.replay(job, vals)
                    ok = oc in ('clean', 'invalid') and ('VP-REACHED: ' + p['description'][7:]) in txt
                    r['witness'] = {'point': p['description'][7:], 'inputs': vals[:64], 'outcome': oc, 'agrees': ok}
                    if not ok: r['witness']['text'] = txt[:800]
                    if oc in ('assert', 'crash', 'hang'):
                        # the real code misbehaves on an input the solver found while exploring: report it as well
                        r['cex'].append({'property': p['property'], 'desc': 'witness replay: ' + p['description'], 'where': '', 'inputs': vals, 'replay': oc, 'text': txt})
                        r['status'] = 'violated'
                except CompileError as ex:
                    r['witness'] = {'point': p['description'][7:], 'outcome': 'nobuild', 'agrees': False, 'text': str(ex)[:800]}
    r['wall'] = time.time() - t
    run.log(job.name, r['status'], 'wall %.1f solver %.1f' % (r['wall'], r['solver_s']), 'props', r['props'], 'vccs', r['vccs_left'], 'reached %d' % r['reached'],
            'UNREACHED %s' % r['unreached'] if r['unreached'] else '', r['notes'], 'witness', (r['witness'] or {}).get('agrees'), '' if (r['witness'] or {'agrees':1})['agrees'] else r['witness'])
    return r


def load_known():
    fn = os.path.join(HERE, 'known_findings.json')
    return json.load(open(fn)) if os.path.exists(fn) else {'findings': [], 'fixed': []}


def write_replay(run, job, item):
    d = os.path.join(HERE, 'replays', run.prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((job.name, item['inputs'])).encode()).hexdigest()[:10]
    base = os.path.join(d, '%s-%s' % (re.sub(r'[^A-Za-z0-9_.-]', '_', job.name), h))
    with open(base + '.inputs', 'w') as f: f.write('\n'.join(map(str, item['inputs'])) + '\n')
    with open(base + '.txt', 'w') as f:
        f.write('property %s, job %s (bounds: %s)\nfailed: %s [%s] at %s\nreplay outcome: %s\ninputs: %s\n\nre-run: python3 %s/vp.py replay %s %s %s\n\n%s\n' % (
            run.prop, job.name, job.bounds, item['desc'], item['property'], item['where'], item['replay'], item['inputs'], HERE, run.prop, job.name, base + '.inputs', item.get('text', '')))
    return base + '.txt'


def main():
    import spec
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    verbose = '-v' in sys.argv
    opt = {x.split('=')[0][2:]: x.split('=', 1)[1] for x in sys.argv if x.startswith('--') and '=' in x}
    tier = opt.get('tier', os.environ.get('VERIF_TIER', 'quick'))
    if not a or a[0] == 'list':
        for p in spec.PROPS: print(p, len(spec.jobs(p, 'quick')), 'jobs quick,', len(spec.jobs(p, 'thorough')), 'thorough')
        return 0
    if a[0] == 'replay':
        run = Run(a[1], tier, True)
        job = [j for j in spec.jobs(a[1], 'thorough') + spec.jobs(a[1], 'quick') if j.name == a[2]][0]
        vals = [int(x) for x in open(a[3]).read().split()]
        print(*run.replay(job, vals), sep='\n')
        shutil.rmtree(run.tmp, ignore_errors=True)
        return 0
    prop = a[1]
    run = Run(prop, tier, verbose)
    try:
        jobs = spec.jobs(prop, tier)
        if 'job' in opt: jobs = [j for j in jobs if re.fullmatch(opt['job'], j.name)]
        jobs.sort(key=lambda j: -j.prio)
        results = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(do_job, run, j): j for j in jobs}
            for f in cf.as_completed(futs):
                r = f.result(); r['_job'] = futs[f]; results.append(r)
        return report(run, jobs, results, spec)
    finally:
        if 'keep' not in opt: shutil.rmtree(run.tmp, ignore_errors=True)
        else: print('kept', run.tmp)


def report(run, jobs, results, spec):
    prop, tier = run.prop, run.tier
    known = load_known()
    viol, knownhits = [], []
    for r in results:
        for c in r['cex']:
            if c['replay'] in ('assert', 'crash', 'hang'):
                k = None
                for f in known['findings']:
                    if f['property'] == prop and re.fullmatch(f['job'], r['job']) and re.search(f['match'], (c.get('text') or '') + '\n' + c['desc']):
                        k = f; break
                (knownhits if k else viol).append((r, c, k))
    from collections import Counter
    st = Counter(r['status'] for r in results)
    funcs = sorted({f for r in results for f in r.get('funcs', []) if not f.startswith('vp_') and not f.startswith('__')})
    wit = [r for r in results if r.get('witness')]
    agree = [r for r in wit if r['witness']['agrees']]
    meta = spec.PROPS[prop]
    samples = [{'job': r['job'], 'bounds': r['bounds'], 'assertions_decided': r['props'], 'vccs': r.get('vccs_left'), 'sat_variables': r.get('vars'), 'sat_clauses': r.get('clauses'),
                'solver_s': round(r.get('solver_s', 0), 3), 'reach_points_hit': r['reached'], 'unreached': r['unreached'], 'status': r['status'], 'witness': r['witness']} for r in results[:12]]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
          'coverage': {
              'explanation': 'Bounded model checking of the real sources: states = SSA steps of the symbolic execution, transitions = verification conditions left for the SAT solver after simplification, each decided for every value of the symbolic inputs within the stated bounds. ' + meta.get('explain', ''),
              'states': sum(r.get('steps', 0) for r in results), 'transitions': sum(r.get('vccs_left', 0) for r in results),
              'traces_validated_against_impl': len(agree),
              'samples': samples,
              'queries': len(results), 'queries_by_status': dict(st), 'assertions_decided': sum(r['props'] for r in results),
              'solver_seconds': round(sum(r.get('solver_s', 0) for r in results), 2),
              'functions_encoded': funcs, 'bounds': sorted({r['bounds'] for r in results if r['bounds']}),
              'witness_disagreements': [{'job': r['job'], **r['witness']} for r in wit if not r['witness']['agrees']],
              'reach_points_missed': [{'job': r['job'], 'points': r['unreached']} for r in results if r['unreached']],
              'not_decided': [{'job': r['job'], 'status': r['status'], 'notes': r['notes'],
                               'cex': [{k: c.get(k) for k in ('property', 'desc', 'where', 'replay')} for c in r['cex']]} for r in results if r['status'] != 'ok'],
          },
          'assumptions': meta.get('assumptions', []) + ['outside the stated bounds nothing is claimed', 'CBMC 6.11, its SAT back end and the C library models under harness/rt are trusted'],
          'wall_s': round(time.time() - run.t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for f in {k['id']: k for _, _, k in knownhits}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    print('%s %s: %d queries, %s, %d assertions, solver %.1fs, wall %.1fs' % (prop, tier, len(results), dict(st), ev['coverage']['assertions_decided'], ev['coverage']['solver_seconds'], ev['wall_s']))
    for r in results:
        if r['status'] not in ('ok', 'violated'):
            print('  note: job %s %s %s %s' % (r['job'], r['status'], '; '.join(r['notes'])[:400], '; '.join('%s @%s: %s' % (c['desc'], c['where'], c['replay']) for c in r['cex'])[:400]))
        if r['unreached'] and not r['reached']: print('  note: job %s never reaches %s' % (r['job'], r['unreached']))
        if r.get('witness') and not r['witness']['agrees']: print('  note: job %s witness replay %s' % (r['job'], r['witness'].get('outcome')))
    if viol:
        shown = set()
        for r, c, _ in viol:
            p = write_replay(run, r['_job'], c)
            if len(shown) < 4:
                print('  %s: %s at %s (%s)' % (r['job'], c['desc'], c['where'], c['replay']))
                print('VIOLATION property=%s replay=%s' % (prop, p))
            shown.add(p)
        return 1
    return 0


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
