"""Driver library: builds the harness from /repo's working tree, runs TLC models and trace
specifications, compares rejections with the known-findings file, writes evidence."""
import concurrent.futures, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = str(os.cpu_count() or 4)


class ToolError(Exception):
    pass


def sh_env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + e.get('PATH', ''), RUSTUP_TOOLCHAIN='stable',
             RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e


def repo_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, 'Cargo.toml')]
    for d, _, names in os.walk(os.path.join(REPO, 'src')):
        fs += [os.path.join(d, n) for n in names]
    for f in sorted(fs):
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def cargo(args, env, what, cwd=VERIF):
    for attempt in (1, 2):
        p = subprocess.run(['cargo'] + args, env=env, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode == 0:
            return
    sys.stdout.write(p.stdout[-4000:])
    raise ToolError('cannot build ' + what)


def stale(name):
    """True (once) when /repo's sources changed since the last build kept under `name`."""
    f = os.path.join(TARGET, name + '.srchash')
    h = repo_hash()
    old = open(f).read() if os.path.exists(f) else ''
    if old == h:
        return False
    if old:
        return True
    return False


def mark(name):
    os.makedirs(TARGET, exist_ok=True)
    open(os.path.join(TARGET, name + '.srchash'), 'w').write(repo_hash())


def lockfile():
    # /repo has no committed Cargo.lock; cargo needs the one matching the offline crates
    if not os.path.exists(REPO + '/Cargo.lock') and os.path.exists('/opt/vp/av1enc/Cargo.lock'):
        shutil.copy('/opt/vp/av1enc/Cargo.lock', REPO + '/Cargo.lock')


def build_harness(binname):
    env = sh_env()
    env['RUSTFLAGS'] = '--cfg av1enc_verif -Awarnings'
    m = ['--manifest-path', VERIF + '/harness/Cargo.toml', '--offline', '--target-dir', TARGET]
    if stale('harness'):
        subprocess.run(['cargo', 'clean', '-p', 'av1enc'] + m, env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    cargo(['build', '--bin', binname] + m, env, 'harness binary ' + binname)
    mark('harness')
    return os.path.join(TARGET, 'debug', binname)


def build_binary():
    """The real av1enc executable, hooks off, from /repo's working tree."""
    lockfile()
    env = sh_env()
    env['RUSTFLAGS'] = '-Awarnings'
    t = os.path.join(TARGET, 'plain')
    m = ['--manifest-path', REPO + '/Cargo.toml', '--offline', '--target-dir', t]
    if stale('plain'):
        subprocess.run(['cargo', 'clean', '-p', 'av1enc'] + m, env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    cargo(['build', '--bin', 'av1enc'] + m, env, 'av1enc binary')
    mark('plain')
    return os.path.join(t, 'debug', 'av1enc')


def _limits(mem=None):
    mem = mem or 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == 'quick'
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.records = 0
        self.models, self.suites, self.samples, self.assumptions = [], [], [], []
        self.violations = []      # (why, record)
        self.known_hit = []
        self.exhaustive_models = True
        try:
            self.known = [k for k in json.load(open(VERIF + '/known-findings.json'))['findings']
                          if k['property'] == prop]
        except FileNotFoundError:
            self.known = []

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=840, extra=(), xmx='10g', tag=''):
        md = os.path.join(self.dir, 'tlc-%s-%d%s' % (module, len(self.models) + len(self.suites), tag))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + xmx, '-Xss64m', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC', '-workers',
               str(workers or CORES), '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
        shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout

    def cfgfile(self, name, text):
        f = os.path.join(self.dir, name)
        open(f, 'w').write(text)
        return f

    @staticmethod
    def stats(out):
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            return (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', '')))
        m = re.search(r'The number of states generated: ([\d,]+)', out)       # random walks
        n = int(m.group(1).replace(',', '')) if m else 0
        return n, n

    def model(self, module, cfg_text, note='', env=None, extra=(), timeout=840, workers=None):
        """A run of TLC on the specification itself.  A failure is an error of the specification,
        not of the code: tool error."""
        cfg = self.cfgfile('%s-%d.cfg' % (module, len(self.models)), cfg_text)
        rc, out = self.tlc(module, cfg, env=env, extra=extra, timeout=timeout, workers=workers)
        if rc != 0 or 'Error:' in out or ('No error has been found' not in out and 'The number of states generated' not in out):
            sys.stdout.write(out[-3000:])
            raise ToolError('model run of %s failed' % module)
        gen, dist = self.stats(out)
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'states': dist, 'generated': gen, 'note': note})
        return out

    def walks(self, module, cfg_text, outname, n, note='', depth=5000, parts=1):
        """Seeded random behaviours of the specification (one worker each: reproducible)."""
        if parts > 1:
            n = max(1, n // parts)
            cfg = self.cfgfile('%s-walks.cfg' % module, cfg_text)
            def part(k):
                seed = self.seed * 1000 + k
                for attempt in (1, 2):
                    rc, out = self.tlc(module, cfg, workers=1, xmx='3g', tag='p%d' % k,
                                       extra=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(seed)])
                    if rc == 0 and 'Error:' not in out and 'The number of states generated' in out:
                        return out
                sys.stdout.write(out[-3000:])
                raise ToolError('model run of %s failed' % module)
            with concurrent.futures.ThreadPoolExecutor(parts) as ex:
                outs = list(ex.map(part, range(parts)))
            path = os.path.join(self.dir, outname)
            gen = sum(self.stats(o)[0] for o in outs)
            lines = sorted({json.loads(l)[5:] for o in outs for l in o.splitlines() if l.startswith('"CASE|')})
            if not lines:
                raise ToolError('no cases generated by ' + module)
            open(path, 'w').write('\n'.join(lines) + '\n')
            self.states += gen
            self.transitions += gen
            self.models.append({'module': module, 'states': gen, 'generated': gen, 'cases': len(lines),
                                'note': note or '%d random behaviours' % (n * parts)})
            return path
        return self.generate(module, cfg_text, outname, note or '%d random behaviours' % n, workers=1,
                             extra=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(self.seed)])

    def generate(self, module, cfg_text, outname, note='', extra=(), timeout=840, workers=None):
        """TLC enumerates behaviours of the specification and writes each as one JSON line."""
        path = os.path.join(self.dir, outname)
        out = self.model(module, cfg_text, note or 'case generation', env={'CASES': path}, extra=extra, timeout=timeout, workers=workers)
        lines = []
        for l in out.splitlines():
            if l.startswith('"CASE|'):
                lines.append(json.loads(l)[5:])
        lines = sorted(set(lines))
        if not lines:
            raise ToolError('no cases generated by ' + module)
        open(path, 'w').write('\n'.join(lines) + '\n')
        self.models[-1]['cases'] = len(lines)
        return path

    # ------------------------------------------------------------ harness
    def harness(self, binname, out, args, timeout=300, mem=None):
        """Runs a harness binary.  Returns True if the trace is complete.  A crash or hang of the
        code under test is a violation (no trace can explain it)."""
        exe = build_harness(binname)
        path = os.path.join(self.dir, out)
        cmd = [exe, '--seed', str(self.seed), '--out', path, '--dir', self.dir] + [str(a) for a in args]
        if os.path.exists(path + '.done'):
            os.remove(path + '.done')
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               errors='replace', timeout=timeout, preexec_fn=(lambda: _limits(mem)), stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            self.violations.append(('the code under test did not terminate within %d s' % timeout, {'cmd': cmd}))
            return None
        if p.returncode != 0:
            self.violations.append(('the code under test died: status %d %s' % (p.returncode, p.stderr.strip()[-300:]),
                                    {'cmd': cmd}))
            return None
        if not os.path.exists(path + '.done'):
            self.violations.append(('the code under test ended the process', {'cmd': cmd}))
            return None
        return path

    # --------------------------------------------------- trace validation
    def conform(self, module, trace, cfg_text=None, note='', sample=2, timeout=840, env=None):
        """TLC validates every record of the trace against the specification."""
        if trace is None:
            return
        recs = [json.loads(l) for l in open(trace)]
        if not recs:
            raise ToolError('empty trace for ' + module)
        by = {r['id']: r for r in recs}
        cfg = self.cfgfile('%s-conf.cfg' % module, cfg_text or open(SPEC + '/Conf.cfg').read())
        rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=trace), timeout=timeout)
        rejects = []
        for l in out.splitlines():
            if l.startswith('"REJECT|'):
                _, i, why = json.loads(l).split('|', 2)
                rejects.append((int(i), why))
        m = re.search(r'"VISITED\|(\d+)\|(\d+)"', out)
        if rc != 0 or not m or m.group(1) != m.group(2) or int(m.group(2)) != len(recs):
            # A record the specification cannot even interpret (evaluation error at that record)
            st = re.findall(r'^/\\ c = (\d+)\n/\\ i = (\d+)', out, re.M) or \
                 [(b, a) for a, b in re.findall(r'^/\\ i = (\d+)\n/\\ c = (\d+)', out, re.M)]
            bad = 'OutOfMemory' in out or 'StackOverflow' in out
            if st and not bad and 'Error:' in out:
                k = min(64, len(recs))
                c, i = map(int, st[-1])
                idx = c + k * i - 1
                r = recs[idx] if idx < len(recs) else {}
                err = out[out.index('Error:'):][:600]
                rejects.append((r.get('id', 0), 'the specification cannot interpret this record: ' + ' '.join(err.split())))
            else:
                sys.stdout.write(out[-3000:])
                raise ToolError('trace validation with %s did not finish' % module)
        self.records += len(recs)
        kinds = {}
        for r in recs:
            k = r.get('k', r.get('e', ''))
            kinds[k] = kinds.get(k, 0) + 1
        self.suites.append({'module': module, 'records': len(recs), 'rejected': len(rejects), 'kinds': kinds, 'note': note})
        step = max(1, len(recs) // max(1, sample))
        for r in recs[step // 2::step][:sample]:
            s = json.dumps(r)
            self.samples.append(s if len(s) < 600 else s[:600] + '...')
        for i, why in rejects:
            r = by.get(i, {})
            k = self.match_known(why, r)
            if k:
                self.known_hit.append(k)
            else:
                self.violations.append((why, r))

    def match_known(self, why, rec):
        for k in self.known:
            if re.search(k['why'], why) and all(rec.get(f) == v for f, v in k.get('record', {}).items()):
                return k
        return None

    def reject(self, why, rec):
        self.violations.append((why, rec))

    # -------------------------------------------------------------- finish
    def finish(self, level='model_checking'):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {'states': self.states, 'transitions': self.transitions,
                         'traces_validated_against_impl': self.records,
                         'samples': self.samples or ['(none)'],
                         'model_runs': self.models, 'trace_runs': self.suites,
                         'exhaustive': False,
                         'known_findings_seen': len({k['what'] for k in self.known_hit})},
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        for w in sorted({k['what'] for k in self.known_hit}):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        if self.violations:
            rp = os.path.join(self.dir, 'replay.json')
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                       'rejected': [{'why': w, 'record': r} for w, r in self.violations[:50]],
                       'total': len(self.violations)}, open(rp, 'w'), indent=1)
            seen = set()
            for w, _ in self.violations:
                if w not in seen and len(seen) < 8:
                    seen.add(w)
                    print('rejected: ' + w[:400])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s ok: %d model states, %d records validated, %.1f s' %
              (self.prop, self.states, self.records, time.time() - self.t0))
        return 0
