#!/usr/bin/env python3
"""Driver of one check: regenerates the IR from /repo, runs the verifier, replays
counterexamples on the real code, runs the bounded native exploration and writes
the evidence file.  See DESIGN.md."""
import threading
import concurrent.futures as cf
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
IRV = os.path.join(VERIF, 'irv', 'target', 'release', 'irv')
OPT = '/usr/lib/llvm-18/bin/opt'
FILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
CXX = 'clang++-18'
FLAVOURS = {
    'avx2': ['-march=x86-64-v3'],
    'sse4': ['-march=x86-64-v2'],
    'generic': ['-march=x86-64'],
    'neon': ['--target=aarch64-linux-gnu', '-march=armv8-a+crc+simd', '-idirafter', '/usr/aarch64-linux-gnu/include'],
}
RUNNABLE = ('avx2', 'sse4', 'generic')
T0 = time.time()


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -99, '', 'timeout'


def build_engine():
    import fcntl
    d = os.path.join(VERIF, 'irv')
    lock = open(os.path.join(d, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = [os.path.join(d, 'src', f) for f in os.listdir(os.path.join(d, 'src'))] + [os.path.join(d, 'Cargo.toml')]
        if os.path.exists(IRV) and all(os.path.getmtime(IRV) >= os.path.getmtime(s) for s in src):
            return
        rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(d, 'Cargo.toml')], 1500)
        if rc != 0 or not os.path.exists(IRV):
            print('cannot build the verifier:\n' + e[-3000:])
            sys.exit(2)
        os.utime(IRV)
    finally:
        lock.close()


IRLOCK = threading.Lock()

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.dir = os.path.join(VERIF, 'props', prop)
        sp = importlib.util.spec_from_file_location('spec_' + prop, os.path.join(self.dir, 'spec.py'))
        self.spec = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(self.spec)
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.natives = {}
        self.budget = getattr(self.spec, 'BUDGET', 600) if tier == 'quick' else getattr(self.spec, 'BUDGET_THOROUGH', 3000)
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == prop]
        self.violations, self.knownhits, self.notes, self.bounded = [], [], [], []
        self.results = []
        self.irs = {}

    def left(self):
        return self.budget - (time.time() - T0)

    # ---- building
    def ir(self, src, fl, defs):
        with IRLOCK:
            lk = self.irs.setdefault((src, fl, tuple(defs)), [threading.Lock(), None])
        with lk[0]:
            if lk[1] is None:
                lk[1] = self.ir1(src, fl, defs)
            return lk[1]

    def ir1(self, src, fl, defs):
        out = os.path.join(self.tmp, '%s_%s_%s.ll' % (os.path.basename(src).replace('.', '_'), fl, abs(hash(tuple(defs))) % 10**8))
        base = [CXX, '-stdlib=libc++', '-std=c++17', '-I' + os.path.join(VERIF, 'vf'), '-I' + self.dir, '-I' + REPO] + FLAVOURS[fl]
        cmd = base + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-exceptions', '-fno-rtti', '-w', '-S', '-emit-llvm'] + defs + [os.path.join(self.dir, src), '-o', out + '.0']
        rc, o, e = sh(cmd, 200)
        if rc != 0:
            return None, 'does not compile: ' + e[:1500]
        rc, o, e = sh([OPT, '-S', '-passes=function(sroa,mem2reg)', out + '.0', '-o', out], 200)
        if rc != 0:
            return None, 'opt failed: ' + e[:1500]
        os.unlink(out + '.0')
        names = sorted(set(re.findall(r'@("?)(_Z[\w.$]+)\1', open(out).read())))
        names = [n[1] for n in names]
        p = subprocess.run([FILT], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        dem = dict(zip(names, p.stdout.split('\n')))
        with open(out + '.dem', 'w') as f:
            for k, v in dem.items():
                f.write(k + '\t' + v + '\n')
        return out, dem

    def native(self, src, fl, defs):
        key = (src, fl, tuple(defs))
        if key in self.natives:
            return self.natives[key]
        out = os.path.join(self.tmp, 'n_%s_%s_%s' % (os.path.basename(src).replace('.', '_'), fl, abs(hash(tuple(defs))) % 10**8))
        san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if getattr(self.spec, 'ASAN', True) else []
        cmd = [CXX, '-stdlib=libc++', '-std=c++17', '-DVF_NATIVE', '-I' + os.path.join(VERIF, 'vf'), '-I' + self.dir, '-I' + REPO] + FLAVOURS[fl] + ['-O1', '-g1', '-w'] + san + defs + [os.path.join(self.dir, src), os.path.join(VERIF, 'vf', 'vf_native.cc'), '-o', out]
        rc, o, e = sh(cmd, 300)
        r = (out, '') if rc == 0 else (None, e[:1500])
        self.natives[key] = r
        return r

    ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0')

    def entries(self, exe):
        rc, o, e = sh([exe, 'list'], 60, self.ENV)
        return [(l.split()[0], l.split()[1] == '1') for l in o.splitlines() if l.strip()]

    # ---- violations
    def is_known(self, entry, label):
        for k in self.known:
            if re.fullmatch(k['entry'], entry) and re.fullmatch(k['label'], label):
                return k
        return None

    def violation(self, entry, label, text, confirmed, inputs=None):
        k = self.is_known(entry, label)
        if k:
            self.knownhits.append(k)
            return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.txt' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            f.write('property %s\n' % self.prop)
            f.write(text)
            if inputs:
                f.write(inputs)
        self.violations.append((path, confirmed, label))
        print('%s: %s [%s]' % (self.prop, label, entry))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if confirmed else ' no-failing-input-found'))
        sys.stdout.flush()

    def replay(self, exe, entry, path):
        rc, o, e = sh([exe, 'replay', entry, path], 120, self.ENV)
        return rc, o.strip(), e

    def search(self, exe, entry, secs, trials=10**12):
        out = os.path.join(self.tmp, 'found_%s_%d' % (entry, time.time_ns()))
        rc, o, e = sh([exe, 'search', entry, str(self.seed), str(secs), str(trials), out], secs + 200, self.ENV)
        return rc, o.strip(), e, out

    # ---- one unit
    def unit(self, u, fl):
        src, defs = u['src'], u.get('defs', [])
        r = {'src': src, 'flavour': fl, 'defs': defs, 'entries': [], 'problem': None}
        ll, dem = self.ir(src, fl, defs)
        if ll is None:
            r['problem'] = dem
            return r
        res = '%s.%d.json' % (ll, id(u))
        cmd = [IRV, ll, '--demangle', ll + '.dem', '--tmp', self.tmp, '-o', res, '-j', str(u.get('jobs', 8))]
        tl = min(u.get('time', 300 if self.tier == 'quick' else 1500), max(self.left(), 20))
        cmd += ['--timeout', str(tl), '--run-time', str(u.get('run_time', tl)), '--sat-time', str(u.get('sat_time', 60 if self.tier == 'quick' else 300))]
        for pat, con in u.get('replace', []):
            hits = [m for m, d in dem.items() if re.search(pat, d)]
            flat = lambda x: x.replace(' ', '')
            tgt = [m for m, d in dem.items() if flat(d.split('(')[0]).endswith(flat(con)) and m != flat(con) and not re.search(pat, d)] or [con]
            for h in hits:
                cmd += ['--replace', '%s=%s' % (h, tgt[0])]
        for p in u.get('fork', []):
            cmd += ['--fork', p]
        for e in u.get('entries', []):
            if e.startswith('t_') and self.tier == 'quick':
                continue
            cmd += ['--entry', e]
        if self.tier != 'quick':
            cmd.append('--deep')
        cmd += u.get('opts', [])
        t = time.time()
        rc, o, e = sh(cmd, tl * 2 + 120)
        r['wall'] = round(time.time() - t, 2)
        if rc != 0:
            r['problem'] = 'verifier ended with %d: %s' % (rc, e[-800:])
            return r
        r['entries'] = json.load(open(res))
        return r

    def run(self):
        units = []
        for u in self.spec.UNITS:
            if self.tier == 'quick' and u.get('tier') == 'thorough':
                continue
            for fl in u.get('flavours', ['avx2']):
                units.append((u, fl))
        srcs = {}
        for u, fl in units:
            if fl in RUNNABLE:
                srcs.setdefault((u['src'], fl, tuple(u.get('defs', []))), u)
        for b in getattr(self.spec, 'BOUNDED', []):
            for fl in b.get('flavours', ['avx2']):
                srcs.setdefault((b['src'], fl, tuple(b.get('defs', []))), b)
        with cf.ThreadPoolExecutor(8) as nat, cf.ThreadPoolExecutor(getattr(self.spec, 'PAR', 3)) as pool:
            nf = [nat.submit(self.native, s, f, list(d)) for (s, f, d) in srcs]
            rs = [pool.submit(self.unit, u, fl) for u, fl in units]
            for f in nf:
                f.result()
            self.results = [(u, fl, f.result()) for (u, fl), f in zip(units, rs)]
        self.judge()
        self.explore(srcs)
        return self.finish(units)

    def judge(self):
        for u, fl, r in self.results:
            if r['problem']:
                self.notes.append('%s/%s: %s' % (u['src'], fl, r['problem']))
            for e in r['entries']:
                seen = set()
                fs = sorted(e['failures'], key=lambda f: (f['kind'] != 'assert', f['abstracted']))
                for f in fs:
                    if f['kind'] in ('ub', 'lemma'):
                        self.notes.append('%s/%s %s: refuted %s obligation "%s" in %s (not deciding)' % (u['src'], fl, e['entry'], f['kind'], f['label'], f['func']))
                        continue
                    if f['label'] in seen:
                        continue
                    if len(self.violations) >= 6:
                        break
                    self.refuted(u, fl, e, f, seen)

    def refuted(self, u, fl, e, f, seen):
        entry, label = e['entry'], f['label']
        head = 'entry %s\nsource %s\nflavour %s\nlabel %s\nkind %s\nfunction %s\nbackend %s\n' % (entry, u['src'], fl, label, f['kind'], f['func'], f['backend'])
        inputs = ''.join('input %s %d %s\n' % (n, i, v) for n, i, w, v in f['model'])
        for c in f['choices']:
            n, _, v = c.partition('=')
            inputs += 'choose %s 0 %s\n' % (n, v)
        path = os.path.join(self.tmp, 'cex_%d' % time.time_ns())
        open(path, 'w').write(inputs)
        tried = ''
        rfl = fl if fl in RUNNABLE else None
        if rfl:
            exe, err = self.native(u['src'], rfl, u.get('defs', []))
            if exe:
                if f['model'] or f['choices']:
                    rc, o, er = self.replay(exe, entry, path)
                    if rc in (1, -6, -11) or 'FAIL' in o or 'ERROR: AddressSanitizer' in er:
                        seen.add(label)
                        self.violation(entry, label, head, True, inputs + 'observed %s\n' % o.replace('\n', ' '))
                        return
                    tried = 'replay of the model: %s\n' % (o or rc)
                rc, o, er, out = self.search(exe, entry, 15)
                if rc == 1:
                    seen.add(label)
                    self.violation(entry, label, head + tried, True, open(out).read() if os.path.exists(out) else o)
                    return
                tried += 'native search: %s\n' % o
        if f['kind'] == 'safety':
            # an internal run-time check the verifier could not exclude and the real code never hit
            self.notes.append('%s/%s %s: safety obligation "%s" in %s refuted by the verifier but not reproduced' % (u['src'], fl, entry, label, f['func']))
            e.setdefault('unconfirmed', 0)
            e['unconfirmed'] += 1
            return
        seen.add(label)
        self.violation(entry, label, head + tried + 'no failing input found; failed obligation and solver model follow\n', False, inputs)

    def explore(self, srcs):
        """bounded native exploration: the entries marked bounded, and those the verifier left open"""
        weak = {}
        for u, fl, r in self.results:
            if r['problem']:
                weak[(u['src'], fl)] = None
            for e in r['entries']:
                if e['n_undecided'] or e['n_stops'] or e.get('unconfirmed'):
                    weak.setdefault((u['src'], fl), set())
                    if weak[(u['src'], fl)] is not None:
                        weak[(u['src'], fl)].add(e['entry'])
        base = getattr(self.spec, 'SECS', 3) * (1 if self.tier == 'quick' else 10)
        jobs = []
        for key, u in srcs.items():
            exe, err = self.native(key[0], key[1], list(key[2]))
            if not exe:
                self.notes.append('native build of %s/%s failed: %s' % (key[0], key[1], err[:600]))
                continue
            for n, b in self.entries(exe):
                w = weak.get((key[0], key[1]), set())
                fallback = w is None or n in w
                secs = base * (4 if fallback else 1) if (b or fallback) else base * 0.3
                jobs.append((exe, n, secs, key, b, fallback))
        if len(self.violations) >= 4:
            return
        with cf.ThreadPoolExecutor(8) as ex:
            for (exe, n, secs, key, b, fallback), (rc, o, er, out) in zip(jobs, ex.map(lambda j: self.search(j[0], j[1], j[2]), jobs)):
                m = re.search(r'trials=(\d+) skipped=(\d+) asserts=(\d+)', o)
                d = {'entry': n, 'source': key[0], 'flavour': key[1], 'bounded_only': b, 'stands_in_for_open_proof': fallback}
                if m:
                    d.update(trials=int(m[1]), skipped=int(m[2]), assertions=int(m[3]))
                self.bounded.append(d)
                if rc == 1 or 'FAIL' in o:
                    lab = re.search(r'FAIL (.*)', o)
                    lab = lab[1] if lab else 'failure'
                    if any(lab == v[2] for v in self.violations):
                        continue
                    txt = 'entry %s\nsource %s\nflavour %s\nlabel %s\nkind bounded-exploration\n' % (n, key[0], key[1], lab)
                    rep = er[:3000] if 'AddressSanitizer' in er or 'Assertion' in er else ''
                    self.violation(n, lab, txt, True, (open(out).read() if os.path.exists(out) else '') + ''.join('report %s\n' % l for l in rep.splitlines()[:30]))
                elif not m:
                    self.notes.append('native run of %s (%s/%s) gave no result: rc=%s %s' % (n, key[0], key[1], rc, (o + er)[-300:]))

    def finish(self, units):
        tot = disc = 0
        by, funcs, contracts, replaced, ext, labels, covers, solver = {}, {}, [], {}, {}, {}, {}, 0.0
        und, perunit = [], []
        runs = terms = 0
        for u, fl, r in self.results:
            for e in r['entries']:
                tot += e['total']
                d = sum(e['by_backend'].values())
                disc += d
                runs += e['runs']
                for k, v in e['by_backend'].items():
                    by[k] = by.get(k, 0) + v
                for k, v in e['inlined'].items():
                    if 'CODE::' in k or 'SIMD' in k:
                        funcs[k] = funcs.get(k, 0) + v
                for k, v in e['replaced'].items():
                    replaced[k] = replaced.get(k, 0) + v
                for k, v in e['externs'].items():
                    ext[k] = ext.get(k, 0) + v
                for k, v in e['labels'].items():
                    labels[k] = labels.get(k, 0) + v
                for k, v in e['covers'].items():
                    covers['%s/%s/%s: %s' % (r['src'], fl, e['entry'], k)] = v
                solver += e['t_sat']
                contracts.append('%s (%s, %s)' % (e['entry'], r['src'], fl))
                for x in e['undecided']:
                    und.append('%s/%s %s: %s (%s in %s): %s' % (r['src'], fl, e['entry'], x[0], x[1], x[2], x[3]))
                for x in e['stops']:
                    und.append('%s/%s %s: stopped: %s' % (r['src'], fl, e['entry'], x[1]))
                perunit.append({'harness': e['entry'], 'source': r['src'], 'flavour': fl, 'case_splits': e['runs'], 'obligations': e['total'], 'discharged': d, 'by_back_end': e['by_backend'], 'exec_s': e['t_exec'], 'solve_s': e['t_solve'], 'loop_branches_symbolic': e['sym_unrolls'], 'largest_term_store': e['max_terms']})
        vac = [k for k, v in covers.items() if v == 'unreachable']
        if vac and not self.violations:
            self.notes.append('unreachable covers (vacuity): ' + '; '.join(vac))
        level = getattr(self.spec, 'LEVEL', 'proof')
        full = tot > 0 and disc == tot and not und and not vac and not any(r['problem'] for _, _, r in self.results)
        cov = {
            'obligations': tot, 'discharged': disc,
            'all_discharged': full,
            'checker_cmd': 'irv (contract verifier over LLVM IR of the real headers, /verif/irv) with kissat; see harnesses in props/%s' % self.prop,
            'trusted_base': TRUSTED + getattr(self.spec, 'TRUSTED', []),
            'by_back_end': by, 'solver_seconds': round(solver, 2), 'case_splits': runs,
            'contracts': labels, 'harnesses': perunit,
            'functions_verified_from_their_bodies': len(funcs),
            'functions': sorted(funcs)[:300],
            'functions_replaced_by_contract': sorted(replaced),
            'external_functions_uninterpreted': sorted(ext),
            'covers': covers, 'undecided': und[:60], 'n_undecided': len(und),
            'bounded_native_exploration': self.bounded,
            'bounded_trials': sum(b.get('trials', 0) for b in self.bounded),
            'notes': self.notes[:60],
            'scope': getattr(self.spec, 'SCOPE', ''),
        }
        cov['explanation'] = getattr(self.spec, 'SCOPE', '')
        if level == 'exploration':
            cov['evaluations'] = sum(b.get('trials', 0) for b in self.bounded)
            cov['distinct_nontrivial'] = sum(b.get('trials', 0) - b.get('skipped', 0) for b in self.bounded)
            cov['rule'] = 'random inputs drawn per entry from seeded generators, skipped when a precondition fails'
            cov['samples'] = [b['entry'] for b in self.bounded][:5] or ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': getattr(self.spec, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in {json.dumps(k, sort_keys=True) for k in self.knownhits}:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, json.loads(k)['what']))
        print('%s %s: obligations %d discharged %d (%s), open %d, bounded trials %d, violations %d, %.1f s' % (self.prop, self.tier, tot, disc, ', '.join('%s %d' % x for x in sorted(by.items())), len(und), cov['bounded_trials'], len(self.violations), time.time() - T0))
        for n in self.notes[:20]:
            print('note: ' + n[:400])
        for n in und[:20]:
            print('open: ' + n[:400])
        if self.violations:
            return 1
        if tot == 0 and not any(b.get('trials') for b in self.bounded):
            print('no answer: nothing could be verified or executed')
            return 2
        return 0


TRUSTED = [
    'clang 18 front end at -O0 with sroa,mem2reg (the optimiser and code generator used for the shipped binary are not verified; the native replays and explorations run compiled code)',
    'irv: IR parser, symbolic executor, simplifier, bit-blaster and algebraic normal form (written here)',
    'kissat for propositional queries',
    'specification functions in the harnesses',
]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    build_engine()
    c = Check(prop, tier)
    if '--replay' in sys.argv:
        path = sys.argv[sys.argv.index('--replay') + 1]
        kv = dict(l.split(' ', 1) for l in open(path).read().splitlines() if l.split(' ', 1)[0] in ('entry', 'source', 'flavour') and ' ' in l)
        defs = []
        for u in c.spec.UNITS:
            if u['src'] == kv['source']:
                defs = u.get('defs', [])
        exe, err = c.native(kv['source'], kv['flavour'], defs)
        print(err)
        print(*c.replay(exe, kv['entry'], path))
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 0
    try:
        return c.run()
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
