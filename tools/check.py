#!/usr/bin/env python3
"""Decides one property: extracts the functions it depends on from /repo, has
the verifier discharge their contracts, and looks for failing inputs in the
real code.  See DESIGN.md, "How a check decides"."""
import hashlib, json, os, re, subprocess, sys, threading, time, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
REPO = os.environ.get('REPO', '/repo')
CACHE = os.path.join(V, '.cache')
import literals  # noqa: E402
from units import UNITS, PROPS, props_of, KANI  # noqa: E402


def sh_env():
    out = subprocess.run(['bash', '-c', '. %s/tools/env.sh; env -0' % V], stdout=subprocess.PIPE, check=True).stdout
    return dict(x.split('=', 1) for x in out.decode().split('\0') if '=' in x)


ENV = None


def sources_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock', '.proto')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


class Locked:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_harness(profile):
    """the harness with /repo's current sources; returns (binary, error)"""
    with Locked('harness'):
        stamp = os.path.join(CACHE, 'stamp-' + profile)
        h = sources_hash()
        cmd = ['cargo', 'build', '--offline'] + ([] if profile == 'dev' else ['--profile', profile])
        cwd = os.path.join(V, 'harness')
        if not os.path.exists(stamp) or open(stamp).read() != h:
            # never trust file times for the code under test
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'indradb-lib', '-p', 'indradb-proto', '-p', 'indradb-plugin-host', '-p', 'vharness']
                           + ([] if profile == 'dev' else ['--profile', profile]), cwd=cwd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout[-4000:]
        open(stamp, 'w').write(h)
    return os.path.join(CACHE, 'target', 'debug' if profile == 'dev' else profile, 'vharness'), None


def build_extractor():
    with Locked('extract'):
        env = dict(ENV); env['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'xt')
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(V, 'tools/extract'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise SystemExit('extractor does not build:\n' + r.stdout[-3000:])
    return os.path.join(CACHE, 'xt/debug/extract')


# set once the harness build has generated the protocol types
PROTO = threading.Event()


def proto_source():
    """the Rust types the build of /repo just generated from its proto file"""
    r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json'], cwd=os.path.join(V, 'harness'), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            if d.get('reason') == 'build-script-executed' and 'indradb-proto' in d.get('package_id', '') + d.get('out_dir', ''):
                return os.path.join(d['out_dir'], 'indradb.rs')
    return '/nonexistent'


class Unit:
    """one Verus run over one template"""

    def __init__(self, name, work, vacuity=False):
        self.name, self.work, self.vacuity = name, work, vacuity
        self.template = UNITS[name]['template']
        self.lost = None          # why the whole unit could not be verified
        self.unverified = {}      # function key -> why its body was left out
        self.functions = []       # names with obligations
        self.failed = []          # obligations not discharged
        self.undecided = []       # resource limit
        self.report, self.solver_ms, self.wall, self.text = [], 0, 0, ''
        self.cmd = ''

    def key_of(self, fn):
        """the extracted function a verifier name stands for"""
        last = fn.split('::')[-1]
        owner = fn.split('::')[-2] if '::' in fn else ''
        mod = fn.split('::')[-3] if fn.count('::') > 1 else ''
        best, score = None, 0
        for r in self.report:
            if r['kind'] == 'fn' and (r.get('as') or r['name']) == last:
                c = r['container'].split('|')[-1]
                s = 2 if c == '-' or r.get('as') else 1
                if c == owner:
                    s = 5
                elif c.split('<')[0].split('::')[-1] == owner:
                    s = 4 if (c.startswith('crate::')) == (mod in ('pb', '')) else 3
                if s > score:
                    best, score = r['key'], s
                elif s == score and s <= 2 and best != r['key']:
                    best = None
        return best

    def run(self, extract):
        t0 = time.time()
        base = os.path.join(self.work, self.name)
        src, rep = base + '.rs', base + '.json'
        trust = []
        for attempt in range(8):
            env = dict(ENV)
            if self.vacuity:
                env['VACUITY'] = '1'
            if UNITS[self.name].get('proto'):
                PROTO.wait()
                env['PROTO_RS'] = proto_source()
            r = subprocess.run([extract, REPO, os.path.join(V, 'contracts', self.template), src, rep] + trust, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                self.lost = r.stdout.strip()[-1500:]
                break
            self.report = json.load(open(rep))
            for f in self.report:
                if f['kind'] == 'fn' and f['unverified']:
                    why = f['unverified']
                    if why != 'verifier' or f['key'] not in self.unverified:
                        self.unverified[f['key']] = why
            cmd = ['verus', src, '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--multiple-errors', '3']
            for m in UNITS[self.name].get('modules', []):
                cmd += ['--verify-module', m]
            self.cmd = 'extract %s %s && %s' % (REPO, self.template, ' '.join(['verus', os.path.basename(src)] + cmd[2:]))
            try:
                r = subprocess.run(cmd, cwd=self.work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                self.lost = 'the verifier did not finish in 600 s'
                break
            self.text = r.stderr
            try:
                d = json.loads(r.stdout[r.stdout.index('{'):])
            except ValueError:
                self.lost = 'the verifier gave no answer:\n' + (r.stdout + r.stderr)[-1500:]
                break
            vr = d.get('verification-results', {})
            times = d.get('times-ms', {})
            hard = vr.get('encountered-error') or vr.get('encountered-vir-error') or not times.get('smt', {}).get('smt-run-module-times')
            if not vr.get('success') and hard and not vr.get('errors'):
                bad = self.blame(src)
                new = [b for b in bad if b not in trust]
                if not new:
                    self.lost = 'the verifier does not accept the extracted text:\n' + r.stderr[:1500]
                    break
                for b in new:
                    self.unverified[b] = 'not accepted by the verifier: ' + self.first_error(r.stderr)
                trust += new
                continue
            self.solver_ms = times['smt'].get('total', 0)
            out_of_time = set(re.findall(r'error: ([^\n]*?): Resource limit \(rlimit\) exceeded', r.stderr))
            rl_lines = [int(x) for x in re.findall(r'Resource limit \(rlimit\) exceeded[^\n]*\n\s*--> [^:\n]*:(\d+)', r.stderr)]
            rl_keys = set(filter(None, (self.key_at(src, l) for l in rl_lines)))
            seen = {}
            for m in times['smt']['smt-run-module-times']:
                for f in m.get('function-breakdown', []):
                    n = f['function'].split('::', 1)[1]
                    seen[n] = seen.get(n, True) and f['success']
            for n, ok in seen.items():
                if n.endswith('canary_must_fail'):
                    self.canary = (not ok) and getattr(self, 'canary', True)
                    continue
                self.functions.append(n)
                if not ok:
                    k = self.key_of(n)
                    real = [b for b in re.split(r'\n(?=error)', r.stderr)]
                    if (k and k in rl_keys and not self.other_error(src, k, r.stderr)) or n in out_of_time:
                        self.undecided.append(n)
                    else:
                        self.failed.append(n)
            break
        self.wall = time.time() - t0
        return self

    def blocks(self, src):
        if not hasattr(self, '_bl') or self._bl[0] != src or self._bl[1] != os.path.getmtime(src):
            bl, cur = [], None
            for i, l in enumerate(open(src), 1):
                if l.startswith('// BEGIN '):
                    cur = (l[9:].strip(), i)
                elif l.startswith('// END') and cur:
                    bl.append((cur[0], cur[1], i)); cur = None
            self._bl = (src, os.path.getmtime(src), bl)
        return self._bl[2]

    def key_at(self, src, line):
        for k, a, b in self.blocks(src):
            if a <= line <= b:
                return k
        return None

    def blame(self, src):
        """the extracted functions the compiler's messages point into"""
        keys = []
        for b in re.split(r'\n(?=error)', self.text):
            if not b.startswith('error'):
                continue
            for l in re.findall(r'--> [^:\n]*:(\d+)', b):
                k = self.key_at(src, int(l))
                if k and k not in keys:
                    keys.append(k)
        return keys

    def other_error(self, src, key, text):
        for b in re.split(r'\n(?=error)', text):
            if b.startswith('error') and 'Resource limit' not in b:
                for l in re.findall(r'--> [^:\n]*:(\d+)', b):
                    if self.key_at(src, int(l)) == key:
                        return True
                for l in re.findall(r'^\s*(\d+) \|', b, re.M):
                    if self.key_at(src, int(l)) == key:
                        return True
        return False

    @staticmethod
    def first_error(text):
        m = re.search(r'^error[^\n]*', text, re.M)
        return m.group(0)[:200] if m else '?'

    def errors_for(self, name):
        last = name.split('::')[-1]
        out = []
        for b in re.split(r'\n(?=error)', self.text):
            if b.startswith('error') and ('fn ' + last in b or last in b):
                out.append(b[:3000])
        return out or [self.text[:6000]]


def search(binary, prop, seed, secs, out, words, work):
    slots = out + '.slots'
    for f in (out, slots):
        if os.path.exists(f):
            os.remove(f)
    r = subprocess.run([binary, 'search', '--prop', prop, '--seed', str(seed), '--secs', str(secs), '--out', out, '--dict', json.dumps(words), '--slots', slots],
                       env=ENV, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    return r, slots


DEATHS = {6: 'SIGABRT', 11: 'SIGSEGV', 7: 'SIGBUS', 4: 'SIGILL'}


def died(binary, prop, seed, words, work, slots, code):
    """the process that searched was ended: by which of the inputs it was trying?"""
    if -code not in DEATHS:
        return None
    try:
        cases = [l.split() for l in open(slots) if l.strip('\0\n ')]
    except Exception:
        return None
    for module, case in cases:
        f = {'property': prop, 'module': module, 'seed': seed, 'case': int(case), 'extra': None, 'dict': words}
        p = os.path.join(work, 'died.json')
        json.dump(f, open(p, 'w'))
        try:
            r = subprocess.run([binary, 'replay', p], env=ENV, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=100)
        except subprocess.TimeoutExpired:
            continue
        if -r.returncode in DEATHS:
            f['text'] = 'the process dies: %s %s' % (DEATHS[-r.returncode], r.stderr[-600:])
            return {'property': prop, 'seed': seed, 'evaluations': 1, 'distinct_nontrivial': 1, 'samples': [], 'modules': [module], 'wall_s': 0, 'found': f}
    return None


def trusted_items(path):
    """what the generated file leaves unproved"""
    out, text = [], open(path).read()
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if '#[verifier::external_body]' in l:
            j = i
            while j < len(lines) and not re.search(r'\b(fn|struct|enum)\s+\w+', lines[j]):
                j += 1
            m = re.search(r'\b(proof fn|fn|struct|enum)\s+(\w+)', lines[j]) if j < len(lines) else None
            if m:
                out.append({'fn': 'shim ', 'proof fn': 'axiom ', 'struct': 'opaque type ', 'enum': 'opaque type '}[m.group(1)] + m.group(2))
        m = re.search(r'\b(assume|admit)\s*\(', l)
        if m and not l.strip().startswith('//'):
            out.append('assume at line %d: %s' % (i + 1, l.strip()[:80]))
    return sorted(set(out))


def main():
    global ENV
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ENV = sh_env()
    P = PROPS[prop]
    work = os.path.join(CACHE, 'work', '%s-%s' % (prop, tier))
    subprocess.run(['mkdir', '-p', work], check=True)
    replays = os.path.join(CACHE, 'replay')
    os.makedirs(replays, exist_ok=True)
    ev_path = os.path.join(V, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)

    extract = build_extractor()
    units = [Unit(u, work) for u in P.get('units', [])]
    kani = [KANI[k] for k in P.get('kani', [])]
    builds = {}

    def do_build():
        try:
            for pr in P.get('profiles', ['dev']):
                builds[pr] = build_harness(pr)
        finally:
            PROTO.set()
    threads = [threading.Thread(target=u.run, args=(extract,)) for u in units]
    threads.append(threading.Thread(target=do_build))
    if kani:
        import kani_run
        kres = []
        threads.append(threading.Thread(target=lambda: kres.extend(kani_run.run(kani, work, REPO, ENV, tier))))
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for pr, (binary, err) in builds.items():
        if binary is None:
            print('the harness does not build against %s:\n%s' % (REPO, err))
            sys.exit(2)

    # ---- what the verifier said about the functions this property rests on
    failed, undecided, unverified, fns, obligations = [], [], [], [], 0
    for u in units:
        if u.lost:
            unverified.append({'unit': u.name, 'why': u.lost})
            continue
        for k, why in u.unverified.items():
            if prop in props_of(u.name, k.split()[-1], k):
                unverified.append({'unit': u.name, 'function': k, 'why': why})
        mine = [n for n in u.functions if prop in props_of(u.name, n.split('::')[-1], u.key_of(n))]
        obligations += len(mine)
        fns += ['%s: %s' % (u.name, u.key_of(n) or n) for n in mine if u.key_of(n)]
        failed += [(u, n) for n in u.failed if n in mine]
        undecided += ['%s: %s' % (u.name, n) for n in u.undecided if n in mine]
        if getattr(u, 'canary', True) is not True:
            unverified.append({'unit': u.name, 'why': 'the axioms of the unit are inconsistent (canary proved)'})
    kfail = []
    if kani:
        for r in kres:
            obligations += r['checks'] if r['status'] != 'lost' else 0
            fns.append('kani: ' + r['harness'] + ' -- ' + r['covers'])
            if r['status'] == 'failed':
                kfail.append(r)
            elif r['status'] != 'proved':
                unverified.append({'unit': 'kani ' + r['harness'], 'why': r['why']})

    # ---- failing inputs in the real code
    secs = P.get('secs', 10) if tier == 'quick' else P.get('thorough_secs', 300)
    if (failed or kfail) and tier == 'quick':
        secs = max(secs, P.get('fail_secs', 60))
    elif (unverified or undecided) and tier == 'quick':
        secs = max(secs, P.get('lost_secs', 40))
    words = literals.new()
    searches, found = [], None
    for i, (pr, (binary, _)) in enumerate(builds.items()):
        out = os.path.join(work, 'search-%s.json' % pr)
        s = max(3, secs // len(builds))
        d = None
        for attempt in range(2):
            r, slots = search(binary, prop, seed + 1000 * i + 77 * attempt, s, out, words, work)
            try:
                d = json.load(open(out))
            except Exception:
                d = died(binary, prop, seed + 1000 * i + 77 * attempt, words, work, slots, r.returncode)
            if d:
                break
        if not d:
            print('the search ended without an answer (exit %s):\n%s' % (r.returncode, (r.stdout + r.stderr)[-3000:]))
            sys.exit(2)
        d['profile'] = pr
        searches.append(d)
        if d.get('found'):
            found = (pr, binary, d['found'])
            break

    # ---- the assumptions on libraries, sampled
    sampled = {}
    try:
        r = subprocess.run([builds[list(builds)[0]][0], 'assume', '--seed', str(seed), '--secs', '0' if tier == 'quick' else '30'],
                           env=ENV, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=120)
        sampled = json.loads(r.stdout)
    except Exception as e:
        sampled = {'failed': [], 'samples': 0, 'not_run': str(e)[:200]}
    for x in sampled['failed']:
        unverified.append({'unit': 'assumptions', 'why': 'an assumption does not hold: ' + x})

    # ---- known findings
    known = []
    kf = os.path.join(V, 'known-findings.txt')
    for l in open(kf):
        m = re.match(r'finding: property=(\S+) (\S+)\|(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3), m.group(4)))
    kn_lines = []
    if known:
        binary = builds[list(builds)[0]][0]
        r = subprocess.run([binary, 'known'], env=ENV, cwd=work, stdout=subprocess.PIPE, text=True)
        st = {}
        for l in r.stdout.splitlines():
            w = l.split()
            if len(w) == 3 and '|' not in l:
                st[(w[0], w[1])] = w[2]
        for a, b, txt in known:
            if st.get((a, b)) == 'changed':
                kn_lines.append('KNOWN-FINDING: property=%s %s %s: %s' % (prop, a, b, txt))

    violation = None
    stamp = hashlib.sha256(('%s %s %s' % (prop, seed, time.time())).encode()).hexdigest()[:10]
    rp = os.path.join(replays, '%s-%s.json' % (prop, stamp))
    obl = [{'unit': u.name, 'obligation': n, 'function': u.key_of(n), 'verifier': u.errors_for(n)} for u, n in failed]
    obl += [{'unit': 'kani', 'obligation': r['harness'], 'function': r['covers'], 'verifier': [r['why']], 'counterexample': r.get('values')} for r in kfail]
    kreplay = next((r for r in kfail if r.get('replayed')), None)
    if found:
        pr, binary, f = found
        json.dump({'property': prop, 'input': f, 'profile': pr, 'failed_obligations': obl,
                   'replay': '%s/tools/replay.sh %s' % (V, rp)}, open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (prop, rp)
        print('failing input (%s): %s' % (f.get('module'), str(f.get('text'))[:1500]))
    elif kreplay:
        json.dump({'property': prop, 'failed_obligations': obl, 'replay_output': kreplay['replayed']}, open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (prop, rp)
    elif obl:
        json.dump({'property': prop, 'failed_obligations': obl, 'searched': [{k: s[k] for k in ('evaluations', 'wall_s', 'profile')} for s in searches]}, open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    for o in obl:
        print('obligation not discharged: %s %s (%s)' % (o['unit'], o['obligation'], o['function']))
    for x in unverified:
        print('bounded only: %s %s: %s' % (x['unit'], x.get('function', ''), str(x['why'])[:300]))
    for x in undecided:
        print('bounded only: %s: resource limit of the verifier' % x)

    # ---- evidence
    vac = None
    if tier == 'thorough' and units:
        vac = {}
        for u in units:
            w = Unit(u.name, os.path.join(work), vacuity=True)
            w.run(extract)
            want = [n for n in w.functions if w.key_of(n)]
            vac[u.name] = {'functions': len(want), 'not_vacuous': len([n for n in want if n in w.failed or n in w.undecided])}
    trusted = []
    for u in units:
        if not u.lost:
            trusted += ['%s: %s' % (u.name, x) for x in trusted_items(os.path.join(work, u.name + '.rs'))]
    trusted += ['%s: %s' % ('kani', x) for k in kani for x in k.get('trusted', [])]
    evals = sum(s['evaluations'] for s in searches)
    nontriv = sum(s['distinct_nontrivial'] for s in searches)
    level = P['level']
    rewrites = {}
    for u in units:
        for f in u.report:
            if f['kind'] == 'fn':
                for k, n in (f.get('rewrites') or {}).items():
                    rewrites[k] = rewrites.get(k, 0) + n
    cov = {
        'obligations': obligations,
        'discharged': obligations - len(failed) - len(undecided) - len(kfail),
        'checker_cmd': '; '.join([u.cmd for u in units] + [k['cmd'] for k in kani]) or 'none',
        'trusted_base': sorted(set(trusted)) + P.get('trusted', []),
        'functions_under_contract': sorted(set(fns)),
        'back_end': 'Verus (Z3)' + (', Kani (CBMC)' if kani else ''),
        'solver_s': round(sum(u.solver_ms for u in units) / 1000.0, 1) + round(sum(r.get('secs', 0) for r in (kres if kani else [])), 1),
        'extraction_rewrites': rewrites,
        'not_verified_this_run': unverified + [{'function': x, 'why': 'resource limit'} for x in undecided],
        'bounded': {'what': P['bounded'], 'evaluations': evals, 'distinct_nontrivial': nontriv,
                    'modules': [m for s in searches for m in s.get('modules', [])] if isinstance(searches[0].get('modules'), list) else [s.get('modules') for s in searches],
                    'samples': [x for s in searches for x in s.get('samples', [])][:6], 'profiles': [s['profile'] for s in searches]},
        'assumptions_sampled': sampled,
        'known_findings': kn_lines,
    }
    if vac is not None:
        cov['vacuity'] = vac
    if level == 'exploration':
        cov['evaluations'], cov['distinct_nontrivial'] = evals, nontriv
        cov['rule'], cov['samples'] = P['bounded'], cov['bounded']['samples']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0}
    json.dump(ev, open(ev_path, 'w'), indent=1)
    for l in kn_lines:
        print(l)
    print('%s: %d obligations, %d discharged (%d functions under contract), %d inputs tried in the real code, %.0f s'
          % (prop, obligations, cov['discharged'], len(cov['functions_under_contract']), evals, time.time() - t0))
    if violation:
        print(violation)
        sys.exit(1)


if __name__ == '__main__':
    main()
