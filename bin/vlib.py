"""What the checks share: building the driver, running it and TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    """the check itself failed: no verdict"""

def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME=e.get('HOME', '/root'))
    p = '/opt/veriftools/go1.27.3/bin'
    if os.path.isdir(p):
        e['PATH'] = p + ':' + e.get('PATH', '')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    return e

class Result:
    """what a stage found and covered"""
    def __init__(self, name):
        self.name, self.bads, self.states, self.distinct, self.traces, self.events = name, [], 0, 0, 0, 0
        self.samples, self.notes, self.extra, self.known = [], [], {}, set()

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
        os.chmod(self.scratch, 0o711)      # unprivileged children have to reach the driver
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.lock = threading.Lock()
        self.n = 0
        self.bins = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def dir(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, '%s-%d' % (re.sub(r'[^\w-]', '_', name), self.n))
        os.makedirs(d)
        return d

    def build(self, race=False):
        """the driver, from the current tree of /repo"""
        key = 'race' if race else 'plain'
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.scratch, 'drv-' + key)
        cmd = ['go', 'build', '-tags', 'verif'] + (['-race'] if race else []) + ['-o', out, '.']
        env = go_env()
        if race:
            env['CGO_ENABLED'] = '1'
        p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError('the driver does not build:\n' + p.stdout + p.stderr)
        self.bins[key] = out
        return out

    def cli(self):
        """the command line program of mmvdump"""
        with self.lock:
            if 'cli' not in self.bins:
                out = os.path.join(self.scratch, 'mmvdump-cli')
                p = subprocess.run(['go', 'build', '-o', out, './mmvdump/cmd/mmvdump'], cwd='/repo', env=go_env(), capture_output=True, text=True)
                if p.returncode != 0:
                    raise CheckError('mmvdump does not build:\n' + p.stderr)
                self.bins['cli'] = out
        return self.bins['cli']

    def drive(self, res, args, name=None, timeout=300, race=False, env=None, crash='crash'):
        """runs the driver; a crash inside the library is a finding, any other failure an error"""
        d = self.dir(name or args[0])
        e = go_env()
        e.update(TMPDIR=d, PCP_CONF='/nonexistent/verif/pcp.conf', GOTRACEBACK='all')
        e.pop('PCP_DIR', None)
        if env:
            e.update(env)
        b = self.build(race)
        try:
            p = subprocess.run([b] + [str(a) for a in args], cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('driver %s did not end in %ss' % (args, timeout))
        if p.returncode != 0:
            txt = p.stderr
            lib = re.search(r'^(panic:|fatal error:|unexpected fault|SIGSEGV|SIGBUS|WARNING: DATA RACE)', txt, re.M) and \
                  'performancecopilot/speed/v4' in txt and 'HARNESS:' not in txt
            if lib:
                f = os.path.join(d, 'crash.txt')
                cur = os.path.join(d, 'current.bin')
                hexa = 'input %s\n\n' % open(cur, 'rb').read().hex() if os.path.exists(cur) else ''
                open(f, 'w').write('driver %s\n\n%s%s' % (' '.join(map(str, args)), hexa, txt))
                res.bads.append((crash, 0, 0, f, txt.strip().split('\n')[0]))
                return d, None
            raise CheckError('driver %s failed (%s):\n%s\n%s' % (args, p.returncode, p.stdout[-2000:], txt[-4000:]))
        return d, p.stdout

    def tlc(self, res, module, cfg, env=None, workers=1, heap='3g', timeout=600, extra=(), need_done=True, replay=None, invert=False):
        d = self.dir('tlc-' + module)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d,
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-config', cfg, '-workers', str(workers),
               '-metadir', os.path.join(d, 'md')] + list(extra) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s did not end in %ss' % (module, timeout))
        out = p.stdout + p.stderr
        bads = re.findall(r'^<<"BAD", "([^"]*)", (-?\d+), (-?\d+)>>', out, re.M)
        done = re.search(r'^<<"DONE", (\d+)>>', out, re.M)
        m = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if m:
            res.states += int(m.group(1))
            res.distinct += int(m.group(2))
        for k in re.findall(r'^<<"KNOWN", (.*)>>$', out, re.M):
            res.known.add(k)
        for l, line, sid in bads:
            res.bads.append((l, int(line), int(sid), replay, ''))
        viol = re.search(r'^Error: (Invariant|Action property|Temporal properties|Deadlock)', out, re.M)
        if invert:
            if not viol:
                raise CheckError('%s holds with %s:\n%s' % (module, open(cfg).read(), tail(out)))
            return out
        if (need_done and not done) or 'TLC threw an unexpected' in out or re.search(r'^Error: ', out, re.M):
            # with a mismatch printed already the evaluation may well have failed because of it
            if not bads:
                raise CheckError('TLC on %s failed:\n%s' % (module, tail(out)))
        if not m and not bads:
            raise CheckError('TLC on %s gave no result:\n%s' % (module, tail(out)))
        shutil.rmtree(d, ignore_errors=True)
        return out

def findings(prop):
    """the lines of known-findings.txt about a property that are not repaired: (key, text)"""
    r = []
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r

def tail(out):
    ls = [l for l in out.split('\n') if not re.match(r'^(Parsing|Semantic|Linting)', l)]
    i = next((k for k, l in enumerate(ls) if l.startswith('Error:')), 0)
    return '\n'.join(ls[i:i + 12] + ['...'] + ls[-15:])[:5000]

def sample_lines(path, k=3):
    r = []
    try:
        with open(path) as f:
            f.readline()
            for i, l in enumerate(f):
                if i in (2, 9, 14) or len(r) < 1:
                    r.append(l.strip()[:600])
                if len(r) >= k:
                    break
    except OSError:
        pass
    return r
