"""Driver: `python3 -m sa.check <ID>` decides one property from /repo's current source.

Exit 0: held on everything analysed (listed known findings are printed).
Exit 1: a violation not in known_findings.txt; exit 2: the analysis itself could not run.
"""
import importlib
import json
import os
import pickle
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from sa.model import program, AnalysisBroken  # noqa


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []        # (key, where, message)
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.undecided = []
        self.rule = ''
        self.prog = program()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def report(self, key, where, msg):
        """A violation.  `key` names rule + construct (no line numbers)."""
        for k, w, m in self.violations:
            if k == key:
                return
        self.violations.append((key, str(where), msg))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, text, cap=25):
        s = self.samples.setdefault(name, [])
        if len(s) < cap and text not in s:
            s.append(text)

    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)
        self.count('undecided')

    def spread(self, items, work):
        """work(ctx, item) for every item, in forked processes; results are merged in the order of the items."""
        n = min(8, os.cpu_count() or 1, len(items))
        if n < 2:
            for x in items:
                work(self, x)
            return
        pipes = []
        nxt, token = os.pipe()      # the processes take the next item from a shared pipe
        for i in range(len(items)):
            os.write(token, i.to_bytes(4, 'big'))
        os.close(token)
        sys.stdout.flush()
        for _ in range(n):
            r, w = os.pipe()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')     # only this thread is running
                pid = os.fork()
            if not pid:
                code = 1
                try:
                    out = []
                    while True:
                        b = os.read(nxt, 4)
                        if not b:
                            break
                        i = int.from_bytes(b, 'big')
                        part = Part(self)
                        work(part, items[i])
                        out.append((i, part.violations, part.counts, part.samples, part.notes, part.undecided))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            pipes.append((pid, r))
        os.close(nxt)
        done, bad = [], 0
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            bad += os.waitpid(pid, 0)[1] != 0
            if data:
                done.extend(pickle.loads(data))
        if bad:
            raise RuntimeError('a worker process failed')
        for i, vs, counts, samples, notes, und in sorted(done, key=lambda x: x[0]):
            for v in vs:
                self.report(*v)
            for k, v in counts.items():
                if k != 'undecided':
                    self.count(k, v)
            for k, v in samples.items():
                for x in v:
                    self.sample(k, x)
            self.notes.extend(notes)
            for u in und:
                self.undec(u)

    def need(self, name, minimum):
        """Vacuity guard: the rule must have found at least so many instances."""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken('rule found only %d %s, expected at least %d: nothing to decide' % (self.counts.get(name, 0), name, minimum))


class Part(Ctx):
    """What one worker process found for one item."""
    def __init__(self, whole):
        self.pid, self.tier, self.seed, self.prog, self.rule = whole.pid, whole.tier, whole.seed, whole.prog, ''
        self.violations, self.counts, self.samples, self.notes, self.undecided = [], {}, {}, [], []


def load_known():
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known: '):
                continue
            parts = line[7:].split(' ', 2)
            d = dict(x.split('=', 1) for x in parts[:2])
            known.setdefault(d['property'], {})[d['key']] = parts[2] if len(parts) > 2 else ''
    return known


def keyesc(k):
    return k.replace(' ', '_')


def run(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + pid.lower())
    ctx = Ctx(pid, tier, seed)
    mod.check(ctx)
    known = load_known().get(pid, {})
    new, seen = [], []
    for k, w, m in ctx.violations:
        if keyesc(k) in known:
            seen.append((k, w, m))
        else:
            new.append((k, w, m))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, pid + '.violations.txt')
    with open(rep, 'w') as f:
        for k, w, m in new:
            f.write('%s\n  at %s\n  %s\n' % (keyesc(k), w, m))
        for u in ctx.undecided:
            f.write('undecided: %s\n' % u)
    cov = {'explanation': mod.EXPLANATION, 'rule': ctx.rule or mod.RULE, 'modules': len(ctx.prog.modules),
           'functions_in_tree': len(ctx.prog.funcs_all)}
    cov.update(ctx.counts)
    cov['samples'] = ['%s: %s' % (k, x) for k, v in sorted(ctx.samples.items()) for x in v]
    cov['undecided_list'] = ctx.undecided[:60]
    cov['known_findings'] = ['%s at %s: %s' % x for x in seen]
    cov['notes'] = ctx.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': len(new)}
    cov['violation_list'] = [{'key': keyesc(k), 'where': w, 'message': m} for k, w, m in new]
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    print('%s %s: %s; %d undecided; %.1f s' % (pid, tier, ', '.join('%s=%s' % x for x in sorted(ctx.counts.items())), len(ctx.undecided), time.time() - t0))
    for k, w, m in seen:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, keyesc(k), w, m))
    for k, w, m in new:
        print('  violation %s at %s: %s' % (keyesc(k), w, m))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        return run(pid, tier, seed)
    except AnalysisBroken as e:
        print('analysis cannot decide %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    # deep recursion over nested abstract values needs a large C stack
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv)))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
