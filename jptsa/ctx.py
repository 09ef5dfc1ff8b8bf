"""Obligations, findings, baseline, known findings and evidence of one check run."""
import json
import os
import pickle
import signal
import sys
import time
import traceback


class Ctx:
    def __init__(self, pid, root, here, rebase=False):
        self.pid, self.root, self.here, self.rebase = pid, root, here, rebase
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obligations = {}       # key -> (ok, message)
        self.findings = {}          # key -> message
        self.counts = {}            # what was analysed
        self.notes = []
        self.samples = []
        self.uncovered = {}
        self.rules = []
        p = self.basefile()
        self.baseline = json.load(open(p)) if os.path.exists(p) and not rebase else {}
        self.newbase = {}

    def basefile(self):
        return os.path.join(self.here, 'baseline', self.pid + '.json')

    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, key, what=''):
        self.obligations.setdefault(key, (True, what))

    def bad(self, key, message):
        self.obligations[key] = (False, message)
        self.findings.setdefault(key, message)

    def ob(self, key, good, message=''):
        if good:
            self.ok(key, message)
        else:
            self.bad(key, message)

    def skip(self, key, why):
        """an obligation that this run could not analyse (never an alarm)"""
        self.uncovered[key] = why

    def floor(self, what, n):
        if self.counts.get(what, 0) < n:
            raise RuntimeError('only %d %s found where at least %d are expected: the anchors of this rule are gone'
                               % (self.counts.get(what, 0), what, n))

    def known(self):
        out = {}
        p = os.path.join(self.here, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.pid):
                    _, rest = line.split('key=', 1)
                    key, _, why = rest.partition(' :: ')
                    out[key.strip()] = why.strip()
        return out

    def finish(self, wall):
        known = self.known()
        if self.rebase and self.newbase:
            os.makedirs(os.path.dirname(self.basefile()), exist_ok=True)
            json.dump(self.newbase, open(self.basefile(), 'w'), indent=1, sort_keys=True)
        viol = {k: m for k, m in self.findings.items() if k not in known}
        listed = [k for k in known if k in self.findings]
        n = len(self.obligations)
        d = sum(1 for ok, _ in self.obligations.values() if ok)
        cov = {'obligations': n, 'discharged': d,
               'explanation': 'Static analysis of the current sources. Rules: ' + ' | '.join(self.rules),
               'analysed': dict(self.counts),
               'samples': self.samples[:12] or [('%s: %s' % (k, v[1])).strip(': ') for k, v in sorted(self.obligations.items())[:8]],
               'known_findings': listed,
               'not_analysed': dict(list(self.uncovered.items())[:40])}
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(self.here, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(self.here, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d not analysed, %.1fs' % (self.pid, n, d, len(self.uncovered), wall))
        for k, c in sorted(self.counts.items()):
            print('   %s: %d' % (k, c))
        for k, why in sorted(self.uncovered.items())[:40]:
            print('   not analysed: %s (%s)' % (k, why))
        for k in listed:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, k, known[k]))
        if viol:
            rp = os.path.join(self.here, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for k, m in sorted(viol.items()):
                    f.write('%s\n    %s\n' % (k, m))
            for k, m in sorted(viol.items()):
                print('  broken: %s: %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def fork_map(fn, items, jobs=8, limit=400):
    """fn(item) for every item in forked processes; -> {item: result}; an item that fails or runs out of time maps to an
    Failure object"""
    out, running, todo = {}, {}, list(items)
    import select
    while todo or running:
        while todo and len(running) < jobs:
            it = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(limit)
                    res = fn(it)
                    data = pickle.dumps(('ok', res))
                except BaseException as e:
                    data = pickle.dumps(('err', '%s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (pid, it, [])
        rd, _, _ = select.select(list(running), [], [])
        for r in rd:
            b = os.read(r, 1 << 16)
            pid, it, buf = running[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                st, res = pickle.loads(b''.join(buf))
                out[it] = res if st == 'ok' else Failure(res)
            except Exception:
                out[it] = Failure('out of time or memory')
    return out


class Failure:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Failure(%s)' % self.why
