#!/usr/bin/env python3
"""Run one property's check: record the real library, judge the record with TLC, report.

usage: check.py Cnn            (VERIF_SEED, VERIF_TIER in the environment)

Exit 0: the property held on everything explored. Exit 1: violated, with a line
"VIOLATION property=<id> replay=<path>". Exit 2: the machinery failed.
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
PYPY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from config import PROPS                                                        # noqa: E402


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = PROPS[pid]
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.t0 = time.time()
        self.violations = []       # (signature, dict)
        self.stats = {'calls': 0, 'flag_observations': 0, 'ops': collections.Counter(),
                      'outcomes': collections.Counter(), 'info': [], 'events': 0, 'nontrivial': 0,
                      'states': 0, 'transitions': 0, 'models': [], 'histories': 0, 'replayed': 0}
        self.samples = []
        self.budget = 840 if tier == 'quick' else 6 * 3600

    # ---------------------------------------------------------------- recorders
    def env(self, hashseed='0'):
        e = dict(os.environ)
        e.update(PYTHONPATH='%s:%s' % (REPO, HERE), PYTHONHASHSEED=hashseed,
                 PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', VERIF_TMP=self.tmp,
                 LC_ALL='C.UTF-8')
        return e

    def record(self, driver, parts, scale, extra=()):
        """Run the recorder processes of a driver; returns the prefixes of their outputs."""
        procs = []
        for i in range(parts):
            out = os.path.join(self.tmp, '%s-%d' % (driver, i))
            cmd = [PYPY, '-m', 'harness.drive', driver, str(self.seed), str(i), str(parts),
                   str(scale), out] + list(extra)
            d = out + '.dir'
            os.mkdir(d)
            err = open(out + '.err', 'w')
            procs.append((out, err, subprocess.Popen(cmd, cwd=d, env=self.env(str(i % 5)),
                                                     stdout=err, stderr=err)))
        outs = []
        try:
            for out, err, p in procs:
                left = self.budget - (time.time() - self.t0)
                try:
                    p.wait(max(5, left))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    err.close()
                    self.recorder_died(driver, out, 'recorder did not finish in time')
                    continue
                err.close()
                if p.returncode != 0:
                    self.recorder_died(driver, out, 'recorder ended with %s' % p.returncode)
                    continue
                outs.append(out)
        finally:
            for _, _, p in procs:
                if p.poll() is None:
                    p.kill()
        return outs

    def recorder_died(self, driver, out, why):
        """An exception of the library that escapes from the recorder breaks the property;
        anything else is a failure of the machinery."""
        with open(out + '.err', errors='replace') as f:
            text = f.read()
        last = text.rfind('Traceback')
        frames = re.findall(r'File "([^"]+)"', text[last:]) if last >= 0 else []
        if frames and any(f.startswith(REPO + '/algebraixlib') for f in frames):
            self.violation('escape %s' % frames[-1], {'what': 'exception escaped from the library',
                                                      'driver': driver, 'stderr': text[-3000:]})
        else:
            raise Machinery('%s %s: %s' % (driver, why, text[-1500:]))

    def merge(self, outs, name, dedup=True, clauses=None):
        """Merge recorder outputs into one trace, without duplicate events unless order matters."""
        path = os.path.join(self.tmp, name + '.ndjson')
        seen = set()
        self.notes = getattr(self, 'notes', {})
        n = 0
        with open(path, 'w') as w:
            for out in outs:
                with open(out + '.json') as f:
                    st = json.load(f)
                self.stats['calls'] += st['calls']
                self.stats['flag_observations'] += st['flag_observations']
                self.stats['ops'].update(st['ops'])
                self.stats['outcomes'].update(st['outcomes'])
                self.stats['nontrivial'] += st['nontrivial']
                self.stats['histories'] += st['info'].pop('histories', 0)
                self.stats['replayed'] += st['info'].pop('replayed', 0)
                if st['info']:
                    self.stats['info'].append(st['info'])
                self.notes.update(st['notes'])
                for v in st.get('violations', ()):
                    pre = clauses and clauses.get(v['clause'], ())
                    if clauses is None or pre is None or (pre and v['op'].startswith(pre)):
                        self.violation(v['sig'], v)
                with open(out + '.ndjson') as f:
                    for line in f:
                        h = hash(line)
                        if not dedup or h not in seen:
                            seen.add(h)
                            w.write(line)
                            n += 1
        self.stats['events'] += n
        return path, n

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), heap='10g', timeout=None, workers=8):
        meta = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noTE', '-config', cfg] + list(args) + [module]
        left = self.budget - (time.time() - self.t0)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout or max(30, left), text=True,
                               errors='replace')
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + module)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        if m:
            self.stats['states'] += int(m.group(2))
            self.stats['transitions'] += int(m.group(1))
        return p.returncode, p.stdout

    def judge(self, trace, n, module='Judge.tla', cfg='Judge.cfg', chunk=150000):
        if n == 0:
            return
        lines = open(trace).read().split('\n')[:-1]
        if not self.samples:
            step = max(1, len(lines) // 6)
            self.samples = [x[:600] for x in lines[::step][:6]]
        for at in range(0, len(lines), chunk):
            part = lines[at:at + chunk]
            path = os.path.join(self.tmp, 'chunk.ndjson')
            with open(path, 'w') as f:
                f.write('\n'.join(part) + '\n')
            rc, out = self.tlc(module, cfg, {'TRACE': path})
            for m in re.finditer(r'^"FAIL (\d+) (.*)"$', out, re.M):
                line = part[int(m.group(1)) - 1]
                why = m.group(2).replace('\\"', '"')
                ev = json.loads(line)
                sig = ev.get('op') or ev['k']
                self.violation(sig, {'event': ev, 'judgement': why, 'note': self.notes.get(line)})
            if rc != 0 or 'No error has been found' not in out:
                raise Machinery('TLC failed on %s (%d): %s' % (module, rc, out[-3000:]))

    def judge_histories(self, trace, n, clauses, module='ObjectStoreTrace', chunk=60000):
        """Validate recorded histories; clauses: {clause: operation prefixes or None for any}."""
        lines = open(trace).read().split('\n')[:-1]
        starts = [i for i, x in enumerate(lines) if x == '{"e": "reset"}'] + [len(lines)]
        if not self.samples:
            self.samples = [x[:600] for x in lines[1:len(lines):max(1, len(lines) // 6)]][:6]
        self.stats['nontrivial'] += sum(1 for x in lines if x.startswith('{"e": "call"'))
        k = 0
        while k < len(starts) - 1:
            e = k + 1
            while e < len(starts) - 1 and starts[e + 1] - starts[k] <= chunk:
                e += 1
            part = lines[starts[k]:starts[e]]
            k = e
            path = os.path.join(self.tmp, 'chunk.ndjson')
            with open(path, 'w') as f:
                f.write('\n'.join(part) + '\n')
            rc, out = self.tlc(module + '.tla', module + '.cfg', {'TRACE': path})
            for m in re.finditer(r'^"FAIL (\d+) (\w+) (.*)"$', out, re.M):
                at, clause, why = int(m.group(1)) - 1, m.group(2), m.group(3).replace('\\"', '"')
                ev = json.loads(part[at])
                if clause not in clauses:
                    continue
                pre = clauses[clause]
                if pre is not None and not ev.get('op', '').startswith(pre):
                    continue
                first = max(i for i in range(at + 1) if part[i] == '{"e": "reset"}')
                self.violation(clause + ' ' + ev.get('op', ev['e']), {
                    'event': ev, 'clause': clause, 'judgement': why[:2000],
                    'history': [json.loads(x) for x in part[first:at + 1]]})
            if rc != 0 or 'No error has been found' not in out:
                raise Machinery('TLC failed on %s (%d): %s' % (module, rc, out[-3000:]))

    def replay(self, parts, n, clauses):
        """Behaviours generated by TLC from ObjectStoreGen, carried out by the library."""
        prefix = os.path.join(self.tmp, 'behaviours')
        procs = []
        for i in range(parts):
            cmd = ['java', '-Xss64m', '-Xmx2g', '-XX:+UseSerialGC', '-cp', JAR, 'tlc2.TLC', '-workers', '1',
                   '-metadir', tempfile.mkdtemp(dir=self.tmp), '-noTE', '-simulate', 'num=%d' % max(1, int(n / parts)),
                   '-depth', '41', '-seed', str(self.seed * 1000 + i), '-config', 'ObjectStoreGen.cfg', 'ObjectStoreGen.tla']
            f = open('%s-%d' % (prefix, i), 'w')
            procs.append((f, subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT)))
        try:
            for i, (f, p) in enumerate(procs):
                p.wait(max(5, self.budget - (time.time() - self.t0)))
                f.close()
                with open(f.name, errors='replace') as g:
                    out = ''.join(x for x in g if not x.startswith('"BEH '))
                m = re.search(r'The number of states generated: (\d+)', out)
                if p.returncode != 0 or not m or 'Error' in out:
                    raise Machinery('TLC failed on ObjectStoreGen (%d): %s' % (p.returncode, out[-2000:]))
                self.stats['states'] += int(m.group(1))
                self.stats['transitions'] += int(m.group(1))
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ObjectStoreGen')
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        self.merge(self.record('replay', parts, 1, [prefix]), 'replay', clauses=clauses)
        with open(prefix + '-0') as f:
            self.samples += [x[:600] for x in f if x.startswith('"BEH ')][:2]

    def model(self, module, cfg, args=(), env=None):
        """Exhaustive check of the specification itself."""
        before = self.stats['states'], self.stats['transitions']
        rc, out = self.tlc(module, cfg, env, args)
        if rc != 0 or 'No error has been found' not in out:
            raise Machinery('model %s/%s: %s' % (module, cfg, out[-3000:]))
        self.stats['models'].append({'model': cfg, 'states': self.stats['states'] - before[0],
                                     'transitions': self.stats['transitions'] - before[1]})

    # ---------------------------------------------------------------- verdict
    def violation(self, sig, info):
        self.violations.append((sig, info))

    def finish(self):
        known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
                 if k['property'] == self.pid]
        left, hit = [], collections.Counter()
        for sig, info in self.violations:
            k = next((k for k in known if matches(k, info)), None)
            if k is None:
                left.append((sig, info))
            else:
                hit[k['what']] += 1
        for k in known:
            log('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        wall = time.time() - self.t0
        st = self.stats
        cov = {
            'evaluations': st['calls'] + st['flag_observations'],
            'distinct_nontrivial': st['nontrivial'],
            'rule': self.cfg['rule'],
            'samples': self.samples[-8:] or ['none'],
            'distinct_events_judged': st['events'],
            'states': st['states'], 'transitions': st['transitions'],
            'traces_validated_against_impl': st['histories'] or st['events'],
            'behaviours_replayed_into_impl': st['replayed'],
            'calls_per_operation': dict(sorted(st['ops'].items())),
            'outcomes': dict(sorted(st['outcomes'].items())),
            'models': st['models'], 'details': st['info'][:3],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg['level'],
              'coverage': cov, 'assumptions': self.cfg.get('assumptions', []), 'wall_s': round(wall, 1),
              'violations': len(left)}
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s %s: %d real calls, %d distinct events judged, %d model states, %.1f s' % (
            self.pid, self.tier, st['calls'], st['events'], st['states'], wall))
        if not left:
            return 0
        by = collections.defaultdict(list)
        for sig, info in left:
            by[sig].append(info)
        path = os.path.join(HERE, 'evidence', 'replay', self.pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'violations': {
                sig: {'count': len(v), 'smallest': sorted(v, key=lambda d: len(json.dumps(d)))[:5]}
                for sig, v in by.items()}}, f, indent=1)
        for sig, v in sorted(by.items())[:12]:
            small = min(v, key=lambda d: len(json.dumps(d)))
            log('  %s (%d): %s' % (sig, len(v), json.dumps(small)[:700]))
        log('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1

    def run(self):
        cfg = self.cfg
        scale = cfg.get('thorough', 12) if self.tier == 'thorough' else cfg.get('quick', 1)
        scale *= float(os.environ.get('VERIF_SCALE', '1'))
        for step in cfg['steps']:
            kind = step[0]
            if kind == 'judge':
                _, driver, parts, module = step
                outs = self.record(driver, parts, scale)
                trace, n = self.merge(outs, driver)
                self.judge(trace, n, module + '.tla', module + '.cfg')
            elif kind == 'hist':
                _, driver, parts, clauses = step
                outs = self.record(driver, parts, scale)
                trace, n = self.merge(outs, driver, dedup=False)
                self.judge_histories(trace, n, clauses)
            elif kind == 'replay':
                self.replay(step[1], step[2] * scale, step[3])
            elif kind == 'model':
                self.model(step[1] + '.tla', (step[3] if self.tier == 'thorough' and len(step) > 3
                                              else step[2]) + '.cfg')
            elif kind == 'py':
                getattr(__import__('stages'), step[1])(self, scale, *step[2:])


def matches(k, info):
    text = json.dumps(info.get('event', info), sort_keys=True)
    return all(x in text for x in k['match'])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = Check(pid, tier, seed)
    try:
        try:
            chk.run()
        except Machinery as e:
            if not chk.violations:
                raise
            log('machinery trouble after violations were found: %s' % str(e)[:500])
        return chk.finish()
    except Machinery as e:
        log('MACHINERY FAILURE: %s' % e)
        return 2
    finally:
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(chk.tmp, ignore_errors=True)
        else:
            log('kept ' + chk.tmp)


if __name__ == '__main__':
    sys.exit(main())
