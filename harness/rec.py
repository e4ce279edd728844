"""Recording of real calls as events for the specification."""
import json
import signal
import traceback

import algebraixlib.undef as ud

from .enc import Enc, flags, reachable


class Timeout(BaseException):
    pass


def _alarm(_sig, _frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)
CALL_LIMIT_S = 20


class Recorder:
    def __init__(self, watch_flags=False, keep_calls=True):
        self.keep_calls = keep_calls
        self.seen = {}        # id -> (object, flags): for the write-once check
        self.enc = Enc()
        self.events = {}      # event key -> number of times observed
        self.calls = 0        # real calls made and recorded
        self.watch_flags = watch_flags
        self.flag_obs = 0
        self.op_counts = {}
        self.outcomes = {}
        self.notes = {}       # event key -> traceback text, for reports
        self.nontrivial = set()
        self.raw = None       # a recorded history: ready-made lines, order kept

    # ------------------------------------------------------------------ calls
    def run(self, fn, args, kwargs=None):
        """Call the library; the outcome is a value or ('x', class name, traceback)."""
        signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT_S)
        try:
            return fn(*args, **(kwargs or {})), None
        except Timeout:
            return None, ('Timeout', 'no answer within %d s' % CALL_LIMIT_S)
        except Exception as e:
            return None, (type(e).__name__, traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def call(self, op, fn, args, lv=0, kwargs=None, shown=None, post=None):
        """Call fn(*args) as operation op at raise level lv and record the outcome.

        shown: the arguments as the specification sees them (default: args)."""
        enc = self.enc
        a = tuple(enc.enc(x) for x in (args if shown is None else shown))
        if lv:
            ud.RaiseOnUndef.set_level(lv)
        try:
            res, err = self.run(fn, args, kwargs)
            if err is None and post is not None:
                res, err = self.run(post, (res,))
        finally:
            ud.RaiseOnUndef.reset()
        r = enc.exc(err[0]) if err else enc.enc(res)
        self.last = r
        self.calls += 1
        self.op_counts[op] = self.op_counts.get(op, 0) + 1
        ok = 'raise' if err else ('undef' if enc.kind[r] == 'u' else 'value')
        k2 = (op, ok)
        self.outcomes[k2] = self.outcomes.get(k2, 0) + 1
        key = ('call', op, a, lv, r)
        if self.keep_calls:
            self.add(key)
        if not self.keep_calls:
            pass
        elif ok == 'value' and sum(enc.size[x] for x in a) >= 4:
            self.nontrivial.add(key)
        if err and self.keep_calls and key not in self.notes:
            self.notes[key] = err[1][-1500:]
        if self.watch_flags:
            self.watch(args)
            if err is None:
                self.watch([res])
        return res if err is None else None

    def pair(self, op, args, r, s, lv=0):
        """Two outcomes that must be the same."""
        self.add(('pair', (('op', (json.dumps(op),)), ('a', (json.dumps([json.loads(self.enc.js[self.enc.enc(x)])
                                                                          for x in args]),)),
                           ('lv', (str(lv),)), ('r', r), ('s', s))))

    def raw_event(self, kind, d):
        """An event with ready-made JSON fields."""
        self.add((kind, tuple((n, (json.dumps(v),)) for n, v in d.items())))

    def add(self, key):
        self.events[key] = self.events.get(key, 0) + 1

    # ------------------------------------------------------------------ flags
    def watch(self, objs):
        acc = {}
        for o in objs:
            reachable(o, acc)
        if len(self.seen) > 20000:
            self.seen = {}
        for i, o in acc.items():
            self.flag_obs += 1
            f = flags(o)
            old = self.seen.get(i)
            if old is None:
                self.seen[i] = (o, f)
            elif old[1] != f:
                self.add(('grow', self.enc.enc(o), old[1], f))
                self.seen[i] = (o, f)
            k = ('flags', self.enc.enc(o), f)
            self.add(k)
            if any(f):
                self.nontrivial.add(k)

    # ------------------------------------------------------------------ output
    def lines(self):
        if self.raw is not None:
            yield from self.raw
            return
        js = self.enc.js
        for key in self.events:
            if key[0] == 'call':
                _, op, a, lv, r = key
                yield '{"k":"call","op":%s,"a":[%s],"lv":%d,"r":%s}' % (
                    json.dumps(op), ','.join(js[x] for x in a), lv, js[r])
            elif key[0] == 'flags':
                yield '{"k":"flags","v":%s,"f":%s}' % (js[key[1]], list(key[2]))
            elif key[0] == 'grow':
                yield '{"k":"grow","v":%s,"f":%s,"g":%s}' % (js[key[1]], list(key[2]), list(key[3]))
            else:
                d = {'k': key[0]}
                body = ','.join('%s:%s' % (json.dumps(n), js[v] if isinstance(v, int) else v[0])
                                for n, v in key[1])
                yield '{"k":%s,%s}' % (json.dumps(key[0]), body)

    def write(self, path):
        n = 0
        with open(path, 'w') as f:
            for line in self.lines():
                f.write(line + '\n')
                n += 1
        return n
