"""Entry point of a recorder process: drive NAME SEED PART PARTS SCALE OUTPREFIX."""
import json
import os
import sys
import time


def main():
    name, seed, part, parts, scale, out = sys.argv[1:7]
    sys.setrecursionlimit(5000)
    from . import drivers
    x = drivers.Ctx(int(seed), int(part), int(parts), float(scale))
    t = time.time()
    rec = getattr(drivers, name)(x)
    n = rec.write(out + '.ndjson')
    notes = {}
    stats = {'calls': rec.calls, 'distinct_events': n, 'nontrivial': len(rec.nontrivial),
             'flag_observations': rec.flag_obs,
             'ops': rec.op_counts, 'outcomes': {'%s:%s' % k: v for k, v in rec.outcomes.items()},
             'info': x.info, 'wall_s': time.time() - t}
    lines = rec.lines() if rec.raw is None else ()
    for key, line in zip(rec.events, lines):
        if key in rec.notes:
            notes[line] = rec.notes[key]
    stats['violations'] = getattr(rec, 'violations', [])
    stats['notes'] = dict(list(notes.items())[:2000])
    with open(out + '.json', 'w') as f:
        json.dump(stats, f)


if __name__ == '__main__':
    main()
