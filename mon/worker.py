"""One worker process: runs its share of a property's cases and logs what it saw.

usage: worker.py PID SEED TIER SHARD NSHARDS START OUTFILE PROGRESSFILE
       worker.py PID SEED TIER --one FAMILY INDEX
"""
import json, mmap, os, struct, sys, time, zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    pid, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    from mon import props, core
    fams = props.families(pid, tier)
    if sys.argv[4] == '--one':
        fam = [f for f in fams if f.name == sys.argv[5]]
        if not fam:
            print('no such family', sys.argv[5])
            return 2
        return one(core, fam[0], seed, int(sys.argv[6]))
    shard, nsh, start = int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
    out = open(sys.argv[7], 'a')
    pf = os.open(sys.argv[8], os.O_RDWR)
    mm = mmap.mmap(pf, 8)
    sched = props.schedule(fams)
    st = {'evaluations': 0, 'ok': 0, 'rejected_by_both': 0, 'skipped': 0, 'elements': 0,
          'trivial': 0, 'view_fallbacks': 0, 'per_family': {}}
    keys = set()
    samples = []
    seen_v = {}
    extra = {}
    for o in range(start, len(sched)):
        if o % nsh != shard:
            continue
        fam, idx = sched[o]
        mm[0:8] = struct.pack('<q', o)
        g = core.Gen(seed, fam.name, idx)
        try:
            obs = fam.fn(g)
        except core.Skip:
            st['skipped'] += 1
            continue
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as ex:
            v = as_violation(core, ex)
            sig = fam.name + '/' + v.kind
            seen_v[sig] = seen_v.get(sig, 0) + 1
            if seen_v[sig] <= 2:
                out.write(json.dumps({'t': 'violation', 'family': fam.name, 'index': idx,
                                      'kind': v.kind, 'msg': v.msg[:1500]}) + '\n')
                out.flush()
            st['evaluations'] += 1
            continue
        st['evaluations'] += 1
        status, n, key, text = obs[:4]
        if len(obs) > 4 and obs[4]:
            for k, x in obs[4].items():
                extra[k] = extra.get(k, 0) + x
        st['view_fallbacks'] += len(g.notes)
        pfm = st['per_family'].setdefault(fam.name, [0, 0])
        pfm[0] += 1
        if status == 'err':
            st['rejected_by_both'] += 1
            keys.add(zlib.crc32(('E|' + key).encode()))
        else:
            st['ok'] += 1
            st['elements'] += n
            pfm[1] += n
            if n > 0:
                keys.add(zlib.crc32(key.encode()))
            else:
                st['trivial'] += 1
        if len(samples) < 4 and n > 0 and g.chance(0.02):
            samples.append('%s#%d: %s -> %s, %d values judged' % (
                fam.name, idx, (text() if callable(text) else text)[:300], status, n))
    mm[0:8] = struct.pack('<q', len(sched))
    out.write(json.dumps({'t': 'stats', 'stats': st, 'keys': sorted(keys), 'samples': samples,
                          'viol_counts': seen_v, 'extra': extra}) + '\n')
    out.flush()
    return 0


def as_violation(core, ex):
    if isinstance(ex, core.Violation):
        return ex
    import traceback
    return core.Violation('unexpected-' + type(ex).__name__,
                          ''.join(traceback.format_exception(ex))[-1200:])


def one(core, fam, seed, idx):
    g = core.Gen(seed, fam.name, idx)
    try:
        obs = fam.fn(g)
    except core.Skip as s:
        print('SKIP', s)
        return 0
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as ex:
        v = as_violation(core, ex)
        print('VIOLATED %s: %s' % (v.kind, v.msg))
        return 1
    print('HELD', obs[0], obs[1], obs[3]() if callable(obs[3]) else obs[3])
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
