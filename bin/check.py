#!/usr/bin/env python3
"""check.py PROPERTY: decides one property; see DESIGN.md."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib, labels, stages
from concurrent.futures import ThreadPoolExecutor

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    level, plan = stages.PLAN[prop]
    results, errors = [], []
    try:
        ctx.build()
        jobs = [j for j in plan(ctx)]
        with ThreadPoolExecutor(max_workers=stages.PARALLEL) as ex:
            futs = [(j, ex.submit(j)) for j in jobs]
            for j, f in futs:
                try:
                    results.append(f.result())
                except vlib.CheckError as e:
                    errors.append(str(e))
                except Exception:
                    errors.append(traceback.format_exc())
    except vlib.CheckError as e:
        errors.append(str(e))
    mine, other = [], {}
    for r in results:
        for b in r.bads:
            ps = labels.props_of(b[0], prop)
            if ps is None:
                errors.append('no property for label %s' % b[0])
            elif prop in ps:
                mine.append((r, b))
            else:
                other[b[0]] = other.get(b[0], 0) + 1
    if set(other) == {'unknown'} and not mine:
        errors.append('an object the specification does not know')
    # what was explored
    cov = {'states': sum(r.distinct for r in results), 'transitions': sum(max(0, r.states - 1) for r in results),
           'traces_validated_against_impl': sum(r.traces for r in results),
           'events': sum(r.events for r in results), 'stages': [r.name for r in results],
           'samples': [s for r in results for s in r.samples][:12]}
    for r in results:
        for k, v in r.extra.items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v
    if other:
        cov['mismatches_of_other_properties'] = other
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': stages.ASSUMPTIONS.get(prop, stages.ASSUMPTIONS['*']),
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(mine)}
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vlib.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in results:
        for k in r.notes:
            print(k)
    if mine:
        seen = set()
        rd = os.path.join(vlib.VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for r, b in mine:
            key = (b[0], r.name)
            if key in seen:
                continue
            seen.add(key)
            dst = os.path.join(rd, '%s-%s-%s' % (prop, r.name.replace('/', '_'), b[0]))
            if b[3] and os.path.exists(b[3]):
                ext = os.path.splitext(b[3])[1]
                shutil.copyfile(b[3], dst + ext)
                dst += ext
            else:
                open(dst + '.txt', 'w').write(str(b))
                dst += '.txt'
            print('VIOLATION property=%s replay=%s  %s at line %d of the trace, session %d (%s) %s' % (prop, dst, b[0], b[1], b[2], r.name, b[4]))
            if len(seen) >= 12:
                break
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR', e)
        sys.exit(2)
    for k in stages.known(ctx, results):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('OK %s %s: %d states, %d traces of the real code, %.1f s' % (prop, tier, cov['states'], cov['traces_validated_against_impl'], time.time() - ctx.t0))

main()
