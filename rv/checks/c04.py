from .. import workload, monitors
RULE = workload.RULE
MIN = dict(leaves_checked=20000, leaves_at_exact_minimum=1000, empty_leaves_seen=100, histories_too_short_to_split=3, histories=50, gbart_default_minimum=3)


def jobs(tier, rng):
    out = workload.jobs(tier, rng)
    # the documented default of the interface
    out += [dict(kind='gbart', g=dict(n=n, p=2, kw=dict(ntree=10, numcut=30, maxdepth=5)), reps=3, nskip=10, ndpost=20, keepevery=1, cost=2.5)
            for n in (9, 10, 31)]
    return out


def run(job, rec):
    for H in workload.histories(job, rec):
        if job['kind'] == 'gbart':
            kw = job['g']['kw'].get('initkw', {})
            want = kw.get('min_points_per_leaf', 5)
            if want == 5 and 'min_points_per_leaf' not in kw:
                rec.event('gbart_default_minimum')
            rec.expect(H['minp'] == want, 'gbart-minimum', f'the interface uses a minimum of {H["minp"]} points per leaf, expected {want}')
            H['minp'] = want
        monitors.minpoints(H, rec)
