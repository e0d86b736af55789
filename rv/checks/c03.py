import numpy as np
from .. import workload, monitors
RULE = workload.RULE
MIN = dict(trees_checked=20000, decision_rules_checked=20000, leaves_with_an_exhausted_predictor=50, leaves_without_any_rule=10, histories=50)
jobs = workload.jobs


def run(job, rec):
    for H in workload.histories(job, rec):
        monitors.trees(H, rec)
        monitors.exhausted(H, rec)
        b = H.get('gbart')
        if b is not None and hasattr(b, '_check_trees'):
            bad = np.asarray(b._check_trees())
            rec.event('self_checked_trees', bad.size)
            rec.expect(not bad.any(), 'self-check', f'the self-check of the saved trees reports {bad.max()}')
