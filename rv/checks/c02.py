from .. import workload, monitors
RULE = workload.RULE
MIN = dict(leaf_memberships_checked=10 ** 6, growability_flags_checked=10000, growability_flags_at_exact_threshold=100, leaf_memberships_above_255=50, leaf_memberships_at_bottom_level=10000, grows_accepted=1000, prunes_accepted=500, histories=50)
jobs = workload.jobs


def run(job, rec):
    for H in workload.histories(job, rec):
        monitors.cache(H, rec)
        if H['final'] is not None:
            monitors.constants(H['init'], H['final'], rec)
