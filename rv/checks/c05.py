from .. import workload, monitors
RULE = workload.RULE
MIN = dict(tree_transitions_checked=20000, kept_rules_checked=20000, grows_accepted=1000, prunes_accepted=500, histories=50)
jobs = workload.jobs


def run(job, rec):
    for H in workload.histories(job, rec):
        monitors.transitions(H, rec)
