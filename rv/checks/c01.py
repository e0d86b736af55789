from .. import workload, monitors
RULE = workload.RULE
MIN = dict(residual_vectors_checked=3000, grows_accepted=1000, prunes_accepted=500, histories=50)
jobs = workload.jobs


def run(job, rec):
    for H in workload.histories(job, rec):
        monitors.resid(H, rec)
