""" regenerate MANIFEST.json; run with python3-vt """
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
INV = 'online invariant monitor, numpy reference model as oracle'
STAT = 'statistical monitor of recorded draws (probability transforms against the exact law)'
DIFF = 'differential monitor of paired executions'
T = dict(
    C01=('online invariant monitor over streamed sampler histories', 'Every iteration of ~60 (quick) diverse chains on four routes; tolerance scaled to float rounding. Trusts the numpy forest evaluator.'),
    C02=('online invariant monitor over streamed sampler histories', 'Exact integer comparison at every iteration with leaf membership recomputed by a reference traversal.'),
    C03=('online invariant monitor over streamed sampler histories', 'Every tree of every iteration is re-validated by a reference checker; the self-check of the library is compared on fitted models.'),
    C04=('online invariant monitor over streamed sampler histories', 'Leaf counts recomputed at every iteration; includes scarce-data configurations where the bound is active.'),
    C05=('transition monitor over consecutive states of streamed histories', 'Every transition of every tree is classified and compared with the recorded counters.'),
    C06=('monitor recomputing each move ratio in float64, with forced threshold decisions', 'Each recorded ratio and decision is re-derived from the model definition; uniform variates are moved next to the threshold in part of the workload.'),
    C07=('statistical monitor: exact posterior by enumeration, prior reproduction, joint-distribution (Geweke) test', 'Detects biases resolvable with the number of draws of the tier (false alarm < 1e-6 per run); trusts the enumerator.'),
    C08=(STAT, 'Each leaf draw is standardised with its exact conditional; pooled tests of law and independence, overall and per stratum.'),
    C09=(STAT, 'Each variance draw is mapped to its exact conditional quantile; pooled tests of law and independence.'),
    C10=('frozen-input and layout monitor around every advancing function', 'Inputs compared bytewise before and after; layouts compared for many option and type combinations.'),
    C11=(DIFF + ' (routes, processes, seeds)', 'Bitwise for repetitions of one program, up to rounding with a majority rule between different compiled programs.'),
    C12=(DIFF + ' sharing iterations, and a trace oracle', 'Chains with different lengths are aligned on shared iterations; the saved rows are compared with the streamed history.'),
    C13=('event-log monitor of callbacks and progress lines', 'Exactly-once and content of each event checked against the configured lengths and the streamed history.'),
    C14=('differential oracle: float64 evaluation of the captured trace', 'Each prediction compared; batching limit injected or really exceeded.'),
    C15=(INV, 'Random and complete trees for all integer types and depths; exact comparison.'),
    C16=(INV + ' (exact counting)', 'Hostile values at, next to and outside cutpoints for all types; exact.'),
    C17=(INV, 'Gap-by-gap validation of cutpoints on hostile data sets of every type; exact.'),
    C18=(INV, 'Grid compared in extended precision on hostile ranges, exact structural conditions.'),
    C19=(DIFF + ' (wrapped and plain function) with warning monitor', 'Batches actually used are observed by counting the calls; random signatures and limits.'),
    C20=(INV, 'Compared with numpy on random arrays of all types, lengths and fill values.'),
    C21=('monitor of the state handed to the sampler against an independent float64 computation', 'All combinations of prior arguments at random; tolerance for float32 linear algebra.'),
    C22=(DIFF + ' (metamorphic changes of units)', 'Chains streamed from paired fits and all outputs compared, with a majority rule where rounding may flip a decision.'),
    C23=(DIFF + ' (batch sizes, permutations)', 'Counts exact, sums to rounding, chains with a majority rule.'),
    C24=(DIFF + ' (input containers) and rejection monitor', 'Outputs compared bitwise for equal numbers; every listed mismatch must raise.'),
    C25=('finiteness and shape monitor over a covering set of boundary configurations', 'Each axis value recurs with different partners in each run; not all combinations.'),
    C26=('diagnostics compared with direct counts on forests with planted defects', 'Exact; defects planted alone and combined.'),
    C27=(STAT + ', exact support monitor', 'Millions of proposals from fabricated states; detects deviations resolvable with that number.'),
    C29=('key reuse sanitizer (jax_debug_key_reuse) and event log of consumed random keys', 'The sanitizer covers eager and compiled routes on ~30 configurations; the raw keys are logged only in interpreted runs of small configurations.'),
    C30=('differential monitor of concurrent, interleaved and post-failure runs (thread stress) and event logs', 'Bitwise against solitary runs; interleavings are those that thread stress produces, counted in the evidence.'),
    C31=('checkpoint and restore monitor at every interruption point', 'Bitwise against the uninterrupted chain at each iteration after each restore.'),
    C32=('log monitor of the programs compiled by XLA while operations are repeated', 'Any compilation in a repetition is a violation; runs with changed shapes show that the monitor is live.'),
    C28=(INV + ' (scipy and mpmath-free reference values)', 'Random arguments and shapes, compiled, vectorized and nested.'),
)
T['C28'] = (INV + ' (scipy reference values)', T['C28'][1])
checks, na = [], []
for p in props:
    i = p['id']
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd=f'bash run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough bash run.sh {i}', technique=tech, level='exploration', level_note=note))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
