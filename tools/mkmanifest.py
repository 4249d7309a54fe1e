#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks which exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.path.insert(0, ROOT)
import check
TRUST = ' Trusted: TLC, h5py/pandas as readers of the files, the *Sem.tla modules as the meaning of the documentation. Exhaustive in the exported scope, sampled (VERIF_SEED) beyond.'
NOTE = {
 'C01': 'AbxPipeline is explored exhaustively in a small scope and its tasks are exported; the real code runs them, larger random tasks, wide tasks and boundary sizes (also with small buffers), and TLC judges every task file against AbxSem!Triplets.',
 'C02': 'As C01 with filters: 18 filter shapes in every mode exported, random expressions over every extension; the oracle evaluates filters on triplets, without stages.',
 'C03': 'The statistics of the same tasks are recomputed from AbxSem by TLC.',
 'C04': 'Pair lists of the recorded task files judged by TLC (order, exact cover, decoding, tiling), with buffers and sort chunks from one row up.',
 'C05': 'Recorded distance runs (frames, jobs, partitions, one or several feature files) judged by DistTrace with distances that identify both arguments.',
 'C06': 'DistJobs: all interleavings of up to 3 workers with exceptions and deaths, safety and liveness (and the lost update is found without the lock); access logs and faults of real runs judged by DistTrace. Real schedules are sampled.',
 'C07': 'Score files for any distances (ties, infinities, NaN) judged by AbxTrace.',
 'C08': 'Result files judged by AbxTrace: exact lines, counts and sums.',
 'C09': 'Regressors of recorded task files judged row by row by AbxTrace.',
 'C10': 'Thresholded task files judged against the cells of AbxSem, reachability over seeds.',
 'C11': 'H5Buf explored exhaustively; its write/read sequences and larger random ones replayed into NP2H5/H52NP and judged by IoTrace.',
 'C12': 'ExtSort explored exhaustively; all small key sequences and larger ones replayed into H5Handler.sort and judged by IoTrace.',
 'C13': 'Sampler reaches every subset; recorded draws judged by IoTrace (sizes, bounds, reachability, frequencies at 7 standard deviations).',
 'C14': 'Align refines the minimum over all alignments; exported small matrices and larger ones run through the real functions and judged by MetricTrace.',
 'C15': 'Loader refines LoaderSem; exported and random item/auxiliary files loaded by the real code and judged by LoaderTrace.',
 'C16': 'Files: every history of operations (and of failures of the storage) in the scope; each transition and random histories replayed on real files and judged by FilesTrace.',
 'C17': 'Requests repeated in varied circumstances; recorded digests judged by RepeatTrace.',
 'C18': 'Convert explored; folders, batch sizes and verifications run by the real code and judged by ConvTrace.',
 'C19': 'Relations between recorded matrices, and uniform warping exactly, judged by MetricTrace.',
 'C20': 'CliExport enumerates command lines; each runs beside the API call that CliSem defines, judged by CliTrace.',
 'C21': 'Coding explored; tables written in pieces and integer types at every power of two judged by IoTrace.',
 'C22': 'FixedSem defines the values in fixed point (laws checked by TLC in Fixed); values of the real functions on frames of small integers, at several scales, judged by ValueTrace within 2e-4 (Hellinger squared 1e-3, cosine of the angle 3e-3). Errors below this accuracy are not decided: TLC has neither reals nor floats.',
 'C23': 'Gen explored exhaustively (digits of the line number give every combination; sorting decides the equality of tables); generated files and comparisons of the real code judged by GenTrace.',
 'C24': 'Tree explored exhaustively (193 forests of 4 nodes, 2 721 of 5 in thorough): every operation on every forest replayed into the library, all its questions judged by TreeTrace; long histories on up to 11 nodes and nested lists sampled.',
 'C25': 'Conc: all interleavings of two requests, and the two conditions are shown to be needed; its schedules (up to 3 or 5 switches) drive two real processes stopped at each access to a file; recorded accesses and results judged by ConcTrace. HDF5 is not interrupted inside of a call.',
 'C26': 'Crash explored exhaustively, the mark of whole files is shown to be needed; real stages are killed (SIGKILL) at each of their writes, creations and removals, inside of the writes too, and what comes after is judged by CrashTrace.',
 'C27': 'Random tasks, features and distances that integers decide go through the four stages (functions or tools, several jobs, several feature files, small buffers); ChainTrace computes the result from the definitions alone. Bounds: up to 13 items (18 in the thorough tier), distances: a function of the user, edit distance, default distance on frames along the axes.',
}
NA = {}
TECH = {
 'C05': 'TLA+ spec of distance runs (DistJobs, DistTrace): TLC model checking, recorded runs judged by TLC',
 'C06': 'TLA+ spec of workers, lock and faults (DistJobs): TLC safety and liveness; recorded access traces judged by TLC',
 'C16': 'TLA+ spec of histories of file operations and failures (Files): TLC model checking, histories replayed into the real tools, recorded runs judged by TLC',
 'C25': 'TLA+ spec of two requests at the same time (Conc): TLC model checking, its schedules drive two real processes, recorded accesses and results judged by TLC',
 'C26': 'TLA+ spec of killed stages (Crash): TLC model checking, real processes killed at each change of a file, what follows judged by TLC',
 'C27': 'TLA+ semantics of the whole chain (ChainTrace): results of the real chain judged by TLC against the definition, design model checked (AbxPipeline)',
 'C22': 'TLA+ fixed point specification of the values (FixedSem): laws model checked, recorded values judged by TLC',
}
def main():
    checks, na = [], [{'property': k, 'reason': v} for k, v in NA.items()]
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)['id']
        if p in NA:
            continue
        try:
            check.find(p)
        except Exception:
            na.append({'property': p, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'python3 check.py %s thorough' % p,
            'technique': TECH.get(p, 'TLA+ specification: TLC model checking of the design, behaviours exported to the real code, recorded runs judged by TLC'),
            'level': 'model_checking',
            'level_note': NOTE[p] + TRUST})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
