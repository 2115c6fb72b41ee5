#!/usr/bin/env python3
"""Writes MANIFEST.json (run after changing the table below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = ('Trusted: the link-time libc shim that records every socket call, the Python driver, gcc sanitizers, libsodium. '
      'Bounded to the deployments, seeds and faults run; see the evidence file.')
C = {
 'C01': ('end-to-end oracle on recorded deployments (ASan/UBSan)', 'exploration', 'Every client answer of hundreds of real multi-process deployments is recomputed from the recorded bytes and compared with the row asked for; boundary batch sizes, hostile segmentation, start orders. '),
 'C02': ('offline trace checker over recorded socket traffic (conservation, exactly-once)', 'exploration', 'Each hop\'s incoming and outgoing records are decrypted with the configured keys and matched one to one; counts, tags, tallies and replies are checked at their position. '),
 'C03': ('offline trace checker: noise histogram per row', 'exploration', 'Noise each party injected is isolated by matching in and out traffic and counted per row against the closed formula, over partitions of rows among servers. '),
 'C04': ('trace checker + statistical monitor on sampled noise', 'exploration', 'Range of every sample, exact quantile/KS tests of the pooled samples against the truncated Laplace law at false-alarm probability below 1e-9, independence between rows, servers and runs. '),
 'C05': ('trace checker + in-process permutation monitor under ASan/UBSan', 'exploration', 'All servers\' shuffler instances are driven over the real batch layouts and their composed map is checked to be one bijection with an exact inverse; the same is checked on recorded deployments. '),
 'C06': ('statistical monitor of output orders over seeds', 'exploration', 'Chi-square / collision tests over thousands of permutations (small batches exhaustively, large ones by projections), thresholds with false-alarm probability below 1e-9; the offline and online order of deployments are tested too. '),
 'C07': ('ordering checker over happens-before of recorded events with injected stalls', 'fault_enumeration', 'Sends are checked against the receives they must wait for while single links are stalled at chosen bytes. '),
 'C08': ('in-process algebra and distribution monitor + trace checker', 'exploration', 'Shares/tallies of the real library and of recorded runs are folded and compared; uniformity tests; chosen extreme random generator outputs. '),
 'C09': ('trace checker on masked replies', 'exploration', 'Every reply on every link equals row XOR masks behind it; unpredictability by statistical tests. '),
 'C10': ('in-process tamper monitor + independent decryption of recorded ciphertexts', 'exploration', 'Every layer is opened independently with libsodium; every flipped bit, wrong key and wrong order must fail. '),
 'C11': ('byte-level stream checker under injected segmentation', 'exploration', 'Bytes sent and received on each connection are compared and framed while reads, writes and readiness are cut in hostile ways around buffer sizes. '),
 'C12': ('round-trip monitor and mutation fuzzing of config files under ASan/UBSan', 'exploration', 'Random configurations over the whole field ranges, all truncations, random mutations. '),
 'C13': ('black-box runs of gen_config and main with oracle on files and exit status', 'exploration', 'All argument shapes; generated files decoded independently; unique ports, keys and seeds; a deployment is run from it. '),
 'C14': ('byte-fault injection at chosen records under ASan/UBSan', 'fault_enumeration', 'Records on chosen links are mutated in flight, and a hostile client speaks arbitrary protocol bytes; sanitizers and the client answers are the oracle. '),
 'C15': ('crash and disconnect injection at enumerated points', 'fault_enumeration', 'Processes are killed and connections cut at points enumerated from a reference run; the survivors\' termination and exit status is the oracle. '),
 'C16': ('liveness monitor under start-order, stall and buffer-size stress', 'exploration', 'Deployments with permuted start, stalls, small kernel buffers and large lopsided batches must finish; a hang is decided by process state (all blocked, no progress), not by time alone. '),
 'C17': ('ASan/UBSan and valgrind memcheck on benign deployments', 'exploration', 'Boundary and random deployments under both instruments; uninitialised bytes reaching the network are reported by memcheck. '),
 'C18': ('trace checker: uniqueness of tags, shares, masks, ephemeral keys', 'exploration', 'All secrets of a run (and of two runs of one configuration) are extracted from recorded traffic and compared pairwise. '),
 'C19': ('model-based online checker of the orchestrator under random interleavings', 'exploration', 'The real orchestrator runs under node with stand-ins for express/body-parser/ipaddr.js and for bazel; each reply is compared with a reference model. '),
 'C21': ('online state-machine monitor of every command the daemon scripts issue, plus whole experiments with real orchestrator, daemons and binaries', 'exploration', 'The scripts run unchanged as an unprivileged user in a scratch copy; curl, bazel, sleep, ps and kill are stand-ins that ask the harness, which plays the orchestrator and judges every call. '),
 'C22': ('printed times against bounds from recorded event time stamps under injected delays', 'exploration', 'Each printed time must lie between bounds that follow from the recorded events of the party and its siblings (CLOCK_MONOTONIC on one host); delays of 0.3-0.9 s are placed in chosen phases. '),
 'C23': ('recorded drawing calls against values computed independently from the results', 'exploration', 'The real script runs on the shipped measurements, on the stored experiments with random times and on generated descriptions and results, some damaged; stand-ins for matplotlib, numpy and tabulate record what it draws. '),
 'C24': ('model-based online checker of the orchestrator command line', 'exploration', 'Sessions mix every command (creating from lists of values, storing, loading, clearing, listing, killing) with worker requests; every answer, listing and file is compared with a reference model. '),
 'C25': ('recorded calls of the baseline drivers against their parameters, on a virtual clock', 'exploration', 'The SealPIR and Checklist drivers are built from the tree against stand-ins for SEAL, SealPIR and Checklist (not installable here) that record every call and advance the clock; counts, rows, keys and reported times must match exactly. '),
 'C20': ('topology checker over recorded connect/accept/listen events', 'exploration', 'All connections of deployments with distinct loopback addresses and permuted ports are compared with the set the configuration names. '),
}
out = {'version': 1, 'setup_cmd': 'python3 -B lib/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: monitoring is by link-time --wrap of libc socket calls (src/shim.cc), selected by the checks\' own builds. Known and fixed findings: known_findings.txt.'}
for k, (t, l, n) in C.items():
    out['checks'].append({'property': k, 'quick_cmd': 'python3 -B check.py %s' % k, 'thorough_cmd': 'python3 -B check.py %s --thorough' % k,
                          'technique': 'runtime monitoring: ' + t, 'level': l, 'level_note': n + TR})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
