"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Property: what the deciding oracle is.
TECH = {
    'C01': 'round-trip monitors on recorded set/get histories with conditioning-derived tolerances',
    'C02': 'exact packing monitors against an independent model of the vector layout',
    'C03': 'legality monitors on the value reached from every free vector and on constructor defaults',
    'C04': 'size monitors and refusal monitors under wrong-sized input faults',
    'C05': 'refusal monitors under illegal-value faults',
    'C06': 'reference-model monitor of a collection driven by random push/set/get histories',
    'C07': 'spectral differentiation of the executed transform as run-time oracle for Jacobians',
    'C08': 'spectral differentiation of the executed transform as run-time oracle for Hessians',
    'C09': 'chain-rule oracle from spectrally differentiated executions',
    'C10': 'differential monitor of traced against untraced executions, with spectral derivatives',
    'C11': 'spectral differentiation of the user function as run-time oracle for objective derivatives',
    'C12': 'composition oracle: the same function executed at the transformed point',
    'C13': 'spectral differentiation in two blocks as run-time oracle',
    'C14': 'differential monitor against direct execution, with spectral Jacobians',
    'C15': 'state monitors: type and value of every parameter after each derivative call, with call-order stress',
    'C16': 'shadow-state monitors of several live objects under interleaved histories',
    'C17': 'oracle by re-optimization: the optimum of each problem is known in closed form or by Newton',
    'C18': 'oracle by implicit series of the optimum, computed by Newton on complex circles',
    'C19': 'algebraic monitor: terms evaluated against spectrally differentiated series',
    'C20': 'oracle by re-optimization and spectral differentiation of inputs and outputs',
    'C21': 'optimality monitors at the returned point in original coordinates',
    'C22': 'trace checker over the recorded step history of scripted optimizers',
    'C23': 'algebraic identity monitors against spectra known by construction',
    'C24': 'offline checker of the evaluation log against an independently recorded event log',
    'C25': 'residual and partition monitors on recorded solver calls and masks',
    'C26': 'integration oracle: the entropy as an integral, no special functions',
    'C27': 'integration oracle for closed-form expectations',
    'C28': 'moment-recursion, weighted-sum and integral oracles on executed quadratures',
    'C29': 'integration oracle up to a constant, over varying moments',
    'C30': 'integration oracle on the moments reported after random set histories',
    'C31': 'least-squares and log-density oracles on executed regressions',
    'C32': 'dense entry-by-entry model as oracle, argument integrity monitors',
    'C33': 'aliasing monitors: buffers snapshot, written, and re-read around every call',
    'C34': 'snapshot checker: dictionary and text forms compared number by number with the value',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    for p in props:
        pid = p['id']
        checks.append({
            'property': pid,
            'quick_cmd': './check {} quick'.format(pid),
            'thorough_cmd': './check {} thorough'.format(pid),
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': 'runtime monitoring: ' + TECH[pid],
            'level': 'exploration',
            'level_note': 'No violation in the executions observed: the real code, imported from the working tree, under seeded random workloads. '
                          'The thorough tier observes about twenty times as many. Trusts numpy and scipy linear algebra and the interpreter; '
                          'monitor counts, structures and abandoned comparisons are in the evidence file.',
        })
    out = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks: every monitor observes the public interface, so /repo carries only fix commits. '
                 'The library has no native code, threads or input/output, so compiler sanitizers and race detectors have nothing to observe.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
