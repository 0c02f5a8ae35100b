"""P05: every accepted option takes effect, also through wrappers."""
import json, os
from analysis.loader import Project
from analysis.deps import Deps, E0
from analysis.report import Result
from . import tables
from .common import definitions, TECHNIQUE as DEFT, ASSUMPTIONS as DEFA

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MINIMUM = 1200
TECHNIQUE = ('interprocedural information-flow analysis (data and control dependence tags propagated through assignments, containers, fields, calls and branches): '
             'every public parameter must reach a result, a raised error, a written file or a modified object, must keep reaching the kind of effect recorded for it in specs/effects.json, '
             'and must be handed on at every call to a package function that has the same option; plus ' + DEFT)
ASSUMPTIONS = ['a dependence found by the analysis may be spurious (an option that is combined in a way that cancels it is not seen)'] + DEFA
MESSAGES = {'verbose', 'n_jobs', 'progress', 'disable', 'num_cores', 'nthreads', 'n_cores', 'message', 'desc'}
# functions whose whole purpose is to print
PRINTERS = {'helper_functions.print_msg', 'mfp_np.loading_verbose', 'usefuls.loading_verbose', 'usefuls.loading_msg', 'plotting.print_chain_stats'}
# a parameter that acts through shared memory, a stream position or a figure handle, which the flow analysis does not track
UNTRACKED = {
    ('radio_telescope_noise.noise_map', 'N_ant'): 'the noise of a uv cell depends on its baselines only; handed in together with a precomputed uv map',
    ('radio_telescope_noise.noise_cube_coeval', 'N_ant'): 'as in noise_map',
    ('radio_telescope_noise.noise_coeval_power_spectrum_1d', 'N_ant'): 'as in noise_map',
    ('radio_telescope_noise.noise_cube_lightcone', 'N_ant'): 'as in noise_map',
    ('radio_telescope_noise.noise_lightcone', 'N_ant'): 'as in noise_map',
    ('segmentation.sigmoid_balanced_cross_entropy_with_logits', 'name'): 'names the scope of the graph',
    ('ViteBetti.CubeMap_joblib', 'multi_marker'): 'workers write into the memory-mapped cube',
    ('halo_list.HaloCubeP3M.__init__', 'pid_flag'): 'advances the read position of the catalogue',
    ('halo_list.HaloCubeP3M.read_from_file', 'pid_flag'): 'advances the read position of the catalogue',
    ('plotting.plot_triangle', 'show_stats'): 'draws on the figure',
    ('plotting.DistributionDiagnostic.add_distribution', 'data'): 'collected for the figure',
    ('plotting.DistributionDiagnostic.add_distribution', 'label'): 'collected for the figure',
    ('plotting.DistributionDiagnostic.add_distribution', 'color'): 'collected for the figure',
    ('power_spect_fast.phase_spect_nd', 'box_dims'): 'the phase of a mode is the same for every box size (kept for the signature shared with power_spect_nd)',
    ('test_case.paint_kernel', 'cube'): 'paints into the cube', ('test_case.paint_kernel', 'positions'): 'paints into the cube', ('test_case.paint_kernel', 'kernel'): 'paints into the cube',
}


def effects_of(s, p):
    t = ('p', p)
    out = set()
    if t in s.ret:
        out.add('ret')
    if t in s.raises:
        out.add('raise')
    if t in s.io or t in s.other:
        out.add('io')
    if any(t in v for v in s.fields.values()):
        out.add('field')
    if any(t in v for v in s.gw.values()):
        out.add('global')
    if any(t in v for v in s.mut.values()):
        out.add('mut')
    return out


def run(tier):
    P = Project()
    D = Deps(P)
    R = Result()
    R.rules = {'no-effect': 'a public parameter influences nothing the caller can observe',
               'effect-lost': 'a parameter no longer reaches the result, object, file or setting it is recorded to act on',
               'not-forwarded': 'a call to a package function with the same option leaves that option at its default',
               'forwarded-other': 'a call to a package function with the same option passes something that does not depend on it'}
    table = json.load(open(os.path.join(HERE, 'specs', 'effects.json')))
    for f in P.all_functions():
        if not f.public or f.qual in PRINTERS:
            continue
        s = D.sums[f]
        for p in f.user_params:
            if p in MESSAGES or p in (f.vararg, f.kwarg) or (f.qual, p) in UNTRACKED:
                continue
            e = effects_of(s, p)
            if not e:
                R.bad('no-effect', f.where, p, 'parameter %r of %s has no effect on results, errors, files or settings' % (p, f.name), f.node.lineno)
                continue
            lost = [k for k in table.get(f.qual, {}).get(p, []) if k not in e and k != 'mut']
            if lost:
                names = {'ret': 'the returned value', 'io': 'the written output', 'field': 'the object', 'global': 'the settings', 'mut': 'the argument it fills'}
                R.bad('effect-lost', f.where, p, 'parameter %r of %s no longer reaches %s' % (p, f.name, ', '.join(names[k] for k in lost)), f.node.lineno)
            else:
                R.ok('%s(%s) -> %s' % (f.where, p, ','.join(sorted(e))))
    forwarding(P, D, R)
    R.counts['functions'] = len(list(P.all_functions()))
    R.counts['flow_rounds'] = D.rounds
    definitions('P05', R, P)
    return R


# calls that deliberately leave a same-named option alone, with the reason
NOT_FORWARDED = {}
from .forwarding import ALLOWED


def forwarding(P, D, R):
    n = 0
    for f in P.all_functions():
        if not f.public or f.qual in PRINTERS:
            continue
        for g, mp, line, star, ctx in D.sums[f].calls:
            if g.qual in PRINTERS:
                continue
            for p in f.user_params:
                if p in MESSAGES or p in (f.vararg, f.kwarg) or p not in g.user_params or p in (g.vararg, g.kwarg) or (f.qual, g.qual, p) in ALLOWED:
                    continue
                if p in mp:
                    if ('p', p) in mp[p]:
                        R.ok('%s -> %s(%s)' % (f.where, g.qual, p))
                    elif g.public:
                        R.bad('forwarded-other', f.where, '%s(%s)' % (g.qual, p), '%s calls %s with %s=something that does not come from its own %r' % (f.name, g.name, p, p), line)
                elif p in g.defaults and not star:
                    R.bad('not-forwarded', f.where, '%s(%s)' % (g.qual, p), '%s calls %s without passing on its option %r' % (f.name, g.name, p), line)
    return n
