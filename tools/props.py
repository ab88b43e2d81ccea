"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'ctbayes/'


def P(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                tech=tech, note=note, state=state, observe=observe)


TV = 'TLA+ spec checked exhaustively with TLC; recorded executions of the real code validated against it (trace validation)'
RP = 'TLA+ spec checked with TLC, its enumerated cases replayed into the real code, every result judged by the spec'
LAW = 'TLA+ spec with exact event probabilities; outcome frequencies of the real sampler judged by the spec in TLC (6 sigma)'

PROPS = [
 P('C01', 'Cutting and pasting a regime path loses nothing',
   'Cutting a regime path at any strictly increasing interior times gives one piece per interval, each piece being the restriction of the path to its interval moved to time 0; pasting pieces concatenates them and removes times at which the state does not change, so that pasting what was cut returns the original path, whatever the position of the cuts relative to the jumps. Evaluating a path returns the state in force (right-continuous) up to and including the horizon and refuses later times; occupation shares and equality agree with the path.',
   ['inputs', 'histories'], 'every path (any number of states and jumps), every set of cut times including times that coincide with jumps, every time unit, repeated cutting and pasting',
   'Doctests cut one random 3-state path at random times, which never coincide with jumps, and only compare the pasted path.',
   [S + 'mjplib/skeleton.py'], [('partition_skeleton', S + 'mjplib/skeleton.py'), ('paste_partition', S + 'mjplib/skeleton.py'), ('Skeleton.__call__', S + 'mjplib/skeleton.py')],
   RP, 'Exhaustive over all minimal paths on a 4-tick (thorough: 5-tick) grid with 3 states and all cut sets, plus random long paths; within those bounds the comparison is exact. Trusts TLC and the tick conversion of the driver.'),
 P('C02', 'Simulated regime paths respect their conditioning',
   'A regime path simulated forwards, backwards or as a bridge starts at time 0, has strictly increasing jump times inside the horizon and only transitions of positive rate between different states, and starts or ends in the states it was conditioned on. Mutating a cut path regenerates it piecewise: it keeps the number and lengths of the pieces and the state at every cut, and a proposed regime path keeps horizon and the states at all conditioning times, which are a subset of the interior observation times.',
   ['inputs', 'histories'], 'every generator (including zero rates and very unequal rates), horizon, end states and random stream; every cut of the current path',
   'Doctests only look at long-run occupation shares of single paths with positive rates; conditioning on end states is never asserted.',
   [S + 'mjplib/skeleton.py', S + 'misc/adapt.py'], [('sample_forwards/backwards/bridge', S + 'mjplib/skeleton.py'), ('mutate_partition', S + 'mjplib/skeleton.py'), ('MyopicMjpSampler.propose', S + 'misc/adapt.py')],
   TV, 'Trace validation of several thousand simulated paths per run over many generators; order relations are exact (ranks).'),
 P('C03', 'Regime simulators draw from the jump process law',
   'Forward simulation, bridges, backward simulation and mutation draw regime paths from the law of the stationary Markov jump process with the given generator, conditioned on exactly the states they are told to keep; transition matrices and stationary distributions are those of the generator.',
   ['inputs', 'configurations'], 'every generator, horizon and conditioning event',
   'Doctests check only long-run occupation of one path with a 1% tolerance, which is blind to end-point laws, short horizons and conditioning.',
   [S + 'mjplib/skeleton.py'], [('sample_n_trans (uniformisation)', S + 'mjplib/skeleton.py'), ('get_trans', S + 'mjplib/skeleton.py'), ('get_stat', S + 'mjplib/skeleton.py')],
   LAW, 'Statistical: event frequencies over 10^3 to 10^5 paths against closed-form probabilities computed in the specification (two-state and cyclic generators); resolution about 1-2% per event.'),
 P('C04', 'Poisson point sets are complete, in order and inside the region',
   'A Poisson point process drawn at once or in batches has the Poisson number of points for its intensity and region, each point uniform on the region and independent of the others. Batches come in order of the first coordinate, together form one point set ordered in that coordinate, never leave the region, and have the requested size except possibly the last; the law of the whole does not depend on the batch size.',
   ['inputs', 'histories'], 'every intensity, region (any dimension), batch size and random stream, and every prefix of batches consumed',
   'Doctests test the pooled uniformity of one large sample with batch size 2, blind to order, region limits and to batch-size effects.',
   [S + 'mjplib/skeleton.py'], [('sample_batch_ppp', S + 'mjplib/skeleton.py'), ('sample_ppp', S + 'mjplib/skeleton.py')],
   TV, 'Exact order/region/batch clauses on every recorded point set; law by frequencies of counts, positions and order statistics at 6 sigma.'),
 P('C05', 'Generator inference is the conjugate update of the path statistics',
   'Updating the generator prior with a path adds the number of i-to-j jumps and the whole time spent in i, including the time after the last jump; the log-likelihood of a path is the sum of log rates over its jumps minus the sum over states of time times exit rate. Both are additive over the pieces of a path cut away from its jumps, and sampled, expected and most likely generators have rows summing to zero and the gamma laws of the updated parameters.',
   ['inputs'], 'every path, generator and hyperparameters; every way of cutting the path',
   'One doctest checks concentration on a long path with 10% tolerance; likelihood, prior density, mode and the last sojourn are untested.',
   [S + 'mjplib/inference.py'], [('update', S + 'mjplib/inference.py'), ('eval_loglik', S + 'mjplib/inference.py'), ('sample_param/get_ev/get_mode', S + 'mjplib/inference.py')],
   RP, 'Integer-exact on enumerated paths, fixed-point (1e-4) on random ones; gamma laws by frequencies.'),
 P('C06', 'Two-coin factories flip the Barker coin and never lose a path',
   'Both two-coin algorithms return heads with probability w1 p1/(w1 p1 + w2 p2), return the object produced by the successful flip, escape with the configured probability only after an unsuccessful flip and then return tails with the latest object of the second coin (joint version: of the shared coin), and never flip a coin more often than the budget, raising the budget error instead. Used as a Markov kernel they leave the target invariant, with or without escape.',
   ['inputs', 'histories', 'schedules'], 'every weights, coin laws, escape probability and budget, every sequence of flip results',
   'One doctest checks the frequency of one weight pair with perfect objects; escape, objects, budget and the joint variant are untested.',
   [S + 'misc/bfactories.py'], [('sample_twocoin', S + 'misc/bfactories.py'), ('sample_twocoin_joint', S + 'misc/bfactories.py')],
   TV, 'TLC enumerates all flip histories of the protocol; each recorded history is replayed through the protocol actions; the law by frequencies; kernel invariance by exact rational arithmetic in TLC on small state spaces.'),
 P('C07', 'Poisson coins decide by the revealed points and have the right law',
   'A Poisson coin succeeds exactly when no drawn point lies under the rate function evaluated on the path at the drawn times; its success probability is the exponential of minus the integral of the rate above its reported lower level, and it returns the path with the points it looked at. A dual coin succeeds with the exponential of minus the integral of the positive (or negative) part of the difference of the two rates, and the Poisson estimators are unbiased for the same exponential.',
   ['inputs', 'histories'], 'every rate function, bound, path, batch size and direction; every interleaving of success, failure and batch ends',
   'Only indirect statistical tests of whole samplers exist, with one batch size and no check of the decision rule.',
   [S + 'ea3lib/seed.py', S + 'ea3lib/skeleton.py'], [('flip_poisson_coin', S + 'ea3lib/seed.py'), ('flip_dual_coin', S + 'ea3lib/seed.py'), ('est_poisson_coin', S + 'ea3lib/seed.py'), ('flip_poisson_coin', S + 'ea3lib/skeleton.py')],
   TV, 'Laws by frequencies for constant and piecewise rates with exact answers; bookkeeping clauses exact.'),
 P('C08', 'Revealed parts of a path never change and stay inside their layer',
   'Interpolating a latent path returns for each requested time exactly one value, equal to the value already known if the time was revealed before; all earlier points, end points, extreme point and layer bounds survive unchanged, times stay sorted and unique, and every value lies between the attained extreme and the layer edge. The crossing marks stay one per interval and consistent: a mark may only be refined, an interval without mark stays below the marking level, and asking only for known times changes nothing.',
   ['histories', 'inputs'], 'every sequence of interpolation requests (new, repeated, mixed, empty, unsorted-free), every layer, orientation (upper or lower extreme) and random stream',
   'Tests interpolate each path once at fresh times and only test the marginal law.',
   [S + 'ea3lib/skeleton.py', S + 'ea3lib/seed.py', S + 'sdelib/interpolators.py', S + 'sdelib/paths.py', S + 'sdelib/layers.py'],
   [('interpolate_skeleton', S + 'ea3lib/skeleton.py'), ('interpolate_seed', S + 'ea3lib/seed.py'), ('fill_wiener_outer/inner', S + 'sdelib/interpolators.py'), ('flip_skeleton', S + 'ea3lib/skeleton.py')],
   TV, 'State-machine trace validation, order relations exact by ranks; TLC explores the abstract revealing machine exhaustively.'),
 P('C09', 'Paths revealed in any order have the law of the bridge',
   'The values of a sampled layered path at any times, revealed at once, one by one or in any order, mixed with earlier requests and with Poisson points, have the joint law of the Brownian bridge between its end points; the marginal does not depend on layers or the history of requests.',
   ['histories', 'inputs'], 'every order of requests and every pair of end points and horizons',
   'Two tests check marginals of one-shot interpolation with a KS test on 10^4 values; order and history are not varied.',
   [S + 'ea3lib/skeleton.py', S + 'ea3lib/seed.py', S + 'sdelib/paths.py', S + 'sdelib/layers.py', S + 'sdelib/interpolators.py'],
   [('sample_raw_skeleton', S + 'ea3lib/skeleton.py'), ('propose_layerbr', S + 'sdelib/paths.py'), ('sample_edges', S + 'sdelib/layers.py')],
   LAW, 'Frequencies of half-space, orthant and quantile events with exact bridge probabilities, several reveal orders, at 6 sigma.'),
 P('C10', 'Extremes, crossings and layers follow the Brownian bridge formulas',
   'The distribution function of the bridge minimum and its inverse are mutually inverse, monotone and equal to the reflection formula, truncated if bounds are given; sampled minima and their times respect bounds and follow that law. Layers are nested increasing intervals around the end points, the sampled layer number and crossing indicators have the probabilities of the two-sided exit formulas, and certain crossings (or certain non-crossings) are always reported as such.',
   ['inputs'], 'every end points, horizon, bounds, level and random stream',
   'Doctests use one random bridge and compare with a discretised path at KS tolerance; several of the stronger ones do not run.',
   [S + 'sdelib/hitting.py', S + 'sdelib/layers.py', S + 'sdelib/transforms.py'], [('cdf_brownbr_min/ppf_brownbr_min', S + 'sdelib/hitting.py'), ('sample_brownbr_min', S + 'sdelib/hitting.py'), ('sample_brownbr_esc/sample_bessel3br_esc', S + 'sdelib/hitting.py'), ('compute_edges/sample_layer', S + 'sdelib/layers.py')],
   LAW, 'Formulas recomputed in TLC in fixed point (1e-4); laws by frequencies at 6 sigma.'),
 P('C11', 'Adaptive rejection sampling draws exactly from the log-concave target',
   'Every draw lies in the support and the draws are independent with density proportional to exp(f) for any concave f, whatever the starting points, the cap on support points or the number of draws requested; exactly the requested number of draws is produced. Hull pieces intersect between neighbouring support points, the upper hull is never below and the lower hull never above f, bracing points lie on both sides of the mode, and the target is evaluated at no more support points than allowed.',
   ['inputs', 'histories'], 'every concave log density with bounded or unbounded support, starting points and caps',
   'One doctest draws chi-squares with default starting points; caps, other supports and bracing are not tested.',
   [S + 'misc/ars.py'], [('sample', S + 'misc/ars.py'), ('brace', S + 'misc/ars.py'), ('gen_upper/eval_upper/eval_lower', S + 'misc/ars.py')],
   TV, 'Hull relations exact on integer quadratics, domination on random supports, law by quantile frequencies at 6 sigma.'),
 P('C12', 'Adaptive proposals stay in the support with correct densities',
   'A random-walk proposal for a bounded parameter always lies strictly inside its bounds, and the reported forward and backward terms are the log-derivatives of the transformation at the proposal and at the current state, so that acceptance weights with them are those of the true proposal density. Scales change only when an adaptation period ends, by at most the diminishing step, upwards if acceptance was above target and downwards if below; periods grow as configured, and running mean and covariance equal the batch moments.',
   ['histories', 'inputs'], 'every bounds, state, acceptance history, target rate, decay and period growth',
   'One doctest of the sequential moments (failing) is all there is.',
   [S + 'misc/adapt.py'], [('MyopicRwSampler/MyopicMvRwSampler/MyopicMjpSampler', S + 'misc/adapt.py'), ('transform_to_reals/transform_to_const', S + 'misc/adapt.py'), ('seq_update_normal', S + 'misc/adapt.py')],
   TV, 'The adaptation schedule is a TLA+ state machine checked exhaustively and followed step by step by the recorded samplers; densities in fixed point; proposal law by frequencies.'),
 P('C13', 'The hidden state stays aligned with the data through all sweeps',
   'In the regime-switching samplers and estimator, the hidden state always consists of times from the first to the last observation time, strictly increasing, containing every observation time with exactly the observed value, regimes that change at every other time and persist at observation times, and exactly one path seed per interval. Splitting the hidden state at observation times and pasting the parts gives it back unchanged, and removing repeated regimes gives a minimal regime path with the same horizon.',
   ['histories', 'inputs'], 'every data set, number of regimes, number of sweeps, worker count and random stream',
   'No working test runs a switching sweep; alignment is never asserted.',
   [S + 'switching/mcmc.py', S + 'switching/static.py', S + 'switching/types.py', S + 'switching/mcem.py'], [('sample_aug', S + 'switching/static.py'), ('split_hidden/paste_hidden', S + 'switching/mcmc.py'), ('prune_anchorage', S + 'switching/types.py')],
   TV, 'Every yielded state of real sampler runs is validated (exact equality of times and values by rank).'),
 P('C14', 'Parameter updates accept by prior, likelihood and proposal, locally',
   'A parameter update changes at most the chosen coordinate (plain diffusions) or the parameters of each regime separately (switching), adopts either the proposal or the old value, and accepts with the Barker probability of likelihood times prior times proposal correction times the probability ratio of the hidden paths, whether the first-stage test is used or folded into the weights. It never changes revealed path points, and the adaptation sees the accepted value and outcome.',
   ['inputs', 'configurations', 'histories'], 'every model, current and proposed value, both stages on or off, every escape probability',
   'The statistical tests of the parameter step do not run reliably at this commit.',
   [S + 'ito/mcmc.py', S + 'switching/mcmc.py'], [('update_params', S + 'ito/mcmc.py'), ('flip_param_precoin', S + 'ito/mcmc.py'), ('update_params_section', S + 'switching/mcmc.py'), ('flip_param_coins', S + 'switching/mcmc.py')],
   LAW, 'Acceptance frequencies of the real update functions on models with known weights against the specification; locality clauses exact.'),
 P('C15', 'Hidden path updates accept section by section with the right weights',
   'Updating the hidden path replaces whole bridges or sections between conditioning times by their proposals or keeps them, independently of each other, with the Barker probability of path weight (and for regime changes observation likelihood), whether the first-stage test is used or not; a kept section keeps its regimes, anchor values and every revealed point, and a replaced one takes all of them from the proposal.',
   ['inputs', 'configurations', 'schedules'], 'every model, section structure, worker count, both stages on or off',
   'Only the law of the bridge step of one plain diffusion is tested.',
   [S + 'ito/mcmc.py', S + 'switching/mcmc.py'], [('update_sde_bridge', S + 'ito/mcmc.py'), ('update_hidden_section', S + 'switching/mcmc.py'), ('eval_hidden_weight', S + 'switching/mcmc.py')],
   LAW, 'Acceptance frequencies and provenance clauses on the real functions.'),
 P('C16', 'The EM estimators follow their iteration protocol',
   'Each iteration of the EM estimators starts from the latest parameter and hidden state, uses the scheduled growing number of particles taken every configured number of hidden sweeps, maximises the average augmented log-likelihood plus log prior within the buffered bounds, and stops exactly when the objective changes by less than the tolerance. The generator step of the switching estimator is the closed-form maximiser for the sampled regime paths and keeps a valid generator.',
   ['histories', 'configurations'], 'every model, learning rate, tolerance, thinning and particle schedule',
   'The estimator tests run for minutes and are not in the stable set; no protocol step is asserted.',
   [S + 'ito/mcem.py', S + 'switching/mcem.py'], [('maximize_posterior', S + 'ito/mcem.py'), ('update_particles', S + 'ito/mcem.py'), ('update_generator', S + 'switching/mcem.py')],
   TV, 'Protocol state machine in TLA+; events observed through user-supplied model callables.'),
 P('C17', 'Results depend only on the given random generator',
   'With the same data, settings and seed every sampler and estimator yields the same sequence of results, whatever the state of global random generators, which it neither reads nor changes, and whatever the number of worker processes or the order in which workers finish. Repeated calls with the same generator object continue its stream and give different draws.',
   ['schedules', 'configurations', 'histories'], 'every entry point taking a generator, every worker count and scheduling of the parallel parts',
   'No test compares two runs.',
   [S + 'ito/mcmc.py', S + 'switching/mcmc.py', S + 'ito/mcem.py', S + 'switching/mcem.py', S + 'misc/adapt.py', S + 'sdelib/paths.py', S + 'ea3lib/seed.py'],
   [('seed sequence spawning per worker', S + 'ito/mcmc.py'), ('ome arguments threaded through', S + 'sdelib/paths.py')],
   TV, 'TLC checks that per-worker streams make the outcome schedule-independent; double runs of all entry points with different worker counts and poisoned global state are compared.'),
 P('C18', 'A resumed switching sampler continues the same chain',
   'Stopping the switching sampler after any number of sweeps and resuming it from the state it exposes continues exactly the chain that an uninterrupted run produces, including adaptation, and repeated stops make no difference.',
   ['crash_points', 'histories'], 'every stopping point and number of stops, every model and setting',
   'Resuming is never tested.',
   [S + 'switching/mcmc.py', S + 'switching/static.py'], [('resume_sampling', S + 'switching/mcmc.py'), ('state argument', S + 'switching/static.py')],
   TV, 'All stopping points of short chains are replayed; outcomes compared as exact tokens by the trace specification.'),
 P('C19', 'Model ingredients are mutually consistent',
   'For every shipped model the primitive and derivative of the scaled drift match the drift, the discounted rate and its reported bounds enclose the rate everywhere on the given layer, the global lower level is never above it, and the parameter-gradient bounds dominate the change of the rate between two parameters for every path inside the layer. The log-prior is finite inside the parameter space and minus infinity outside, and treats regimes independently and alike. Transforming observations to unit volatility and back, and normalising and denormalising path times and values, are inverse to each other.',
   ['inputs'], 'every parameter value, layer, path value, data pair, for all diffusion and switching models',
   'Tests check only that one normalisation round-trips at observation points.',
   [S + 'ito/models/ou.py', S + 'ito/models/cir.py', S + 'ito/static.py', S + 'switching/models/ou.py', S + 'switching/models/ou2.py', S + 'switching/models/ou3.py', S + 'switching/static.py'],
   [('eval_drift/sx_eval_drift/dx_eval_drift', S + 'ito/models/ou.py'), ('eval_bounds_disc', S + 'ito/models/cir.py'), ('eval_bounds_grad', S + 'switching/models/ou3.py'), ('norm_rsde/denorm_rsde', S + 'ito/static.py')],
   RP, 'The specification states each model as drift and volatility in rational arithmetic and judges the values of the real functions in fixed point.'),
 P('C20', 'Augmented likelihoods decompose over regimes, sections and transforms',
   'The biased log-likelihood of a diffusion data set is the sum over intervals of the Gaussian log-density of the transformed increment, the Jacobian and the drift-primitive difference. For switching models the restricted likelihoods of the regimes add up to the full first component, both components together depend on the anchors only through the drift terms and equal the observation likelihood under the time-changed Gaussian law, and the sum over sections cut at observation times equals that of the whole. Hidden values are proposed from exactly that Gaussian law, given the regimes and the observations.',
   ['inputs'], 'every data set, parameter, regime path and anchor values, restriction and section structure',
   'Tests compare Monte Carlo averages for one interval of one model.',
   [S + 'ito/static.py', S + 'switching/static.py'], [('eval_biased_log_lik', S + 'ito/static.py'), ('eval_biased_log_lik', S + 'switching/static.py')],
   RP, 'Fixed-point recomputation in TLC, tolerance .0025 absolute; law of the hidden values by half-space frequencies at 6 sigma.'),
 P('C21', 'Budgeted samplers stop at their budget and never return rejects',
   'A sampler with a proposal budget makes at most that many attempts and then raises the budget error; it never returns a proposal that failed its acceptance test and never makes another attempt after success. With a budget that is large enough the result does not depend on the budget.',
   ['inputs', 'fault_sequences'], 'every budget and every position of the first acceptable proposal',
   'No test reaches a budget.',
   [S + 'sdelib/paths.py', S + 'sdelib/hitting.py', S + 'sdelib/layers.py', S + 'ea3lib/seed.py', S + 'ea3lib/skeleton.py', S + 'misc/bfactories.py'],
   [('for/else BudgetConstraintError loops', S + 'sdelib/paths.py')],
   TV, 'The attempt counter is a TLA+ state machine; coins and rates supplied by the driver force every position of the first success.'),
 P('C22', 'Path reversal, reflection and bridge pivoting are exact symmetries',
   'Time reversal and reflection are involutions that keep order and end points; flipping a layered path exchanges the roles of upper and lower extremes while describing a path with the same end points, and flipping twice gives the original. Pivoting a standard bridge moves it to the given end points, and extremes of a seeded bridge keep below both end points and inside the horizon.',
   ['inputs'], 'every path, axis and horizon',
   'Doctests check involution on one random path with tolerance.',
   [S + 'sdelib/transforms.py', S + 'ea3lib/skeleton.py'], [('reverse/reflect/pivot_brownbr/gen_seeded_brownbr_min', S + 'sdelib/transforms.py'), ('flip_skeleton', S + 'ea3lib/skeleton.py')],
   RP, 'Exact on dyadic grids enumerated by TLC.'),
 P('C23', 'Diffusion samplers and likelihood estimators are exact',
   'Simulated diffusion paths, with free or fixed end point, at any requested times have the law of the diffusion, without discretisation error; path estimates of the transition density average to the true transition density, alone, given hidden regimes and values, and with hidden values averaged out.',
   ['inputs', 'configurations'], 'every parameter, horizon, end points and request times of the shipped models with known law',
   'KS tests at one random parameter with 10^3 paths; resolution several percent, blind to joint laws.',
   [S + 'ito/static.py', S + 'ea3lib/skeleton.py', S + 'ito/mcem.py', S + 'ea3lib/seed.py', S + 'misc/ars.py'], [('sample_sde', S + 'ito/static.py'), ('est_aug_lik', S + 'ito/mcem.py'), ('sample_bridge', S + 'ea3lib/seed.py')],
   LAW, 'Half-space events of the exact Gaussian laws computed in TLC in fixed point, frequencies at 6 sigma; averages of density estimates at 6 standard errors. Mean-reverting models; the square-root diffusion is a recorded finding.'),
 P('C24', 'Full sweeps leave the posterior invariant',
   'Started from the posterior law of parameters, regimes and paths given the data, any number of sweeps of the samplers leaves that law unchanged, in every configuration of first-stage test, escape probability, batch size and model; averaged over data from the prior the parameters keep their prior law.',
   ['histories', 'configurations'], 'every model, data size, control setting and number of sweeps',
   'The posterior tests take minutes each and fail or time out at this commit.',
   [S + 'ito/mcmc.py', S + 'switching/mcmc.py'], [('update_joint', S + 'ito/mcmc.py'), ('update_joint', S + 'switching/mcmc.py')],
   LAW, 'Joint-distribution (prior predictive) test: frequencies of parameter and regime events after sweeps against their prior probabilities at 6 sigma; kernel invariance of the abstract sampler exactly in TLC.'),
 P('C25', 'Reference simulators and moments agree with the Gaussian laws',
   'The moment functions return the exact mean and covariance of Wiener processes, Brownian bridges and conditioned Gaussian vectors, and the samplers for Wiener, bridge, Bessel and Bessel-bridge paths have those laws; discretised paths come with one time per state, starting at time 0 and spaced by the resolution.',
   ['inputs'], 'every times, end points, drift and dimension',
   'Doctests use one random instance per function.',
   [S + 'sdelib/moments.py', S + 'sdelib/paths.py', S + 'misc/testing.py'], [('moments_*', S + 'sdelib/moments.py'), ('sample_wiener/brownbr/bessel/besselbr', S + 'sdelib/paths.py'), ('euler_simulate', S + 'misc/testing.py')],
   RP, 'Rational moments recomputed in TLC on grids; laws by quantile frequencies.'),
]


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(V, 'harness/props', p['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': anchors}) + '\n')
            assert len(p['title']) <= 80, p['id']
    man = {'version': 1, 'setup_cmd': 'bash setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'model_checking',
                       'level_note': p['note']} for p in have],
           'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in PROPS if p not in have],
           'notes': 'No hooks in /repo are needed: the traces are recorded at the public interface.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
    print(len(PROPS), 'properties,', len(have), 'checks')


main()
