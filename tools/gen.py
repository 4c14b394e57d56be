"""Writes properties.jsonl and MANIFEST.json. Usage: python3 tools/gen.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, TM, OM, PA = 'bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py', 'bayesloop/parser.py'


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                observe=observe, technique=technique, note=note)


PROPS = [
 P('C01', 'Filtering distributions and model evidence are exact on the grid',
   'For any data, observation model, parameter prior and transition model, a forward fit yields at every time step the Bayesian filtering distribution on the parameter grid (prior times likelihood, moved by the transition model, normalised), its mean values, and the evidence of each data point given the previous ones. The log-evidence is the logarithm of the integral of prior times likelihood, equals the sum of the logarithms of the local evidence values, is the same for full, forward-only and evidence-only fits, and is minus infinity exactly if the data is impossible. Results for a prefix of the data do not depend on later data.',
   ['inputs', 'configurations'], 'all data series (also with missing values, several measurements per step, custom time stamps), observation models, priors, grids and (nested) transition models; all fit modes in any order',
   'Unit tests pin a handful of final numbers for two observation models with a few data points; the recursion must be right for every combination.',
   [CORE, TM, OM], [('forward pass of Study.fit', CORE)], ['Study.posteriorSequence', 'Study.logEvidence', 'Study.localEvidence', 'Study.posteriorMeanValues'],
   'property-based testing against an independent reference filter (differential)', 'generated models with small grids (up to 9 or 5x5 points) and up to 9 time steps'),
 P('C02', 'The full fit yields the exact smoothing distributions',
   'After a full fit, the distribution of every time step is the posterior of the parameters given all data points, earlier and later ones: for linear transition models it equals the sum over all parameter trajectories. It is normalised, its mean values are reported, at the last time step it equals the filtering distribution, and for constant parameters it is the same at all time steps. The local evidence of a full fit is the probability of a data point given all other data points.',
   ['inputs', 'configurations'], 'all data series, observation models, priors, grids and (nested) transition models',
   'Tests compare sums of a few posterior sequences with stored numbers, which neither reach most transition models nor time stamps, nor tell right from wrong results.',
   [CORE, TM], [('backward pass of Study.fit, computeBackwardPrior of the transition models', CORE)], ['Study.posteriorSequence', 'Study.posteriorMeanValues', 'Study.localEvidence'],
   'property-based testing against transposed transition operators and brute-force trajectory sums', 'small grids, up to 12 time steps'),
 P('C03', 'Observation models evaluate their documented likelihood functions',
   'Every built-in observation model assigns to each parameter value the documented probability (density) of the data point (Bernoulli, Poisson, Gaussian, Laplace, Gaussian mean with known error, white noise, AR1, scaled AR1), and SciPy, SymPy and NumPy models assign that of the given distribution or function, whatever the order and names of the parameters. Several measurements per time step are multiplied. The likelihood does not depend on the data type (int or float) and stays accurate for large counts and extreme values.',
   ['inputs', 'configurations'], 'all data values and types, parameter values, parameter names and orders, distributions',
   'Tests use one or two data points and compare with stored numbers.',
   [OM, 'bayesloop/preprocessing.py'], [('pdf and processedPdf of the observation models, movingWindow', OM)], ['Study.fit with a single data segment', 'processedPdf'],
   'property-based testing against scipy.stats densities (differential)', 'generated data points and grids incl. extreme values'),
 P('C04', 'Missing data points carry no information',
   'A missing value (NaN) leaves the parameter distribution as it is, contributes a factor of one to the evidence and does not shift time: inserting, appending or replacing data points with NaN gives the same result as a likelihood of one for every parameter value. For several measurements per time step only the missing ones are ignored; for auto-regressive models every data segment that contains a missing value is ignored.',
   ['inputs'], 'all positions and numbers of missing values, all observation models, transition models and study types (batch, hyper, online)',
   'A single unit test has no missing data at all.',
   [OM, CORE], [('ObservationModel.processedPdf', OM)], ['Study.fit', 'HyperStudy.fit', 'OnlineStudy.step'],
   'metamorphic property-based testing', 'up to 8 data points with any pattern of missing values'),
 P('C05', 'Parameter priors mean the same in every form and place',
   'A prior given as an array, a function, SymPy random variables or the default is turned into the corresponding probability density on the grid; arrays and functions are re-normalised, so their scale (and data type) does not matter, and no prior means a uniform density. The posterior of a single missing data point equals the prior, the evidence is invariant to the prior scale, and every reset of the parameters (change-points, independent observations) restores this same prior.',
   ['inputs', 'configurations'], 'all forms of priors (array, function, scalar function, SymPy, default, none), scales, grids, all models with resets, all study types',
   'Tests use one prior of each form with stored numbers.',
   [CORE, OM, TM], [('Study._computePrior, use of the prior in ChangePoint, Independent and SerialTransitionModel', CORE)], ['Study.fit', 'posteriorSequence', 'logEvidence'],
   'property-based testing against scipy.stats densities; metamorphic scale and form equivalence', 'small grids'),
 P('C06', 'Transition models move probability as documented',
   'Starting from any distribution, one step of a transition model yields the documented distribution: unchanged (static), convolved with a Gaussian of the given width along the target parameter (random walk, reflecting boundaries), with an alpha-stable or a correlated bivariate Gaussian kernel, reset to the prior exactly at the change-point or at every step (independent), with a minimal density (regime switch), inverted (not equal), or shifted by the increment of the given function (deterministic). The result is normalised and non-negative, widths are in parameter units, only the target parameter is affected, and results depend on current hyper-parameter values and grid only.',
   ['inputs', 'configurations', 'histories'], 'all distributions, hyper-parameter values, grids (regular, categorical, 1D and 2D), targets, and sequences of re-configurations of one model instance',
   'Tests fit one data series per model and compare a sum with a stored number.',
   [TM], [('computeForwardPrior and kernels of the transition models', TM)], ['Study.fit(forwardOnly=True) with an arbitrary likelihood and a missing data point', 'computeForwardPrior'],
   'property-based testing: kernels made observable by a generated likelihood, explicit operators as oracle, invariants', 'grids up to 15 points, 6x5 in two dimensions'),
 P('C07', 'Composed transition models act in order and at the right time',
   'A combined model applies its sub-models one after the other, a serial model uses the sub-model that is valid for the time step: a break or change-point at time t becomes effective for the transition that starts at the data point with time stamp t, deterministic sub-models count time from the last break, and a serial change-point also resets the parameters. This holds for every nesting, with default and custom (also unequally spaced) time stamps, and equals the corresponding hand-composed sequence of elementary transitions.',
   ['inputs', 'configurations'], 'all nestings of combined and serial models, break times before, within and after the data, custom time stamps',
   'Tests cover one combined and one serial model with default time stamps.',
   [TM, CORE], [('CombinedTransitionModel, SerialTransitionModel', TM)], ['Study.fit(forwardOnly=True)', 'Study.fit'],
   'property-based testing against step-by-step composition; metamorphic equivalences', 'up to three structural breaks, two levels of nesting'),
 P('C08', 'A hyper-study is the exact mixture over all hyper-parameter values',
   'A hyper-study equals the Bayesian mixture of single fits, one for each combination of hyper-parameter values: its evidence is the sum of evidence times hyper-prior probability, its parameter distributions and mean values are the average weighted with evidence times hyper-prior, and its joint and marginal hyper-parameter distributions are the normalised weights, reported for the right values and names in any order. The local evidence is the average of those of the single fits, weighted with the hyper-prior. Hyper-priors may be arrays, functions, SymPy random variables or missing (uniform).',
   ['inputs', 'configurations'], 'all data, models, lists of hyper-parameter values (regular, irregular, single), hyper-priors, and nestings',
   'Tests compare a few sums with stored numbers for two models.',
   [CORE], [('HyperStudy._createHyperGrid, HyperStudy.fit, getHyperParameterDistribution, getJointHyperParameterDistribution', CORE)], ['HyperStudy.fit', 'getHPD', 'getJHPD', 'logEvidence', 'posteriorSequence'],
   'property-based testing against brute-force enumeration with the reference filter', 'up to three hyper-parameters with up to three values; up to 100 values of one or two hyper-parameters'),
 P('C09', 'Parallel hyper-study fits equal serial fits',
   'A hyper-study or change-point study that distributes its analyses over several processes yields the same evidence, parameter distributions, mean values, local evidence and hyper-parameter distributions as with a single process, for every number of processes, also more processes than analyses.',
   ['inputs', 'configurations', 'schedules'], 'all numbers of processes, numbers of hyper-parameter combinations (divisible or not), fit modes and models',
   'Two tests with two processes and stored numbers.',
   [CORE], [('HyperStudy._parallelFit and merging in HyperStudy.fit', CORE)], ['HyperStudy.fit(nJobs=n)', 'ChangepointStudy.fit(nJobs=n)'],
   'differential property-based testing: n processes versus one', '1 to 7 processes, 2 to 50 combinations'),
 P('C10', 'Change-point studies average over all ordered change-point times',
   'A change-point study considers every combination of change- and break-point times in increasing order, exactly once and equally likely unless a hyper-prior is given, and no others; evidence, parameter distributions, and the (joint) distributions of change-point times are the corresponding Bayesian mixture. The distribution of the duration between two points is the distribution of the difference of their times. All this also holds with additional hyper-parameters, given lists of times and custom time stamps.',
   ['inputs', 'configurations'], 'all data, numbers of change/break-points, value lists, hyper-priors, additional hyper-parameters',
   'Tests compare sums with stored numbers for coal mining data and tiny data sets.',
   [CORE], [('ChangepointStudy.fit, getDurationDistribution', CORE)], ['ChangepointStudy.fit', 'getHPD', 'getJHPD', 'getDD', 'posteriorSequence'],
   'property-based testing against brute-force enumeration with the reference filter', 'up to three points, up to 7 time steps'),
 P('C11', 'On-line analysis equals batch filtering of the same data',
   'Feeding data points one at a time to an on-line study yields, after every step, the same parameter distribution, evidence per hyper-parameter value, hyper-parameter distribution and transition model probabilities as filtering all data so far in a batch fit with each model and averaging them with their evidence and priors. It makes no difference whether the history is stored or when the models are queried.',
   ['inputs', 'histories', 'configurations'], 'all data streams, sets of transition models with hyper-parameters and hyper-priors, at every step',
   'Tests run a few steps of one data stream and compare with stored numbers.',
   [CORE], [('OnlineStudy.step', CORE)], ['OnlineStudy.step', 'getCPD', 'getCHPD', 'getCTMD', 'logEvidence'],
   'property-based testing against the reference filter and differential with Study/HyperStudy', 'up to 7 steps (some up to 40), five transition models'),
 P('C12', 'On-line queries are consistent and do not disturb the analysis',
   'At any point of a data stream, all queries of an on-line study agree with each other: the stored history of parameter distributions, mean values, hyper-parameter distributions and transition model probabilities (all, at a time step, averaged, current) equals the values that were current at that time. Queries, plots and rejected calls in any order never change later results.',
   ['histories'], 'all interleavings of steps, queries, plots and failing calls',
   'Tests query once at the end of the stream.',
   [CORE], [('OnlineStudy accessors and history lists', CORE)], ['getPD', 'getPDs', 'getCPD', 'getParameterMeanValue(s)', 'getHPD(s)', 'getTMPs', 'plot'],
   'stateful (model-based) property-based testing of operation sequences', 'sequences of up to 14 operations'),
 P('C13', 'Parameter distributions and means are marginals of the posterior',
   'The parameter distribution reported for a time stamp and parameter name is the marginal of the posterior of that very time step over all other parameters, as density (integrates to one) or probability (sums to one); the sequence of distributions, the time average, and the mean values agree with it. Unknown names and time stamps are rejected; time is addressed by time stamps, not by index.',
   ['inputs', 'configurations'], 'all studies, grids (regular, categorical, 1D to 3D), parameter names, time stamps, data segment lengths',
   'Tests check one parameter at one time step.',
   [CORE], [('getParameterDistribution, getParameterDistributions, getParameterMeanValues', CORE)], ['getPD', 'getPDs', 'getParameterMeanValues'],
   'property-based testing: recomputation from the reference posterior', 'grids up to 4x4x3'),
 P('C14', 'Queries on derived quantities equal direct summation over the grid',
   'For any arithmetic expression of (hyper-)parameters, numbers and functions, the evaluated probability of an (in-)equality equals the sum of the joint posterior over all grid points that satisfy it, with the usual operator precedence; parameters of the same time step and study are evaluated jointly, those of different time steps or studies independently. A query without relation returns the distribution of the derived quantity (normalised, right mean). Invalid queries are rejected and queries never change the study.',
   ['inputs', 'programs'], 'all expressions, relations, time steps, parameters, hyper-parameters, and one or two studies',
   'Tests evaluate a few fixed expressions.',
   [PA, CORE], [('Parser grammar, Parameter arithmetic', PA)], ['Study.eval', 'Parser(...)(query)'],
   'grammar-based fuzzing of queries against direct evaluation on the joint grid', 'expressions up to depth 4'),
 P('C15', 'Hyper-parameter values are set, read and optimized by name',
   'Hyper-parameter values are addressed by name however deeply transition models are nested: reading a value returns the one that is used by the fit, fits never change the values set by the user, optimization changes only the selected hyper-parameters (by default all but change- and break-point times), reaches the maximum of the evidence (within the tolerance of the SciPy optimizer) where there is a single clear one, and leaves the study fitted with exactly the values it reports.',
   ['inputs', 'configurations', 'histories'], 'all nestings and names, selections of hyper-parameters, and sequences of fits and optimizations',
   'Tests optimize one nested model.',
   [CORE, 'bayesloop/helper.py'], [('unpacking/setting of hyper-parameters, Study.optimize', CORE)], ['getHyperParameterValue', 'optimize', 'fit'],
   'property-based testing with fresh studies at the reported values as oracle', 'up to two levels of nesting'),
 P('C16', 'Simulated observations follow the posterior predictive distribution',
   'The simulated distribution of observations is the likelihood of the given values averaged with the parameter posterior of the requested time stamp, or of all time steps; as density it is un-normalised, otherwise it sums to one over the given values. This holds for all observation models with single measurements, studies and time stamps; unknown time stamps and multi-point models are rejected.',
   ['inputs', 'configurations'], 'all fitted studies, observation values, time stamps', 'Tests compare one sum with a stored number.',
   [CORE], [('Study.simulate', CORE)], ['Study.simulate'],
   'property-based testing against the reference posterior', 'small grids'),
 P('C17', 'Saved studies load as equivalent, usable studies',
   'Saving a study of any type and loading it yields a study with identical data, results and query answers, which is independent of the original and can be continued: fitting again or adding further data points gives the same results as continuing with the original. Saving does not change the study.',
   ['inputs', 'histories', 'configurations'], 'all study types, models (also with functions and SymPy objects), states (before/after fit, after n on-line steps)',
   'One test saves and loads a fitted study.',
   ['bayesloop/fileIO.py', CORE], [('save, load', 'bayesloop/fileIO.py')], ['bayesloop.save', 'bayesloop.load'],
   'round-trip property-based testing', 'files live in a scratch directory'),
 P('C18', 'Studies have no hidden state: results depend on current settings only',
   'After any sequence of loading data, setting observation and transition models, fitting in any mode, optimizing, querying, plotting and failing calls, a fit yields the same results as a new study with the current settings. Fits and queries never modify data, time stamps, priors, hyper-parameter lists or models supplied by the user, and repeating a fit or a query repeats its result.',
   ['histories', 'configurations'], 'all sequences of operations on study objects and shared model objects',
   'Tests build a new study for each fit.',
   [CORE, TM, OM], [('state of Study and model objects', CORE)], ['all results of fit', 'objects supplied by the user'],
   'stateful (model-based) property-based testing with fresh studies as model', 'sequences of up to 10 operations'),
 P('C19', 'Results do not depend on arbitrary conventions',
   'Results are invariant, or change in the known way, under re-labelling of parameters and hyper-parameters, swapping the order of the parameters (custom likelihood), reversing a parameter grid (symmetric transitions), shifting time stamps together with change-point times, changing the unit of data and parameters together, permuting data for constant parameters, splitting the data of a time step into several measurements, another order of hyper-parameter values, equivalent ways to write down a transition model (e.g. nested or flat), and reversing time for symmetric random walks with a flat prior.',
   ['inputs', 'configurations'], 'all models and data series', 'Tests never compare two equivalent set-ups.',
   [CORE, TM, OM], [('inference as a whole', CORE)], ['logEvidence', 'posteriorSequence', 'hyper-parameter distributions'],
   'metamorphic property-based testing', 'small grids'),
 P('C20', 'Invalid set-ups and requests are rejected and leave the study usable',
   'Set-ups that have no meaning (missing data or models, wrong number of priors or prior shapes, priors with free parameters, duplicate hyper-parameter names, unordered or mismatched structural breaks, stray break-points, functions with wrong signatures, unknown names, time stamps or query tokens) raise the documented error types instead of returning a result. Time stamps that do not match the number of data points are omitted. After the error, the study works as if the call had not been made.',
   ['inputs', 'configurations', 'histories'], 'all valid set-ups with one injected mistake', 'Only few error branches are tested, none with subsequent use.',
   [CORE, TM, OM, PA], [('consistency checks', CORE)], ['ConfigurationError', 'PostProcessingError'],
   'fault-injection property-based testing: valid set-up, one mistake, then valid use', 'one mistake per case'),
 P('C21', 'Estimated grids, intervals and Jeffreys priors are correct for all data',
   'Open and closed intervals (oint, cint) contain the requested number of equally spaced values without or with the boundaries. Parameter grids that are estimated from data (also incomplete data or several measurements per time step, with some variation) are regular, increasing, exclude singular values, scale with the unit of the data and cover the intended range: the open interval (0, 1) for Bernoulli, up to 1.25 times the largest observation for Poisson, mean plus/minus two standard deviations and up to two standard deviations (Laplace: up to sqrt(2)) for location and scale parameters, the data range extended by its width to both sides for known errors, (-1, 1) for correlation coefficients; a fit works just as with the same values given by hand. The default priors of the Bernoulli, Poisson, Gaussian, white noise and Laplace models are their Jeffreys priors (square root of the determinant of the Fisher information), all others are flat; symbolic Jeffreys priors of SymPy random variables and the one for AR1 processes agree with the numerical Fisher information.',
   ['inputs'], 'all data series, interval boundaries and numbers, distributions', 'Tests use one data set and two distributions.',
   ['bayesloop/helper.py', OM, 'bayesloop/jeffreys.py'], [('oint, cint, estimateParameterValues, jeffreys, getJeffreysPrior', OM)], ['bl.oint', 'bl.cint', 'marginalGrid', 'getJeffreysPrior'],
   'property-based testing against numerical Fisher information and data ranges', 'data up to 30 points'),
 P('C22', 'Plots show what the queries report',
   'Every plot of a study shows the values that the corresponding query returns: the distribution of a parameter at a time stamp (area under the curve), its temporal evolution (image with time from left to right and increasing parameter values from bottom to top, each pixel being the probability to the power of gamma, with a line for the mean values at the right times), the distribution of a hyper-parameter (bars at its values, or labelled bars for irregular values), the joint distribution of two hyper-parameters, of durations, and the probability of transition models over time. Axes carry the name of the displayed quantity, time stamps are used, keyword-arguments are passed on, unknown names and times are rejected, queries without plot option draw nothing, and plotting changes no result.',
   ['inputs', 'configurations', 'histories'], 'all fitted studies of all types, grids, value lists, time stamps, plot types and options',
   'Tests merely call some plot methods and never look at what has been drawn.',
   [CORE, 'bayesloop/helper.py'], [('plot, plotParameterEvolution, plotHyperParameterEvolution, plot=True branches', CORE)], ['matplotlib artists created by plot methods'],
   'property-based testing: artists of generated plots versus query results', 'off-screen rendering (Agg); 3D bars are recorded at the bar3d call'),
]


def main():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'vf', 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                                                 observe_at=p['observe'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='bash run.sh --setup',
               checks=[dict(property=p['id'], quick_cmd='bash run.sh ' + p['id'] + ' --tier quick',
                            thorough_cmd='bash run.sh ' + p['id'] + ' --tier thorough',
                            technique=p['technique'], level='exploration', level_note=p['note'])
                       for p in claimed],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in PROPS if p not in claimed])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
