import json, os, sys, time
import mcbuild, mcrun
from mcrun import Reporter, run_harness

SPECS = {}


def spec(pid, **kw):
    def deco(fn):
        SPECS[pid] = dict(kw, fn=fn)
        return fn
    return deco


def check(pid, tier):
    s = SPECS[pid]
    rep = Reporter(pid, tier, s['level'], s)
    s['fn'](rep, tier)
    return rep.finish()


def replay(pid, path):
    f = json.load(open(path))
    rep = Reporter(pid, f.get('tier', 'quick'), SPECS[pid]['level'], SPECS[pid])
    print(json.dumps(f, indent=1))
    return 0


BND_RULE = ('each execution is one model of the enumerated families under one option combination, planned trial by trial '
            '(every resolution of the sampled outcomes up to a deviation bound) or updated along every sequence of states; '
            'an outcome is non-trivial and distinct when the vector of reported bounds differs')


def bnd(pid, quick_stride, thorough_stride):
    def run(rep, tier):
        st = quick_stride if tier == 'quick' else thorough_stride
        run_harness(rep, 'bnd', extra_env={'MC_PROP': pid, 'MC_STRIDE': str(st)}, budget=600 if tier == 'quick' else 780, limit=25)
        rep.counters['evaluations'] = rep.counters.get('executions', 0) + rep.counters.get('sequences', 0)
        rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']
    return run


spec('P01', level='model_checking', rule=BND_RULE,
     note='all states the real planner passes through on every enumerated model, strategy, representation, update order and sampled outcome sequence (bounded), each compared with exact optimal values')(bnd('P01', 1, 1))
spec('P03', level='model_checking', rule=BND_RULE,
     note='same exploration as P01, comparing successive bounds at every visited state and query belief')(bnd('P03', 1, 1))
spec('P05', level='model_checking', rule=BND_RULE,
     note='exact evaluation of the closed-loop policy after trials of every strategy on every enumerated model')(bnd('P05', 1, 1))
spec('P02', level='model_checking', rule=BND_RULE,
     note='every run to completion on the enumerated models; final interval compared with the exact optimal value; termination required on finite belief spaces')(bnd('P02', 1, 1))
spec('P04', level='model_checking', rule=BND_RULE,
     note='all 18 option combinations run in lockstep over the same update sequences')(bnd('P04', 1, 1))


@spec('P23', level='model_checking', note='initial bounds of every enumerated model (discounts .1-.999 and 1, all reward sign patterns) against exact optimal values', rule='one evaluation is one model under one bound configuration with every grid state/belief queried (asked and stored); distinct outcomes are distinct reported intervals')
def p23(rep, tier):
    run_harness(rep, 'init', budget=600 if tier == 'quick' else 780, limit=30)
    rep.counters['evaluations'] = rep.counters.get('configurations', 0)
    rep.counters['transitions'] = rep.counters.get('configurations', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('configurations', 0)


@spec('P12', level='model_checking', rule='one evaluation is one operand combination with every applicable operation compared with dense arithmetic; distinct outcomes are distinct result signatures',
      note='all operand pairs over a 7-value alphabet (absent, explicit zero, tiny, near-threshold, dyadic) for all lengths up to 3 (4 thorough), all support patterns at length 9 (11), all 1x1..3x3 matrices times all vectors, all insertion sequences of length 3 (4), structured sizes 4..26 (48) crossing the density switch')
def p12(rep, tier):
    run_harness(rep, 'sla', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = rep.counters.get('pairs', 0)
    rep.counters['transitions'] = rep.counters.get('operations', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('pairs', 0)


@spec('P11', level='model_checking', rule='one evaluation is one (model, belief) visited, with every action and observation followed and compared with exact Bayes filtering; distinct outcomes are distinct (action, observation probability) values',
      note='all two-state models over a 5-row (7) transition and 6-row observation alphabet, three-state models over 6/4-row alphabets, structured models of 5..40 states, all grid beliefs plus near-zero ones, all action/observation histories of length 2-3')
def p11(rep, tier):
    run_harness(rep, 'belief', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = rep.counters.get('states', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('transitions', 0)


@spec('P13', level='model_checking', rule='one evaluation is one simulated run (an action sequence with one resolution of its random draws) or one frequency check; distinct outcomes are distinct (reward so far, outcome, terminated) triples',
      note='all action sequences of length 3 x all draw sequences over an 8-point (11) grid including both ends of the range, on the enumerated POMDPs and MDPs; all small distributions with zeros anywhere for the draw primitive; outcome frequencies over an even 257-draw grid for simulator, planner sampling and execution')
def p13(rep, tier):
    run_harness(rep, 'sim', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = rep.counters.get('runs', 0) + rep.counters.get('frequency_checks', 0) + rep.counters.get('draws', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P18', level='model_checking', rule='one evaluation is one query sequence against the memoised view, one pair of states in the planner table, or one key; distinct outcomes are distinct (probability, handle) or (same/different) observations',
      note='all sequences of 3 (4) queries over known states x actions x query kinds on enumerated models; every pair of grid beliefs and their perturbations from 1e-3 to 3e-10, every pair of index states up to 205 (1100), in both insertion orders; all keys over a 10-value alphabet up to length 3')
def p18(rep, tier):
    run_harness(rep, 'cache', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = sum(rep.counters.get(k, 0) for k in ('sequences', 'transitions', 'keys'))
    rep.counters['traces_validated_against_impl'] = rep.counters.get('sequences', 0)
    rep.counters.setdefault('states', rep.counters.get('models', 0))


@spec('P14', level='model_checking', rule='one evaluation is one complete policy evaluation (a resolution of all its random draws) recomputed from its own trace on the exact model, or one confidence-limit computation; distinct outcomes are distinct batch rewards',
      note='every draw sequence (3-point grid) of evaluations of up to 3 trials x 3 steps, cached and plain side by side, plus fixed-stream evaluations of 4..100 trials, all trace-count settings; 60 (thorough 400) pairs of a simulated model and another model the policy is executed with; zmdp evaluate itself with policy and alpha-vector files, its printed result recomputed from its trace; confidence limits on all vectors of length 1-4 over four values incl. both ends of the draw range')
def p14(rep, tier):
    run_harness(rep, 'evalh', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = rep.counters.get('evaluations_run', 0) + rep.counters.get('statistics', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('evaluations_run', 0)


@spec('P07', level='model_checking', rule='one evaluation is one sequence of added elements with one choice of pruning points, the represented bound compared with the reference at every grid belief; distinct outcomes are distinct (elements left, value) pairs',
      note='all sequences of 3-5 planes over value alphabets with ties, near-ties on both sides of the tolerance and all masks (2 and 3 states), all sequences of 3-5 state updates with cached/extra-pruned planes, all sequences of 3-4 points incl. corners, each with every choice of pruning points; structured sequences of up to 150 elements through the automatic threshold; pruning forced between planner trials on the enumerated models under all 9 option sets')
def p07(rep, tier):
    run_harness(rep, 'prune', budget=600 if tier == 'quick' else 780, limit=60)
    rep.counters['evaluations'] = rep.counters.get('sequences', 0) + rep.counters.get('states', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P06', level='model_checking', rule='one evaluation is one policy written, or one policy/alpha file read under one reader setting and compared at every grid belief; distinct outcomes are distinct (value, reader) pairs',
      note='policies written after 0-3 trials (pruned or not) on the enumerated models under 9 option sets, read back by 3-4 reader settings, exact evaluation of acting on what was read; every set of 1-2 (3) alpha vectors over a 3-value alphabet in 6 file layouts; 17 kinds of files that do not fit the model')
def p06(rep, tier):
    run_harness(rep, 'policyio', budget=600 if tier == 'quick' else 780, limit=90)
    rep.counters['evaluations'] = sum(rep.counters.get(k, 0) for k in ('written', 'read_back', 'alpha_files', 'bad_files'))
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P16', level='model_checking', rule='one evaluation is one run with logging whose files are compared with the backups observed in the run, or one scripted run; distinct outcomes are distinct logged intervals or scripts',
      note='runs of 1, 2 and 4 trials of every strategy and representation on the enumerated models, logs compared with the observed backups and replayed as scripts under every representation; all hand-written scripts up to length 4 (5) over up to 4 states in 3 layouts')
def p16(rep, tier):
    run_harness(rep, 'logs', budget=600 if tier == 'quick' else 780, limit=90)
    rep.counters['evaluations'] = sum(rep.counters.get(k, 0) for k in ('runs', 'replays', 'scripts'))
    rep.counters['traces_validated_against_impl'] = rep.counters.get('replays', 0) + rep.counters.get('scripts', 0)


def parse(pid):
    def run(rep, tier):
        run_harness(rep, 'parse', variant='san' if pid == 'P10' else 'plain', extra_env={'MC_PROP': pid}, budget=600 if tier == 'quick' else 780, limit=120)
        rep.counters['evaluations'] = rep.counters.get('files', 0)
        rep.counters['traces_validated_against_impl'] = rep.counters.get('files', 0)
        rep.counters['states'] = rep.counters.get('files', 0)
        rep.counters['transitions'] = rep.counters.get('files', 0)
    return run


spec('P08', level='model_checking', rule='one evaluation is one well-formed model file read by the full reader and compared entry by entry with an independent reading of the format; distinct outcomes are distinct (transition, reward) tables read',
     note='all sequences of 1-2 reward statements (every form, wildcard and index pattern, zero and non-zero values, 5 model sizes, cost and reward) and of 3 over a reduced alphabet; all sequences of up to 3-4 transition/observation statements; every start form; every preamble order x names/numbers; layouts, number forms, names, structured larger models')(parse('P08'))


spec('P09', level='model_checking', rule='one evaluation is one model file read by both readers and compared entry by entry with an independent reading of the format (outside the subset: one reader in its own process); distinct outcomes are distinct tables read or diagnostics',
     note='every preamble order, extra line, line end, spacing and body order of subset files, all sequences of 3 (4) overriding entries, structured sizes 1-4, all self-loop/reward patterns; every reward/transition/observation/preamble/start form of the full format given to the fast reader, which must read the same or refuse')(parse('P09'))
spec('P10', level='model_checking', rule='one evaluation is one malformed or borderline file given to one reader in its own process under address and undefined-behaviour checking, judged by an independent reading of the format; distinct outcomes are distinct (verdict, diagnostic) pairs',
     note='every truncation point, every token deletion/replacement (40 replacements)/doubling/swap, every line deletion/doubling/swap/move and pair deletion, character insertions and deletions of 10 seed files covering every statement form; every 2-entry probability row over 11 values; tokens and lines around buffer sizes; both readers')(parse('P10'))


@spec('P17', level='model_checking', rule='one evaluation is one (track, reachable state, action) whose outcome distribution is compared with the rules, or one line of movement; distinct outcomes are distinct (action, distribution) pairs',
      note='every track on walled and unwalled grids of up to 6 (9) cells over {open, closed, start, finish}, all reachable states, 9 parameter sets, 64 file layouts in turn, supplied bounds against exact values; every displacement up to 6 (9) cells against every obstacle; the 8 shipped tracks (first 6000 states; thorough: all); chains of 1..25 (60) cells')
def p17(rep, tier):
    run_harness(rep, 'track', budget=600 if tier == 'quick' else 780, limit=300)
    rep.counters['evaluations'] = rep.counters.get('transitions', 0) + rep.counters.get('lines', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P15', level='model_checking', rule='one evaluation is one execution of the command line tool (or one decoding of an option) whose effective configuration, or refusal, is compared with the documented resolution; distinct outcomes are distinct effective configurations and refusal messages',
      note='all 47 options x all sequences of up to 3 (4) settings over {file, long form, short form} x values incl. the default; all pairs of options x sources x orders; all config files of up to 2 (3) lines over a 36-line alphabet (line lengths around buffer limits, missing final newline, aliases, malformed lines); generated file read back and edited at every option; all invalid values; values with spaces, empty, or looking like options')
def p15(rep, tier):
    run_harness(rep, 'cfg', budget=600 if tier == 'quick' else 780, limit=200)
    rep.counters['evaluations'] = rep.counters.get('executions', 0) + rep.counters.get('decoded', 0)
    rep.counters['states'] = rep.counters['evaluations']
    rep.counters['transitions'] = rep.counters['evaluations']
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P19', level='model_checking', rule='one evaluation is one (generated model state, rule state, action) pair of the product exploration, or one execution of a tool; distinct outcomes are distinct models and statistics',
      note='every map of 18 (26) shapes of up to 6 (8) cells over {obstacle, region a, b (c)}, all start cells, rotating costs/priors/observation tables/file layouts/target lists: the generated model (both forms) explored in lockstep with the rules over all reachable states; maps re-read after writing; all action sequences up to length 3 (4) for the statistics tool; malformed maps refused')
def p19(rep, tier):
    run_harness(rep, 'ls', budget=600 if tier == 'quick' else 780, limit=120)
    rep.counters['evaluations'] = rep.counters.get('transitions', 0) + rep.counters.get('executions', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P24', level='model_checking', rule='one evaluation is one plan compared with all paths of its map, one action compared with the documented preferences in one situation, or one logged action of the program; distinct outcomes are distinct plans',
      note='every layout (regular section of the large ones) of 9 (12) map shapes over {obstacle, regions a, b, c} from every start cell, and all divisions of maps of up to 4 rows and 8 (9) columns (one row: 14) into up to three regions with and without obstacles: all paths listed and compared with the planned one; all readings at every look fed to the policy breadth first over the situations that can be told apart; the program run on generated models with both policy types and its log checked')
def p24(rep, tier):
    run_harness(rep, 'lspath', budget=600 if tier == 'quick' else 780, limit=120)
    rep.counters['evaluations'] = rep.counters.get('plans', 0) + rep.counters.get('actions', 0) + rep.counters.get('logged_actions', 0)
    rep.counters['states'] = rep.counters.get('paths', 0) + rep.counters.get('situations', 0)
    rep.counters['transitions'] = rep.counters.get('actions', 0) + rep.counters.get('logged_actions', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters['evaluations']


@spec('P20', level='model_checking', rule='one evaluation is one execution of the real zmdp binary with one injected interruption (SIGINT, clock jump, kill, torn write, full disk) at one call; distinct outcomes are distinct end states',
      note='every SIGINT position and clock jump (all single positions, pairs at the start) in the improvement loop of solve for 5 strategies; every kill before every call and inside every write of the policy rewriting of benchmark, followed by a restart and by a second kill; the disk full from every write on; process crashes only (no power loss)')
def p20(rep, tier):
    run_harness(rep, 'intr', budget=600 if tier == 'quick' else 780, limit=300, extra_env={'MC_SHIM': mcbuild.build_shim()})
    rep.counters['evaluations'] = rep.counters.get('runs', 0)
    rep.counters['states'] = rep.counters.get('events', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('runs', 0)


@spec('P21', level='model_checking', rule='one evaluation is one run of main() under a prescribed clock and set of stopping criteria; distinct outcomes are distinct (trials, epochs, times)',
      note='every sequence of trial durations from an alphabet of 3 (4) values to depth 3 (4) combined with time limits, backup limits, value limits, SIGINT and done positions; the run has to stop after the very trial the criteria name and every recorded line has to be the state then; time arithmetic on all pairs from a carry grid')
def p21(rep, tier):
    run_harness(rep, 'term', budget=600 if tier == 'quick' else 780, limit=120)
    rep.counters['evaluations'] = rep.counters.get('runs', 0) + rep.counters.get('time_pairs', 0)
    rep.counters['states'] = rep.counters.get('runs', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('runs', 0)


@spec('P22', level='model_checking', rule='one evaluation is one run of main() of zmdp, built with address and undefined-behaviour sanitizers, under one combination of options; distinct outcomes are distinct (command, model, strategy, result) classes',
      note='main() of zmdp itself, under address and undefined-behaviour sanitizers, in a forked child: every documented option value alone, every pair of deviations from the defaults (quick: every 20th pair per model and strategy, rotating, so every pair runs somewhere; thorough: every third), a regular section of the full product of the options that decide which bounds are kept and how, for solve, benchmark and evaluate on ten model kinds and all strategies; the oracle says from the documentation which combinations have to be refused and which have to run to their end')
def p22(rep, tier):
    run_harness(rep, 'opt', variant='san', budget=600 if tier == 'quick' else 780, limit=400)
    rep.counters['evaluations'] = rep.counters.get('runs', 0)
    rep.counters['states'] = rep.counters.get('runs', 0)
    rep.counters['traces_validated_against_impl'] = rep.counters.get('runs', 0)
