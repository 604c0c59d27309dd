#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing). Checks never read this file."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SR = 'symbolic_regression/src/'
DE = 'dynamic_expressions/src/'
WA = 'web/wasm/src/'
P = []      # claimed
NA = []     # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                      state=[dict(name=n, meaning=m, where=w) for n, m, w in state])),
                  technique=technique, note=note))


def na(id, title, statement, over, text, why, files, reason):
    NA.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[])), reason=reason))


NOTE = ('Decided from the optimised-off MIR of the current tree (all features): helpers and closures are inlined, values are '
        'numbered, and every path is covered; no bound on inputs or schedules. Trusts rustc\'s MIR, the calls named opaque in '
        'the evidence, and the semantics given to std collections/iterators. ')

prop('P01', 'Hall of fame admits only valid, strictly cheaper members, one per complexity',
     'A member enters the hall of fame only if it passes every configured constraint at the given size limit, only into the slot of '
     'its own complexity, and only if that slot is empty or holds a member of strictly higher cost. '
     'A member that passes those tests is always stored, every member offered by a population is considered, and nothing else '
     'ever places members in the hall of fame or removes them.',
     ['inputs', 'histories'], 'every member, every prior content of the hall of fame, every option set, every call history',
     'tests insert a handful of members; they cannot cover every path to a slot write nor every function that could touch the table',
     [SR + 'hall_of_fame.rs', SR + 'search_utils.rs'],
     [('admission', 'HallOfFame::consider'), ('bulk update', 'HallOfFame::update_from_members')],
     'path-sensitive dataflow on inlined MIR + whole-program field-write query', NOTE + 'Constraint verdict itself: P02.')
prop('P02', 'A tree is accepted only if every size, depth, argument and nesting limit holds',
     'An expression is reported as satisfying the constraints only if its complexity is within the size limit, its depth within the '
     'depth limit, every operator argument within that operator\'s per-argument limit, and every operator within its nesting limits, '
     'for default and for custom complexities alike. No node, argument position or nesting rule is skipped.',
     ['inputs', 'configurations'], 'every expression tree and every combination of configured limits',
     'tests check a few trees against a few limits; skipping a node, an argument or a branch shows only on particular shapes',
     [SR + 'check_constraints.rs', SR + 'complexity.rs'],
     [('constraint check', 'check_constraints'), ('custom complexity pass', 'compute_custom_complexity_checked')],
     'path-sensitive dataflow on inlined MIR (must-pass guards, loop-iteration coverage)',
     NOTE + 'The arithmetic of the counters (subtree sizes, depth, nestedness) is not re-derived.')
prop('P03', 'The Pareto front is the strictly loss-improving staircase of the hall of fame',
     'The reported front lists stored members in increasing complexity, includes a member if and only if its loss is strictly lower than '
     'that of every simpler listed member, and therefore has strictly decreasing loss.',
     ['inputs', 'histories'], 'every content of the hall of fame',
     'tests look at one or two fronts; ties, gaps and infinite losses need particular contents',
     [SR + 'hall_of_fame.rs'], [('front', 'HallOfFame::pareto_front')],
     'value numbering and guard analysis on inlined MIR', NOTE)
prop('P04', 'A stored loss is the fresh finite loss of its own expression, or infinity',
     'When evaluating a member reports success, its evaluation completed without non-finite values, its stored loss is the finite loss '
     'just computed from its own expression against the dataset\'s targets and weights, and cost and complexity are recomputed from it; '
     'when evaluation reports failure, loss and cost are infinite. The constant optimiser yields a loss only under the same tests, and '
     'evaluation buffers always match the dataset\'s row count.',
     ['inputs', 'histories'], 'every expression, dataset, option set and previous evaluator state',
     'tests evaluate a few expressions with fresh evaluators; stale buffers, partial evaluations and overflowing losses need histories or data they do not use',
     [SR + 'pop_member.rs', SR + 'constant_optimization.rs'],
     [('evaluation', 'PopMember::evaluate'), ('optimiser evaluation', 'EvalWorkspace::loss_only / loss_and_grad')],
     'path-sensitive dataflow on inlined MIR', NOTE)
prop('P05', 'Offspring are checked and evaluated, or rejected with their parent\'s values',
     'A child produced by mutation or crossover is reported as accepted only if that child\'s expression passed the constraint check at '
     'the size limit in force and the child was evaluated with a finite outcome (a mutation that only simplifies may carry its parent\'s '
     'loss, with complexity and cost recomputed). A mutation or crossover that is not accepted hands back the parents\' expressions with '
     'their own complexity, loss and cost.',
     ['inputs', 'histories'], 'every parent, random stream, option set and size limit',
     'which of the many exits is taken depends on the random stream; tests sample a few seeds',
     [SR + 'mutate.rs'], [('mutation step', 'next_generation'), ('crossover step', 'crossover_generation')],
     'joint enumeration of result alternatives on inlined MIR, must-pass guards per alternative',
     NOTE + 'Simplification preserving the value is not decided here.')
prop('P06', 'Constant optimisation keeps a strict improvement or restores the member',
     'If constant optimisation reports an improvement, the best loss found is strictly below the starting loss, the best parameters are '
     'the ones that produced it, and the member\'s loss and cost come from a successful re-evaluation with those constants and the member '
     'gets a fresh birth. Otherwise constants, loss, cost and birth are exactly what they were before; structure and identity never change.',
     ['inputs', 'histories'], 'every member, dataset, option set and optimiser outcome (including failed and non-finite runs)',
     'failure exits need optimiser runs that diverge or a re-evaluation that fails; tests only see converging ones',
     [SR + 'constant_optimization.rs'], [('optimisation', 'optimize_constants')],
     'joint enumeration of result alternatives and final memory contents on inlined MIR', NOTE)

prop('P07', 'A member\'s compiled plan always belongs to its current expression',
     'Whenever a member is evaluated, optimised, stored or handed on, its compiled evaluation plan is the one compiled from the very '
     'nodes and number of constants its expression holds at that moment; any code that changes or replaces an expression recompiles the '
     'plan before the member is used again. Every evaluation receives a plan compiled from the expression it evaluates.',
     ['inputs', 'histories'], 'every member, mutation, simplification and sequence of phases',
     'a stale plan gives plausible but wrong values only after particular rewrites; tests rarely evaluate again after a rewrite',
     [SR + 'pop_member.rs', SR + 'mutate.rs', SR + 'constant_optimization.rs', SR + 'single_iteration.rs'],
     [('plan', 'PopMember::rebuild_plan'), ('rewrites', 'next_generation / crossover_generation / optimize_and_simplify_population')],
     'whole-program MIR write query + value numbering of (expression, plan) pairs at every hand-over point', NOTE)
prop('P08', 'Populations keep their size and each accepted child replaces an oldest member',
     'A population starts with exactly the configured number of members and there are exactly the configured number of populations; '
     'afterwards members are only ever replaced in place, never added or removed. In every evolution step the child (or both crossover '
     'children) takes the place of the member with the lowest birth (the two lowest, at different positions), unless it was rejected '
     'and rejected children are configured to be skipped.',
     ['inputs', 'histories'], 'every population content, random stream and option set',
     'tests look at a few steps; ties in birth, rejected children and crossover at the edges depend on the random stream',
     [SR + 'population.rs', SR + 'regularized_evolution.rs', SR + 'search_utils.rs', SR + 'migration.rs'],
     [('evolution step', 'reg_evol_cycle'), ('oldest selection', 'Population::oldest_index / two_oldest')],
     'whole-program MIR use query, must-pass dataflow and inductive ordering case analysis of the selection loops', NOTE)
prop('P09', 'Member identities and births are fresh, and parent links name the real parent',
     'Every child, initial member and migrant gets an identity and birth taken from its population\'s own counters, and the counters are '
     'then advanced past every value handed out, so no two members of one population created this way share an identity or birth. '
     'Identities of different populations start in separate blocks, and a child\'s parent link names the member it was made from.',
     ['inputs', 'histories'], 'every sequence of evolution steps, migrations and option sets',
     'a repeated identity or birth shows only after particular sequences and then only as subtly wrong ageing',
     [SR + 'population.rs', SR + 'regularized_evolution.rs', SR + 'mutate.rs', SR + 'migration.rs', SR + 'search_utils.rs'],
     [('counters', 'PopState.next_id / next_birth'), ('migration', 'migrate_into')],
     'value numbering with linear offsets of counters on inlined MIR + whole-program write query',
     NOTE + 'A crossover that finds no valid children hands back copies of its parents with their identities; that case is outside.')
prop('P10', 'Losses leaving an iteration come from the full dataset, never from a batch',
     'Initial members are evaluated on the given dataset. Every iteration ends by re-evaluating every member of the population on the '
     'full dataset, after the last change to any member, and with batching on it also re-evaluates every member recorded during the '
     'iteration on the full dataset; the selection offered to other populations is taken after that. '
     'A batch replaces the dataset only when batching is on and keeps the full dataset\'s baseline.',
     ['inputs', 'histories'], 'every dataset, option set, batch size and random stream',
     'batch losses are close to full losses, so a missing re-evaluation on one path does not fail a tolerance test',
     [SR + 'search_utils.rs', SR + 'single_iteration.rs'],
     [('iteration task', 'execute_task'), ('second phase', 'optimize_and_simplify_population')],
     'must-pass dataflow and value analysis on inlined MIR', NOTE)

prop('P11', 'Every row of a batch is one whole row of the data, redrawn for each phase',
     'With batching on, every row of the batch takes its features, target and weight from one and the same row drawn from the full '
     'dataset. The batch has the configured number of rows (at least one), every feature, and weights exactly when the data has them; it '
     'is filled again before each phase that evaluates on it, and the full dataset is never modified.',
     ['inputs', 'histories'], 'every dataset, batch size and random stream',
     'mixed-up rows still give plausible losses; tests compare shapes or a few values',
     [SR + 'dataset.rs', SR + 'single_iteration.rs', SR + 'search_utils.rs'],
     [('batch filling', 'Dataset::resample_from'), ('phases', 's_r_cycle / optimize_and_simplify_population')],
     'value numbering of element reads and writes on inlined MIR + must-pass dataflow', NOTE)
prop('P12', 'Every dispatched population comes back, even if its task panics',
     'Each dispatched task reports back exactly once, also when it panics, in which case the panic is raised again by the coordinator. '
     'The count of outstanding tasks is exact, an iteration ends only when it is zero and nothing is left to dispatch, and every '
     'returned result is applied. A population is taken, evolved and put back under one and the same index, and nothing else takes or '
     'replaces it.',
     ['schedules', 'inputs'], 'every number of workers, populations, completion order and panicking task',
     'completion orders and panicking workers cannot be chosen by a test; a lost result appears as a hang or a missing population',
     [SR + 'search_utils.rs'], [('coordinator', 'equation_search_parallel'), ('stepwise', 'SearchEngine::step')],
     'path counting and typestate on inlined MIR (take / send / receive / put back)', NOTE)
prop('P13', 'The stepwise engine runs the same search as the parallel one',
     'Stepping the engine and the parallel search start from the same initial state for the same options, run the same total number of '
     'cycles, visit all populations in a freshly shuffled order in every iteration, give every task the same kind of inputs (dataset, '
     'options, size limit, snapshot of normalised statistics), treat results alike and count each cycle once.',
     ['inputs', 'histories'], 'every option set, dataset and step size',
     'results of two random searches cannot be compared by value once their interleaving differs',
     [SR + 'search_utils.rs'], [('stepwise', 'SearchEngine'), ('parallel', 'equation_search_parallel')],
     'cross-checking of sibling implementations by value numbering on inlined MIR', NOTE)

prop('P15', 'The size limit stays within the maximum and is used unchanged for a whole task',
     'The size limit never exceeds the configured maximum, never shrinks as the search advances, and equals the maximum when warm-up is '
     'off or over. Each task gets the limit for the cycles dispatched before it, and every check made for this task (of offspring, and '
     'of members offered to the hall of fame) uses this same limit.',
     ['inputs', 'histories'], 'every option set and every point of the search',
     'tests run few cycles and sample few warm-up fractions; a limit that is wrong at one point of the schedule only changes which '
     'members are accepted',
     [SR + 'warmup.rs', SR + 'search_utils.rs', SR + 'single_iteration.rs', SR + 'mutate.rs', SR + 'hall_of_fame.rs'],
     [('schedule', 'warmup::get_cur_maxsize'), ('task result', 'apply_task_result'), ('offspring', 'mutate::next_generation')],
     'interval and monotonicity abstract domains on inlined MIR + value-flow tracking of the limit to every use', NOTE)
prop('P16', 'The reported best is replaced exactly by valid members with a lower loss',
     'The best member starts as the valid initial member with the lowest loss (any initial member if none is valid). After every task, each '
     'recorded member and each member of the returned population is compared with it before migration, and replaces it exactly when it is '
     'valid at the task\'s size limit and either its loss is strictly lower or the current best violates the constraints. '
     'Every such member is also offered to the hall of fame, and the result reports exactly these two.',
     ['inputs', 'histories'], 'every population, task result and search length',
     'a skipped member only shows when it happens to be the best one',
     [SR + 'search_utils.rs'], [('start', 'init_populations'), ('replacement', 'apply_task_result')],
     'loop coverage and guarded-store analysis (exact condition by value numbering) on inlined MIR', NOTE)

prop('P14', 'The same seed gives the same search',
     'Apart from the order in which parallel workers finish, the search takes nothing from the clock, the environment, thread identity, '
     'process-wide or unseeded randomness, addresses or hash order; only the progress display reads such sources, and nothing it computes '
     'reaches the search. Every random stream starts from the configured seed (different seeds start different streams, each population '
     'uses its own) and is never duplicated. Scratch memory kept per thread is cleared before it is used.',
     ['inputs', 'histories'], 'every option set, dataset and environment',
     'a run repeated in one process on one machine hides dependence on time, hash seeds, addresses and thread history',
     [SR + 'search_utils.rs', SR + 'random.rs', SR + 'progress_bars.rs', SR + 'check_constraints.rs', DE + 'node_utils.rs'],
     [('engine', 'SearchEngine'), ('streams', 'init_populations')],
     'whole-program effect query over the call graph + order-insensitivity and value analysis on inlined MIR', NOTE)
prop('P27', 'Migration moves only the configured share of the right members',
     'With migration on, a returned population may take clones of members of the best selections of all other populations, never its '
     'own; with hall-of-fame migration on, clones of the Pareto front; with a switch off, nothing. The number replaced is drawn with '
     'mean fraction times population size, using the fraction that belongs to that switch, and never exceeds the population size or the '
     'number of migrants; each migrant replaces one member drawn from the whole population and keeps everything but its identity, birth '
     'and parent. A selection is the configured number of lowest-cost members of its population.',
     ['inputs', 'histories'], 'every population state, option set and random stream',
     'migration is random and rare; wrong sources or shares only shift distributions',
     [SR + 'search_utils.rs', SR + 'migration.rs', SR + 'hall_of_fame.rs'],
     [('result handler', 'apply_task_result'), ('mover', 'migrate_into'), ('selection', 'best_sub_pop')],
     'value, loop-coverage and trip-count analysis on inlined MIR; comparator analysis of the sort closure', NOTE)

prop('P17', 'Every loss computes its named formula and its exact gradient',
     'Each selectable loss is the formula its name denotes, with the parameter it was given, averaged over the rows: plainly without '
     'weights, and with each row counted by its weight over the total weight otherwise. The gradient it hands to constant optimisation '
     'is, for every row, the derivative of that averaged loss with respect to that row\'s prediction, away from kinks and zero total weight. '
     'Loss names select the loss of that name and unknown names select none.',
     ['inputs'], 'every prediction, target, weight vector and loss parameter, in real arithmetic',
     'tests compare gradients at a few points; a wrong branch, weight or scale only shows on particular residuals and weights',
     [SR + 'loss_functions.rs'],
     [('losses', 'PointwiseLoss'), ('averaging', 'MeanLoss'), ('choice', 'make_loss')],
     'formula extraction from inlined MIR into an algebraic normal form, rule-based differentiation, comparison per sign region', NOTE)
prop('P30', 'Built-in operators compute their function and exact derivatives',
     'Each built-in operator computes the function its name denotes, names are distinct per number of arguments, and infix symbols belong to '
     'the operator they stand for. Its declared partial derivative in each argument is the derivative of that function wherever it is '
     'differentiable, including where clamp bounds are inverted. Operators declared commutative or associative are so.',
     ['inputs'], 'every argument value in the domain, in real arithmetic',
     'tests compare with finite differences at a few points; a wrong branch or factor may vanish there',
     [DE + 'operator_enum.rs'],
     [('operators', 'builtin_op!')],
     'formula extraction from inlined MIR into an algebraic normal form, rule-based differentiation, comparison per sign region', NOTE)

prop('P18', 'Settings chosen in the browser reach the search unchanged',
     'A browser search runs with exactly the settings sent: every transmitted option and mutation weight is the search option of the same name (progress output may be turned '
     'off), the loss is the named one with its own parameter, unknown loss names are refused, and header flag, validation share, seed and the unary, binary and ternary operator '
     'names are those given. Omitted or unreadable settings take the library\'s own defaults. Every transmitted option and mutation weight (except those for guesses and connections) is '
     'read by both the parallel and the stepwise search, and the operators offered are all built-in ones with their own names and descriptions.',
     ['inputs', 'configurations'], 'every combination of settings, loss name and operator lists',
     'dozens of settings are copied by hand or macro; tests check three, and a dropped or crossed one only changes how the search behaves',
     [SR + 'options.rs', WA + 'lib.rs'],
     [('copying', 'WasmOptionsShim::apply_to'), ('options', 'lib::options_from_wasm'), ('construction', 'WasmSearch::new'), ('operators', 'lib::builtin_operator_registry')],
     'value flow of each setting on MIR', NOTE)
prop('P19', 'Operator names select exactly the operators they name',
     'A token denotes the operators whose name (ignoring case), display name or symbol equals it without surrounding blanks; looking it up, among all arities or one, '
     'gives the operator if exactly one is denoted, and otherwise an unknown or an ambiguous error. Selecting operators by names stores each named operator once, with the '
     'operators of its own arity, and is refused only if nothing is named, a name is unknown or ambiguous, an operator has too many arguments or is named twice. The default '
     'selection is addition, subtraction, multiplication and division.',
     ['inputs', 'configurations'], 'every token list and operator set',
     'a wrongly selected operator only changes which formulas are searched; tests select a handful of names',
     [DE + 'traits.rs', SR + 'operators.rs', SR + 'operator_library.rs'],
     [('lookup', 'OperatorSet::lookup'), ('selection', 'Operators::from_names_by_arity'), ('default', 'OperatorLibrary::sr_default')],
     'loop summaries and path conditions on MIR', NOTE)
prop('P20', 'Non-finite values are reported, and only they',
     'When an operator is evaluated over the rows of a batch with finiteness checking on, completion is reported only if every value '
     'computed is finite, and failure only if some value computed is not; with checking off it always reports completion. When early '
     'exit is on, a failure leaves every output buffer filled with NaN; otherwise the computed values are kept.',
     ['inputs'], 'every operand kind, number of arguments, row and option setting',
     'tests use a few expressions; the check is repeated in separate code for constants, one, two and more arguments, and for values, derivatives and gradients',
     [DE + 'evaluate.rs'],
     [('kernels', 'eval_nary, diff_nary, grad_nary')],
     'path enumeration of the inlined MIR per operand shape and option setting; finiteness facts and buffer fills tracked along each path', NOTE)
prop('P21', 'Batch evaluation applies the operator and the chain rule in every row',
     'For any number of arguments and any mix of constant and per-row operands, batch evaluation of an operator stores in every row its '
     'value at that row\'s operands, in order. Forward derivatives and gradients store, per row and direction, the sum over all operands '
     'of the partial derivative times that operand\'s derivative, where a term whose operand derivative is exactly zero may be left out.',
     ['inputs'], 'every operand kind, number of arguments, row and direction',
     'each of the many combinations of operand kinds has its own loop; tests reach few of them, and equal arguments hide swaps',
     [DE + 'evaluate.rs', DE + 'dispatch.rs'],
     [('kernels', 'eval_nary, diff_nary, grad_nary'), ('loops', 'eval_unary_loop, eval_binary_loop, grad_unary_loop, grad_binary_loop')],
     'symbolic row formulas extracted from inlined MIR for each operand shape, compared with the chain rule; loop coverage of each output buffer', NOTE)

prop('P22', 'Simplification never changes what an expression computes',
     'Apart from rounding, a simplified expression computes the same function. An operator is folded into a constant only if all its operands '
     'are constants, its evaluation on exactly these succeeds and the value is finite. Constants are moved through sums, products and '
     'differences only by algebraic identities; every other operand is kept exactly once, an operator that is not one of these keeps its '
     'operands in place, and any change is reported.',
     ['inputs'], 'every expression, any operator set in which "+", "*" and "-" with two operands mean addition, multiplication and subtraction',
     'eight rewrite patterns over trees of any shape; tests try a handful and compare a few evaluations',
     [DE + 'simplify.rs'],
     [('rewriting', 'simplify::combine_node, append_const, combine_operators_in_place'), ('folding', 'simplify::simplify_tree_in_place'), ('reading and writing trees', 'parse_postfix_to_arena, emit_postfix')],
     'each path read as a finite tree rewrite over MIR, before and after compared as polynomials; structural lemmas for folding', NOTE)

prop('P28', 'Mutations and tournament winners are drawn with the configured odds',
     'A weighted draw returns an entry with probability proportional to its weight and never one of zero weight. A mutation is drawn with its '
     'own configured weight, and the mutation drawn is the one applied; for a tree with operators a mutation that cannot apply, would exceed '
     'the size limit or is switched off has weight zero, and no other weight is taken away. A tournament draws distinct members, scores each '
     'by its own cost and the frequency of its own size as configured, and takes the k-th best with probability p(1-p)^(k-1).',
     ['inputs', 'schedules'], 'every population, weight vector, tree and random stream',
     'tests check that bad weights panic and that drawn indices differ; odds and conditioning of twelve mutations are not observable in a few runs',
     [SR + 'selection.rs', SR + 'mutate.rs'],
     [('draws', 'selection::weighted_index, sample_indices, sample_tournament_place, best_of_sample'), ('mutation choice', 'mutate::condition_mutation_weights, sample_mutation, MutationChoice::apply')],
     'loop invariants of the draws and zeroed weights against the tests on the same path, over MIR', NOTE)

prop('P29', 'Children are accepted by the annealing and size-frequency rule',
     'With annealing a child is accepted with probability exp(-(cost change)/(temperature*alpha)), times the ratio of the old to the new '
     'size frequency when frequencies are in use; temperatures fall linearly from one to zero over the cycles of an iteration and stay at one '
     'without annealing. Size statistics count each member of every returned population once under its own complexity; frequencies are the '
     'counts divided by their sum, and moving the window lowers only counts above one, never below one.',
     ['inputs', 'histories'], 'every pair of parent and child, every option setting and every history of population sizes',
     'acceptance is random and the statistics drift over a whole search; no test pins the odds',
     [SR + 'mutate.rs', SR + 'adaptive_parsimony.rs', SR + 'single_iteration.rs', SR + 'search_utils.rs'],
     [('acceptance', 'mutate::next_generation'), ('temperature', 'single_iteration::s_r_cycle'), ('statistics', 'adaptive_parsimony::RunningSearchStatistics')],
     'the acceptance factors, the temperature line and the counting loops compared symbolically path by path over MIR', NOTE)

prop('P25', 'A dataset stores what it is given, contiguously and with consistent lengths',
     'Every dataset that is built holds the given features, targets and weights unchanged and in row-major order whatever their memory layout, so '
     'that given weights are never dropped; it has one target, and one weight if any, per row, refuses other lengths, and its recorded sizes, names and '
     'values never change afterwards except for the elements of a batch. Its average target is the given one, or else the mean, or the weighted mean with '
     'weights (zero without rows). The baseline loss is the loss of the constant zero on exactly this data, or absent if that is not finite.',
     ['inputs'], 'every array layout, number of rows and weights',
     'layout and length mistakes only show with strided views or with one particular shape; tests build plain arrays',
     [SR + 'dataset.rs', SR + 'loss_functions.rs'],
     [('construction', 'Dataset::build_dataset'), ('average', 'Dataset::compute_avg_y'), ('baseline', 'baseline_loss_from_zero_expression')],
     'path-wise value numbering on MIR; symbolic sums; who-writes query', NOTE)
prop('P26', 'Tables are split into disjoint training and validation rows',
     'Every row and cell of the input text is read, and an accepted table is rectangular and uses distinct in-range target, weight and feature columns '
     '(by default the last column is the target and all other columns are features); each target, weight and feature value comes from its own row and '
     'column under that column\'s header. Training and validation rows partition the table: the configured share, limited to 0.9 and rounded, is for '
     'validation and at least one row trains. The order depends on the seed, and each set carries its own rows and weights.',
     ['inputs', 'configurations'], 'every text, column choice, share and seed', 'one wrong index mislabels data without any visible error, and only some tables and options show it',
     [WA + 'lib.rs'],
     [('reading', 'lib::parse_csv_to_rows'), ('columns', 'lib::build_full_dataset'), ('split', 'lib::make_split_indices'), ('rows', 'lib::select_rows')],
     'array contents as functions of their index over MIR, with loop coverage on the control-flow graph', NOTE)

prop('P36', 'The browser reports true errors and the requested members',
     'For the member with the requested id (a hall-of-fame member or the best one) and the requested data, the browser reports predictions for every row and, computed from them, the row '
     'count, the mean squared, root mean squared and mean absolute error and r2 (weighted if rows have weights), the unweighted correlation, and the extreme absolute errors; '
     'a failed evaluation is an error. Each step reports the counts and best member of the engine after the step, and front reports list up to the given number of members from the accurate end '
     'of the Pareto front, each with its own id, complexity, loss, cost and equation.',
     ['inputs', 'histories'], 'every data set, weighting, member and front', 'users pick an equation from these numbers; a wrong weight or denominator shows only on some data',
     [WA + 'lib.rs'],
     [('measures', 'lib::compute_metrics'), ('look-up', 'lib::WasmSearch::evaluate_member'), ('reports', 'lib::WasmSearch::step, best_equations')],
     'symbolic row sums compared with the formulas in every sign region, and path-wise reading of look-up and reports over MIR', NOTE)

prop('P31', 'Evaluating an expression runs every step on the right operands',
     'Evaluation, forward derivatives and gradients run every instruction of the compiled plan. Each operator call gets the operator its '
     'instruction names, and its operands, with their derivatives, from the right feature column, constant or intermediate result, in order. '
     'The result is the one of the root node; the completion flag is true exactly when every operator call succeeded and, where finiteness is '
     'checked, a constant root is finite. A derivative or gradient evaluation stopped early returns only NaN.',
     ['inputs'], 'every expression, data set, option setting and direction',
     'operands come from three kinds of places with different strides, three drivers repeat the logic, and small test expressions use few slots',
     [DE + 'evaluate.rs', DE + 'evaluate_derivative.rs'],
     [('drivers', 'eval_plan_array_into, eval_diff_tree_array, eval_grad_tree_array'), ('operands', 'resolve_val_src, resolve_der_src, resolve_grad_src')],
     'path enumeration of the inlined drivers under fixed options; symbolic slice bases, offsets and lengths of each operand; flag as a conjunction', NOTE)

prop('P24', 'Compiling never lets an intermediate result overwrite one still needed',
     'A compiled plan lists one instruction per operator node, in order, with the operator, the arity and the operands postfix order gives '
     'it (last operand popped first). The result slot of an instruction holds no value any later instruction still reads and is not an operand '
     'of the same instruction; the slot count covers every slot used. A node list that leaves more than one value is rejected, and the plan '
     'carries the hash of all its nodes.',
     ['inputs'], 'every node list',
     'a wrong reuse shows only for trees deep or wide enough to recycle slots in the one bad order',
     [DE + 'compile.rs'], [('compile_plan', 'stack, instructions, free slots, next and highest slot')],
     'inductive invariant of the slot allocator checked on the transfer of each path of the compiling loop (accumulator extraction from MIR)', NOTE)

prop('P32', 'A reused evaluation context never runs a stale plan or a misshapen buffer',
     'Evaluation, forward derivatives and gradients may be called again and again with the same context and any expressions. Each call runs a '
     'plan compiled from the nodes of the expression it is given, or a kept plan whose node hash was just compared with that of these nodes, '
     'and works in scratch buffers with exactly one row per slot of that plan and one column per data row (times the directions for gradients).',
     ['histories'], 'every sequence of calls on one context',
     'a stale plan needs two expressions of equal size in a particular order on one context',
     [DE + 'evaluate.rs', DE + 'evaluate_derivative.rs'],
     [('contexts', 'EvalContext::setup, DiffContext, GradContext'), ('entry points', 'eval_tree_array_into, eval_diff_tree_array, eval_grad_tree_array')],
     'must-hold facts on every path from entry to use: plan provenance or hash equality, buffer shape equality or fresh allocation', NOTE)

prop('P33', 'An operator\'s id and name mean the same operator everywhere',
     'In a built-in operator set, each listed id runs one and the same operator, with all its operands, when evaluated, differentiated '
     'along a direction and differentiated for gradients; its metadata and its marker type give that operator\'s own arity, id, name, '
     'symbol and algebraic properties; ids that are not listed are refused. Functions and arithmetic operators that build expressions apply '
     'the operator of their name to their arguments in order, a literal becoming exactly that constant.',
     ['inputs'], 'every operator set, operator id and arity, every expression-building function',
     'forty operators times a dozen tables and functions; tests exercise a few of them',
     [DE + 'operator_enum.rs', DE + 'traits.rs', DE + 'operators.rs', DE + 'expression_algebra.rs'],
     [('operator sets', 'opset! expansions: ops_with_arity, meta, eval, diff, grad, HasOp::ID'), ('builders', 'operators.rs functions, std::ops impls')],
     'symbolic execution of each dispatch and metadata function per id over MIR, compared as tables', NOTE)

prop('P34', 'Mutations, crossover and random generation only build well-formed trees',
     'Every expression made by a mutation, crossover or random generation is one well-formed tree: each operator has exactly as many '
     'operands as its arity and is drawn from the operators of that arity, each constant refers to one of the expression\'s own constants and keeps its value '
     'when it moves, each variable is a feature of the dataset. Swapping exchanges two operands of one operator; insertion, '
     'prepending, rotation and deletion keep the subtrees they do not replace whole; crossover exchanges one subtree of each parent. '
     'A mutation that reports failure leaves the expression as it was, and random trees never exceed the size asked for.',
     ['inputs', 'histories'], 'every expression, every operator set, every random draw',
     'the tests run a few seeds on small trees; a wrong offset shows only for particular shapes and draws',
     [SR + 'mutation_functions.rs', DE + 'node_utils.rs', DE + 'utils.rs', SR + 'operators.rs'],
     [('edits', 'mutation_functions.rs: splice/replace sites, child_ranges, crossover, gen_random_tree'), ('places', 'node_utils, remap_subtree_consts, compress_constants')],
     'symbolic path summaries over MIR: every node splice shown to replace one whole subtree by one whole tree; remapped constants tracked by relation', NOTE)


prop('P37', 'Every iteration runs the configured cycles, steps and phases',
     'Handling a population runs one evolution phase followed by one simplification and optimisation phase. '
     'The evolution phase has exactly the configured number of cycles (at least one) and each cycle one step per tournament size of members, rounded up; each step is a crossover of two tournament winners with the configured probability and otherwise a mutation of one. '
     'When enabled, simplification treats every member, and then constant optimisation each member with its configured probability; neither runs when disabled.',
     ['inputs','configurations'], 'every population, option setting and random draw',
     'a skipped cycle or a complementary probability only changes how well the search does, which no test measures',
     [SR+'single_iteration.rs', SR+'regularized_evolution.rs', SR+'search_utils.rs'],
     [('task','search_utils::execute_task'),('cycles','single_iteration::s_r_cycle'),('steps','regularized_evolution::reg_evol_cycle'),('phases','single_iteration::optimize_and_simplify_population')],
     'path enumeration with loop summaries on MIR', NOTE)

prop('P38', 'Size, depth, nesting and complexity measure what they say',
     'The complexity of an expression is its node count when every weight is one, and otherwise the sum over its nodes of the weight configured for that very node: the operator\'s own or one, the variable\'s own or the general one, the constant weight. '
     'Depth is one for a leaf and one more than the deepest operand for an operator. '
     'A nesting limit is compared with the largest number of occurrences of its operator on a path below the node it applies to; the counts of constants, variables and operators count exactly those nodes.',
     ['inputs','configurations'], 'every expression, weight table and nesting rule',
     'a weight looked up for the wrong variable or an off-by-one in nesting only shows for custom complexities and particular tree shapes',
     [SR+'complexity.rs', SR+'check_constraints.rs', SR+'options.rs', DE+'node_utils.rs'],
     [('complexity','complexity::compute_custom_complexity_checked'),('depth','node_utils::count_depth'),('nesting','check_constraints::check_nested_constraints'),('shortcut','Options::uses_default_complexity')],
     'postfix fold analysis on MIR', NOTE)

prop('P35', 'Constant optimisation: trials, accepted steps, limits and starts',
    'Each trial of constant optimisation sets every constant to the trial point, evaluates the expression and counts one evaluation. '
    'A run returns a point with the objective\'s value at that very point, and a line-search step is accepted only for a sufficient decrease along a direction in which the objective falls. '
    'No iteration begins beyond the configured number, and no iteration or line-search trial once the evaluation limit is reached. '
    'There is one start from the current constants and then the configured number of restarts, each from the current constants with every one scaled by 1 + half a fresh normal draw.',
    ['inputs','configurations','histories'],'every expression, dataset, starting point, objective behaviour (including missing and non-finite values), limit and number of restarts',
    'a value paired with the wrong point, or a limit missed by one, needs objectives that fail part-way or a limit hit inside a line search; tests use two smooth functions without a limit',
    [SR+'optim.rs',SR+'constant_optimization.rs'],
    [('objective','ConstObjective::f_only / fg'),('line search','optim::backtracking_linesearch'),('minimisers','optim::bfgs_minimize / newton_1d_minimize'),('starts','constant_optimization::optimize_constants')],
    'dataflow: loop invariants pairing points with values, path facts (limit, sufficient decrease) and rational-function comparison', NOTE)

prop('P39', 'Cost follows from loss, baseline, complexity and parsimony',
    'The cost of a member is its loss divided by the baseline loss when baselines are in use and the baseline is finite and at least 0.01, and by 0.01 otherwise, plus the configured parsimony times its complexity. '
    'A stored cost is computed by this rule from the loss and complexity stored with it, the configured parsimony and switch and the dataset\'s baseline, is infinite, or is copied from another member. '
    'The baseline is computed, from the dataset searched and the configured loss, exactly when it is asked for.',
    ['inputs','configurations'],'every loss, complexity, parsimony, baseline (missing, zero, tiny, infinite or not a number) and switch, and every place that stores a cost',
    'an unusable baseline needs data on which zero is a perfect or overflowing prediction; the carried cost of a simplification needs parsimony and baselines together',
    [SR+'loss_functions.rs',SR+'pop_member.rs',SR+'mutate.rs',SR+'search_utils.rs',SR+'constant_optimization.rs'],
    [('cost','loss_functions::loss_to_cost'),('stored','PopMember::evaluate, mutate::next_generation'),('baseline','equation_search_parallel, SearchEngine::new')],
    'dataflow: path facts with rational-function comparison; who-calls and who-writes queries; guard analysis', NOTE)

prop('P40', 'Mutations draw their place evenly and change only that place',
    'Every mutation and crossover draws the place it changes evenly from all places of the tree it can apply to (constants, variables, operators, two-operand operators, operators over operators, leaves or nodes), and operands, arities (by number of operators) and operators evenly; it gives up only when nothing can be changed. '
    'The constant mutation multiplies just the chosen constant by (1.1 + perturbation factor * temperature)^u or its inverse, with a fresh uniform u and a fair coin, its sign decided by a further draw against the configured probability. '
    'The operator mutation puts an operator of the same arity at the chosen node, the feature mutation another of the data\'s features.',
    ['inputs','configurations'],'every expression, operator set, number of features, temperature and stream of random numbers',
    'a place that is never drawn, or drawn too often, still gives valid trees; tests only look at whether a tree is valid or has changed',
    [SR+'mutation_functions.rs',SR+'operators.rs'],
    [('places','mutation_functions::*_in_place, crossover_trees'),('constant','mutation_functions::mutate_constant_in_place'),('operators','Operators::sample_arity / sample_op')],
    'dataflow: classification of every draw by its range, loop summaries of candidate lists, path facts and rational-function comparison', NOTE)

prop('P41', 'A printed expression shows its own tree: names, values, operators, grouping',
     'An expression is printed with every variable by its given name (by x and its number when it has none), every constant in full, every operator by its symbol '
     '(its name when it has none; its display form when pretty printing) with its operands in order. An infix operator of several operands is enclosed in '
     'parentheses unless it is the whole text or a whole function argument; every other operator is written as a function of its operands. '
     'The caller\'s variable names take precedence over the expression\'s own.',
     ['inputs'], 'every expression, operator set, list of variable names and notation',
     'the text is what a user copies out of a search; tests compare a few printed expressions',
     [DE + 'strings.rs', DE + 'node_utils.rs'],
     [('printing', 'strings::string_tree and its closures, strip_outer_parens, default_string_variable / constant'), ('tree pass', 'node_utils::tree_mapreduce')],
     'dataflow: string values as sequences of literals and values over every path, decoded formatting templates, fold summary of the tree pass', NOTE)

prop('P42', 'Random draws follow their stated distribution, from the generator given',
     'A number drawn from a range takes every value of the range, both ends included where the range includes them, with equal chance; an element is chosen '
     'from the whole list with equal chance, and none only from an empty list; a shuffle gives every order with equal chance; a standard normal draw is '
     'normal with mean 0 and variance 1; a Poisson draw has the stated mean, by a method valid for that mean. All of them draw from the generator handed in.',
     ['inputs', 'histories'], 'every range, list, mean and generator state',
     'migration counts, parent selection, feature choice, visiting order, restarts of the optimiser and bootstrap all rest on these; a bias is invisible in any single run and tests only sample a few draws',
     [SR + 'random.rs'],
     [('draws', 'random::{usize_range, usize_range_inclusive, choose, shuffle, standard_normal, poisson_sample, log_factorial}')],
     'dataflow and algebra: intervals of integer draws as linear forms, float formulas as rational functions, acceptance tests decided over all truth assignments', NOTE)

prop('P43', 'Random expressions grow from evenly chosen leaves up to the requested size',
    'A random expression starts from a random leaf and repeatedly replaces an evenly chosen leaf by an operator, with fresh random leaves as operands, '
    'that fits the room left, until the requested size is reached or nothing fits; it never exceeds that size. A random leaf is, with even chance, any '
    'feature or a standard-normal constant. Adding a node chooses with even chance between the root and a leaf; randomising asks for a uniform size '
    'from 1 to the limit in force; the first expressions of a population are grown by three operators.',
    ['inputs', 'histories'], 'every requested size, operator set, feature count and generator state',
    'the shape and spread of what the search starts from decides what it can find; a lopsided choice or an off-by-one in the room left is invisible in any single tree a test looks at',
    [SR + 'mutation_functions.rs', SR + 'mutate.rs', SR + 'search_utils.rs'],
    [('random expressions', 'mutation_functions::{random_leaf, random_expr, random_expr_append_ops, append_random_op_in_place}, mutate::next_generation randomize arm')],
    'dataflow: growth loop summarised over every path, draws and their ranges as linear forms, sizes tracked against the room left', NOTE)

na('P90', 'Batch evaluation is numerically accurate',
   'The value computed for an expression at a row is close to the mathematical value of that expression at that row.',
   ['inputs'], 'every expression and every finite input', 'accuracy depends on conditioning at each input',
   [DE + 'evaluate.rs', DE + 'operators.rs'],
   'Rounding-error bounds need numerical abstract domains over unbounded compositions of transcendental functions; the structural part '
   '(right operator, right operands, right derivative formula) is claimed as P30, P31, P21.')
na('P91', 'Constant optimisation converges to a local minimum',
   'When the loss is smooth, constant optimisation ends near a local minimum.',
   ['inputs'], 'every expression, dataset and start point', 'convergence is a limit statement over real-valued iterations',
   [SR + 'optim.rs', SR + 'constant_optimization.rs'],
   'Convergence is a statement about real-valued iterates that no dataflow or type argument bounds; that a reported improvement is a real strict one is P06.')
na('P93', 'Printing an expression and reading it back gives an equal expression',
   'A printed expression denotes the same function under the usual operator precedences.',
   ['inputs'], 'every expression and every set of names', 'string formatting is a recursive function of the whole tree',
   [DE + 'strings.rs'],
   'There is no parser in the repository to compare with, and float formatting is a runtime quantity; names of operators are claimed in P33, symbols, order of operands and grouping in P41.')

def design():
    import sys, glob
    sys.path.insert(0, HERE)
    import rules
    R = rules.load()
    t = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md')).read()
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        seeds.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
    out = []
    for x in sorted(P, key=lambda x: x['p']['id']):
        i = x['p']['id']
        _, expl, asm = R[i]
        a = x['p']['anchors']
        out += [f"### {i} {x['p']['title']}", '',
                '*Quantifies over:* ' + x['p']['quantifier']['text'] + '. *Tests cannot:* ' + x['p']['why_tests_cant'] + '.', '',
                '*Decided by* (' + x['technique'] + '): ' + expl.rstrip('.') + '.', '',
                '*Anchored at:* ' + '; '.join(f"{m['name']}: `{m['where']}`" for m in a['mechanism']) + '.'
                + (' *Assumes:* ' + '; '.join(asm) + '.' if asm else ''), '']
    t = t.replace('@@PROPS@@', '\n'.join(out))
    t = t.replace('@@NA@@', '\n'.join(f"* **{x['p']['id']} {x['p']['title']}** - {x['reason']}" for x in NA) or 'None.')
    fx = [l[7:].split(' ', 2) for l in open(os.path.join(HERE, 'known-findings.txt')).read().splitlines() if l.startswith('fixed: ')]
    t = t.replace('@@FIXES@@', '\n'.join(f'* `{c}` ({p.split("=")[1]}): {w}' for p, c, w in fx))
    cf = os.path.join(HERE, 'tools', 'caught.txt')
    caught = dict(l.split(None, 1) for l in open(cf).read().splitlines() if l.strip()) if os.path.exists(cf) else {}
    t = t.replace('@@SEEDS@@', '\n'.join(['| bug | property | what it breaks | reported by |', '|---|---|---|---|'] + [
        f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, '?')} |" for i, m in seeds]))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in sorted(P + NA, key=lambda x: x['p']['id']):
            f.write(json.dumps(x['p']) + '\n')
    man = dict(version=1, setup_cmd='./check setup', checks=[], not_applicable=[dict(property=x['p']['id'], reason=x['reason']) for x in NA],
               notes='No hooks: /repo carries only "fix:" commits. All checks share one MIR dump of the current tree (built by whichever check runs first).')
    for x in P:
        i = x['p']['id']
        man['checks'].append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --thorough',
                                  technique=x['technique'], level='other', level_note=x['note']))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    design()
    ids = [x['p']['id'] for x in P + NA]
    assert len(ids) == len(set(ids))
    for x in P + NA:
        assert len(x['p']['title']) <= 80, (x['p']['id'], len(x['p']['title']))


main()
