"""The properties: one dict each; see props.py."""
NOTES = ('Every check drives the real code of /repo under generated workloads '
         'and judges each execution with monitors that restate the property '
         'independently; see DESIGN.md. No hooks are needed: the code is pure '
         'Python and is observed through its functions and by wrapping them.')
ORACLE = ('Exploration: every execution of the generated workload is judged; '
          'nothing is claimed for inputs not generated. Trusts the oracle in '
          'vlib/oracle.py and the stand-in for the missing src.CLA package.')
NOT_APPLICABLE = {}
PROPS = [
 dict(id='C01', title='Contiguity rule verdicts, counts and penalties are exact',
  statement='A stack is accepted by the contiguity rule exactly when no run of identical fibre orientations is longer than the limit. The reported number of violations is the number of windows of limit+1 identical plies, the penalty is zero exactly when there is none, the per-panel values of a structure are those of each panel on its own, and counts accumulated while a laminate is grown add up to those of the laminate.',
  quant='every stack of any length over any angle set, every contiguity limit from 2 to 6, every growth history of a laminate',
  why='no test covers the contiguity rule; a limit-by-stack pair where only the last window violates is needed to see most errors',
  files=['src/guidelines/contiguity.py'],
  mech=[('window scan per contiguity limit', 'src/guidelines/contiguity.py:is_contig'), ('violation counter', 'src/guidelines/contiguity.py:calc_n_viola_contig*'), ('penalty', 'src/guidelines/contiguity.py:calc_penalty_contig_*')],
  observe=['return values of the contiguity functions'],
  technique='generated stacks and growth histories, online oracle (run lengths) on every verdict, count and penalty', note=ORACLE),
 dict(id='C02', title='Disorientation rule verdicts and violation counts are exact',
  statement='Two adjacent plies are accepted exactly when the smallest angle between their fibre directions (modulo 180 degrees) is at most the limit, and a stack exactly when all its adjacent pairs are, except the pairs inside the outer +-45 plies under the two-ply damage-tolerance rules. The number of violations is the number of offending pairs, also when it is accumulated while a laminate is grown.',
  quant='every pair of angles in (-90, 90], every stack, every limit and damage-tolerance variant, every growth history of a laminate',
  why='no test covers disorientation; wrap-around angles and limits hit exactly are measure-zero for sampled tests',
  over=['inputs', 'histories'],
  files=['src/guidelines/disorientation.py'],
  mech=[('pair test', 'src/guidelines/disorientation.py:is_diso'), ('stack test', 'src/guidelines/disorientation.py:is_diso_ss'), ('incremental counters', 'src/guidelines/disorientation.py:calc_n_penalty_diso_*')],
  observe=['return values of the disorientation functions'],
  technique='generated stacks and growth histories, online oracle (angle gap) on every verdict and count', note=ORACLE),
 dict(id='C03', title='Balance and orthotropy verdicts, penalties and parameters are exact',
  statement='A stack is reported balanced exactly when every orientation other than 0 and 90 has as many plies as its opposite. Balance and orthotropy penalties vanish exactly for balanced/orthotropic laminates and equal the normalised imbalance otherwise, and the orthotropy parameters computed from lamination parameters equal those of the stiffness or compliance matrices they define.',
  quant='every stack and angle set, every material and set of lamination parameters, with one or several panels',
  why='the existing balance tests use a handful of stacks of 0/45/90/-45; angle sets with several pairs and asymmetric counts are not reached',
  files=['src/guidelines/balance.py', 'src/guidelines/ipo_oopo.py'],
  mech=[('balance verdict', 'src/guidelines/balance.py:is_balanced'), ('balance penalty', 'src/guidelines/balance.py:calc_penalty_bal'), ('orthotropy parameters', 'src/guidelines/ipo_oopo.py')],
  observe=['return values of the balance and orthotropy functions'],
  technique='generated stacks/materials, online oracle (counts, stiffness matrices)', note=ORACLE),
 dict(id='C04', title='10% rule verdicts and penalties are exact, in both forms',
  statement='A laminate satisfies the 10% rule exactly when each fibre direction reaches its minimum percentage (with the +-45 total counted as requested), whether the laminate is given as a stack, a partly known stack with a queue of plies, or ply counts. In the lamination-parameter form it does exactly when its in-plane lamination parameters lie in the feasible region, and the penalty is the shortfall (respectively the distance to the region), zero exactly when satisfied.',
  quant='every stack, every set of percentages, symmetric laminates with and without middle ply, every point of the lamination-parameter plane',
  why='the existing tests evaluate three stacks with one percentage set; rounding at exact minima, queues and middle plies are not reached',
  files=['src/guidelines/ten_percent_rule.py', 'src/guidelines/ten_percent_rule_Abdalla.py'],
  mech=[('verdict', 'src/guidelines/ten_percent_rule.py:is_ten_percent_rule'), ('penalty', 'src/guidelines/ten_percent_rule.py:calc_penalty_10_ss/pc'), ('LP form', 'src/guidelines/ten_percent_rule_Abdalla.py')],
  observe=['return values of the 10% rule functions'],
  technique='generated laminates at the minima, exact rational oracle and geometric distance oracle', note=ORACLE),
 dict(id='C05', title='Damage-tolerance verdict is exact for the three variants of the rule',
  statement='A stack is accepted exactly when its outer plies are at +-45 (one ply per surface for variant 1, an opposite +-45 pair per surface for variant 2, any two +-45 plies for variant 3).',
  quant='every combination of the surface plies, every variant, symmetric and asymmetric laminates',
  why='the tests sample a few stacks; the four surface positions interact',
  files=['src/guidelines/dam_tol.py'],
  mech=[('verdict', 'src/guidelines/dam_tol.py:is_dam_tol')],
  observe=['return value of the damage-tolerance function'],
  technique='all surface-ply combinations run, online oracle', note=ORACLE),
 dict(id='C06', title='A lay-up is accepted iff it satisfies every active design rule',
  statement='Checking a lay-up against a constraint set raises exactly when one of the active rules (symmetry, damage tolerance, balance, 10% rule, disorientation, contiguity, expected size) is broken, and never otherwise. Rules that the caller waives are not checked.',
  quant='every set of active rules and every stack',
  why='nothing tests the combined acceptance; each rule must be consulted in every combination',
  over=['inputs', 'configurations'],
  files=['src/guidelines/one_stack.py'],
  mech=[('acceptance', 'src/guidelines/one_stack.py:check_lay_up_rules')],
  observe=['exception or normal return'],
  technique='stacks one edit from feasible under random rule sets, online oracle on accept/reject', note=ORACLE),
 dict(id='C07', title='Candidate filters keep exactly the admissible sublaminates',
  statement='Filtering a table of candidate sublaminates for disorientation and contiguity, alone or against the plies they will be laid next to, keeps exactly the candidates that satisfy the active rules, in order. A paired table loses the same rows.',
  quant='every table of candidates, every adjacent stack, every rule set, with or without paired table',
  why='no test covers the filters; an adjacent run that only breaks the limit jointly with a candidate is needed',
  files=['src/guidelines/internal_contig.py', 'src/guidelines/external_contig.py', 'src/guidelines/internal_diso_contig.py', 'src/guidelines/external_diso_contig.py'],
  mech=[('internal filters', 'src/guidelines/internal_*contig.py'), ('external filters', 'src/guidelines/external_*contig.py')],
  observe=['tables returned by the filters'],
  technique='generated candidate tables, per-row oracle on kept and dropped rows', note=ORACLE),
 dict(id='C08', title='Pruning of the beam search keeps exactly the allowed orientations',
  statement='When a laminate is grown ply by ply, the pruning step keeps an orientation if and only if the active disorientation, contiguity, damage-tolerance and middle-ply rules allow it next to the plies already placed. A branch is closed exactly when no orientation is allowed.',
  quant='every growth history, symmetric and asymmetric, with and without middle ply, every rule set, in both optimisers',
  why='no test covers pruning; errors need a particular history near the surface, the mid-plane or a group boundary',
  over=['histories', 'configurations'],
  files=['src/BELLA/pruning.py', 'src/LAYLA_V02/pruning.py', 'src/BELLA/ply_order.py'],
  mech=[('pruning', 'src/BELLA/pruning.py:pruning_diso_contig_damtol'), ('pruning (single laminate)', 'src/LAYLA_V02/pruning.py')],
  observe=['orientations returned by the pruning step'],
  technique='random growth histories, online oracle on every kept and discarded orientation', note=ORACLE),
 dict(id='C09', title='Ply-drop spacing and covering verdicts are exact',
  statement='The spacing penalty of a ply-drop layout is zero exactly when no two successive drops are closer than the minimum spacing at any boundary, and otherwise counts the close pairs weighted by boundary. A structure is accepted exactly when covering plies extend over all panels and, if spacing is active, no close pair exists.',
  quant='every nested layout over any connected structure, partly or fully designed, any split into groups',
  why='no test covers ply-drop rules',
  files=['src/guidelines/ply_drop_spacing.py', 'src/BELLA/multipanels.py'],
  mech=[('spacing penalty', 'src/guidelines/ply_drop_spacing.py'), ('acceptance', 'src/guidelines/ply_drop_spacing.py / src/BELLA')],
  observe=['penalties and exceptions'],
  technique='generated layouts, online oracle on penalties and verdicts', note=ORACLE),
 dict(id='C10', title='Stacking-sequence tables, ply lists and positions stay consistent',
  statement='Converting between ply-drop layouts, stacking-sequence tables, per-panel ply lists and through-thickness positions loses nothing: every panel keeps its number of plies, every kept ply its orientation and relative order, and converting back gives the original. Redesigning the reference panel changes exactly the plies it contains.',
  quant='every nested blending strip and guide laminate',
  why='no test covers the conversions',
  files=['src/BELLA/format_pdl.py', 'src/BELLA/pdl_tools.py', 'src/BELLA/reduced_multipanels.py'],
  mech=[('conversions', 'src/BELLA/format_pdl.py'), ('ply positions', 'src/BELLA/pdl_tools.py')],
  observe=['returned tables'],
  technique='round trips over generated strips, online oracle on every cell', note=ORACLE),
 dict(id='C11', title='A structure maps onto its blending strip without losing anything',
  statement='The blending strip of a structure has one panel per distinct thickness in increasing order, each panel of the structure mapped to the one with its thickness, and boundaries, boundary weights and panel weightings aggregated accordingly. Disconnected, duplicated, inconsistently weighted or symmetric-incompatible structures are refused, and weights equal density x area x plies.',
  quant='every connected structure of panels, any IDs and neighbour lists, any reference thickness; every defective structure',
  why='no test covers multi-panel structures',
  over=['inputs', 'configurations'],
  files=['src/BELLA/multipanels.py', 'src/BELLA/reduced_multipanels.py', 'src/BELLA/panels.py'],
  mech=[('mapping', 'src/BELLA/multipanels.py:from_mp_to_blending_strip'), ('weightings', 'src/BELLA/reduced_multipanels.py')],
  observe=['attributes of the structure and its strip'],
  technique='generated structures, online oracle on the mapping and on refusals', note=ORACLE),
 dict(id='C12', title='Plies are partitioned into groups within size limits, nested across panels',
  statement='Plies are partitioned into the fewest groups within the size limits (inner groups the larger), consecutive and covering every ply; a laminate with no such partition is refused. Each thinner panel drops plies from every group roughly in proportion to group size, never fewer than a thicker panel does. Plies are ordered from the surfaces to the mid-plane.',
  quant='every laminate and structure, every pair of group-size limits, symmetric or not, with any covering',
  why='no test covers partitioning; arithmetic errors need particular thickness and limit combinations',
  over=['inputs', 'configurations'],
  files=['src/BELLA/divide_panels.py', 'src/BELLA/ply_order.py', 'src/LAYLA_V02/divide_laminate_sym.py', 'src/LAYLA_V02/divide_laminate_asym.py', 'src/LAYLA_V02/ply_order.py'],
  mech=[('partition', 'src/BELLA/divide_panels.py:divide_panels'), ('partition of a single laminate', 'src/LAYLA_V02/divide_laminate_*.py'), ('ply order', 'src/BELLA/ply_order.py:calc_ply_order')],
  observe=['group sizes, positions, drops per group and ply order, refusals'],
  technique='generated structures and limits, online oracle on every group', note=ORACLE),
 dict(id='C13', title='Initial ply-drop layouts are manufacturable and the best of those explored',
  statement='Every initial ply-drop layout keeps each panel at its number of plies, nests thinner panels in thicker ones, never drops a covering ply, and is symmetric with its middle ply when required. Layouts returned are distinct, at most as many as asked, those without spacing penalty first, and none that was drawn with a smaller penalty is discarded. Layouts read from a file are those in the file, and wrong sizes are refused.',
  quant='every structure, number of layouts asked and time limit',
  why='no test covers layout generation, which is random and timed',
  over=['inputs', 'configurations', 'schedules'],
  files=['src/BELLA/pdl_ini.py', 'src/BELLA/pdl_group.py', 'src/BELLA/pdl_tools.py', 'src/guidelines/ply_drop_spacing.py'],
  mech=[('initial layouts', 'src/BELLA/pdl_ini.py:create_initial_pdls'), ('random layout of a group', 'src/BELLA/pdl_group.py:randomly_pdl_guide'), ('layouts from a file', 'src/BELLA/pdl_ini.py:read_pdls_excel')],
  observe=['layouts drawn and layouts returned'],
  technique='virtual-clock runs, draws recorded, offline check of returned against drawn layouts', note=ORACLE),
 dict(id='C14', title='Ply contributions add up to the lamination parameters of the laminate',
  statement='The moments of area and lamination-parameter contributions tabulated per ply (or pair of symmetric plies) are non-negative weights that sum to one over the laminate and, summed over the plies of any stacking sequence in the tabulated order, give its in-plane, coupling and out-of-plane lamination parameters.',
  quant='every thickness, symmetric or not, with and without middle ply, every panel of a structure',
  why='no test covers the tables on which the whole search relies',
  files=['src/BELLA/moments_of_areas.py', 'src/LAYLA_V02/moment_of_areas.py', 'src/BELLA/lampam_matrix.py'],
  mech=[('moments of areas', 'src/*/moment*_of_areas.py'), ('contributions', 'src/BELLA/lampam_matrix.py')],
  observe=['tables of contributions'],
  technique='random stacks summed through the tables, exact oracle', note=ORACLE),
 dict(id='C15', title='Objectives equal the weighted distance to the targets times penalties',
  statement='The objective of a panel is the weighted squared distance between its lamination parameters and its targets: zero exactly when every weighted parameter is on target, and independent of unweighted parameters. The constrained objective multiplies it by one plus the penalties scaled by their coefficients, and the objective of a structure sums its panels by weighting plus the ply-drop spacing penalty, whether all panels or only some are designed.',
  quant='every set of lamination parameters, targets, weightings, coefficients and penalties, any number of panels',
  why='no test covers the objective functions',
  files=['src/BELLA/objectives.py', 'src/BELLA/obj_function.py', 'src/LAYLA_V02/objectives.py'],
  mech=[('panel objective', 'src/BELLA/objectives.py:calc_obj_one_panel'), ('structure objective', 'src/BELLA/objectives.py:calc_obj_multi_panel'), ('coefficients', 'src/BELLA/obj_function.py')],
  observe=['objective values'],
  technique='generated inputs, exact oracle on every value', note=ORACLE),
 dict(id='C16', title='Balance and 10% repair reaches the rules by changing innermost plies only',
  statement='Repairing a laminate for balance and the 10% rule keeps its size, symmetry and allowed orientations, and gives a laminate that satisfies both rules (10% rule in ply-percentage or lamination-parameter form) whenever its number of plies permits. Only innermost plies change, the others stay in place; a laminate that already satisfies the rules keeps its plies. The plies left undetermined are as many as the plies queued, and queue and stack give the lamination parameters of the result. Minimum ply counts are sufficient and not larger than needed. The repair always ends.',
  quant='every stack, symmetric with or without middle ply or asymmetric, every combination of the two rules and percentages',
  why='no test covers the repair; particular counts at the minima and odd laminates are needed',
  over=['inputs', 'configurations'],
  files=['src/RELAY/repair_10_bal.py'],
  mech=[('repair', 'src/RELAY/repair_10_bal.py:repair_10_bal'), ('minimum ply counts', 'src/RELAY/repair_10_bal.py:calc_mini_10'), ('lamination parameters of stack and queue', 'src/RELAY/repair_10_bal.py:calc_lampamA_ply_queue')],
  observe=['repaired stack and ply queue'],
  technique='generated stacks, online oracle on every repaired laminate, loop budget for endless repairs', note=ORACLE),
 dict(id='C17', title='Disorientation and contiguity repair permutes plies, reports success truly',
  statement='Repairing a laminate for disorientation and contiguity only permutes its plies (with those queued): size, ply counts, symmetry, middle ply and damage-tolerance surface plies are kept. When it reports success the laminate satisfies both rules; a laminate that already does is returned unchanged as a success. Failure is reported only when neither of its two searches has a solution: from the surfaces inwards, then from the middle outwards, each position takes the first remaining ply that the rules allow next to those placed (a queued ply closest to the adjacent orientation) and the last n_D1 plies the first permutation that the rules allow. From a list of candidates, the first that can be repaired is returned with its index, and otherwise the attempt on the first one, marked failed.',
  quant='every stack with or without queued plies, symmetric or not, every contiguity and disorientation limit, damage-tolerance variant and look-ahead',
  why='no test covers the repair; violations at the joint of inner and outer plies need particular textures',
  over=['inputs', 'configurations'],
  files=['src/RELAY/repair_diso_contig.py', 'src/RELAY/repair_diso_contig_tools.py', 'src/RELAY/repair_from_outside_sym.py', 'src/RELAY/repair_from_outside_asym.py', 'src/RELAY/repair_from_inside_sym.py', 'src/RELAY/repair_from_inside_asym.py'],
  mech=[('repair', 'src/RELAY/repair_diso_contig.py:repair_diso_contig'), ('first success of a list', 'src/RELAY/repair_diso_contig.py:repair_diso_contig_list')],
  observe=['returned stack and completion flags'],
  technique='generated stacks and queues, online oracle on every result, both searches re-run by an independent evaluator, differential check of the list against single repairs', note=ORACLE),
 dict(id='C18', title='Membrane repair only makes permitted changes and never moves away from target',
  statement='The repair for membrane properties returns the successive designs from best to the initial one. In every design the size, symmetry, number of queued plies, allowed fibre orientations, balance and 10% rule (ply counts or lamination-parameter form) and surface plies are kept, no ply outside the innermost percentage p_A changes, and the innermost plies of an orientation change first. The in-plane lamination parameters listed with a design are its own, the weighted distance to the target never increases from one design to the next, and the search stops only when no permitted change brings the laminate closer. With the repair switched off or all in-plane coefficients null, only the initial laminate is returned.',
  quant='every stack with or without queued plies, target, weighting, percentage of thickness, with or without symmetry, balance and either form of the 10% rule',
  why='tests cover none of the four repair variants; a change violating the 10% rule needs ply counts at their minima',
  over=['inputs', 'configurations'],
  files=['src/RELAY/repair_membrane.py', 'src/RELAY/repair_membrane_1_ipo.py', 'src/RELAY/repair_membrane_1_no_ipo.py', 'src/RELAY/repair_membrane_1_ipo_Abdalla.py', 'src/RELAY/repair_membrane_1_no_ipo_Abdalla.py'],
  mech=[('dispatch', 'src/RELAY/repair_membrane.py:repair_membrane'), ('balanced laminates', 'src/RELAY/repair_membrane_1_ipo.py:repair_membrane_1_ipo'), ('other laminates', 'src/RELAY/repair_membrane_1_no_ipo.py:repair_membrane_1_no_ipo')],
  observe=['lists of stacks, ply queues, lamination parameters and objectives'],
  technique='generated stacks, trace checker over the returned sequence of designs, local-optimality oracle at its end', note=ORACLE),
 dict(id='C19', title='Flexural repair permutes plies, keeps the rules and never moves away from target',
  statement='The repair for flexural properties only permutes the plies of the laminate: symmetry, middle ply and damage-tolerance surface plies are kept, and a laminate satisfying the disorientation and contiguity rules still satisfies them. The weighted distance of the out-of-plane lamination parameters to their target never increases, each step retains the best of the exchanges or shifts that it tries, and exchanging its two innermost plies cannot improve it. With the repair switched off or all out-of-plane coefficients null the laminate is unchanged, and counting objective-function evaluations does not alter the result.',
  quant='every feasible or infeasible stack, target, weighting, block size, symmetric or not, every combination of rules',
  why='tests cover none of the repair steps; index errors only show for particular block sizes and plies',
  over=['inputs', 'configurations'],
  files=['src/RELAY/repair_flexural.py', 'src/RELAY/repair_flexural_1.py', 'src/RELAY/repair_flexural_2.py', 'src/RELAY/repair_flexural_3.py', 'src/RELAY/repair_flexural_tools.py'],
  mech=[('three steps', 'src/RELAY/repair_flexural.py:repair_flexural'), ('block exchanges', 'src/RELAY/repair_flexural_1.py:repair_flexural_1'), ('re-ordering', 'src/RELAY/repair_flexural_3.py:repair_flexural_3')],
  observe=['returned stack and number of evaluations'],
  technique='generated stacks, online oracle on every result (multiset, rules, distance against an independent evaluator)', note=ORACLE),
 dict(id='C20', title='Single-laminate repair succeeds only with a laminate obeying every active rule',
  statement='Repairing a single laminate either reports success with a laminate of the same size, from the allowed fibre orientations, that satisfies every active rule (symmetry, balance, 10% rule, disorientation, contiguity, and damage tolerance if the initial laminate did), or reports failure and returns the initial laminate. Its distance to the in-plane target is never worse than that of the laminate repaired for balance and the 10% rule only, nor than that of an initial laminate that satisfied all rules; an out-of-plane distance of such a laminate does not worsen either when the in-plane repair is off. A feasible laminate with both property repairs off is returned unchanged. The objective value returned is that of the repaired laminate (1e10 after a failure), the arguments are unmodified and the optional outputs do not change the result.',
  quant='every stack, symmetric or not, with or without middle ply, every combination of rules, limits, percentages, targets and repair settings of BELLA or LAYLA',
  why='tests do not call the repair; the steps are each valid alone but undo one another on particular stacks',
  over=['inputs', 'configurations', 'histories'],
  files=['src/RELAY/repair_ss.py', 'src/RELAY/repair_10_bal.py', 'src/RELAY/repair_membrane.py', 'src/RELAY/repair_diso_contig.py', 'src/RELAY/repair_flexural.py'],
  mech=[('pipeline', 'src/RELAY/repair_ss.py:repair_ss')],
  observe=['returned stack, success flag, objective and evaluation count'],
  technique='generated stacks through the whole pipeline, independent rule checker and lamination-parameter evaluator as online oracle', note=ORACLE),
 dict(id='C21', title='Multi-panel repair yields blended rule-abiding panels, best of those searched',
  statement='Repairing a multi-panel design reports success only with one laminate per thickness of the blending strip, of the right size and symmetry, such that every thinner panel keeps a subset of the plies of every thicker one (nested blending), the covering plies run through all panels, and the ply-drop layout returned is that of the laminates. The reference panel is the laminate that the single-laminate repair gives for it, obeys every active rule, and is not altered afterwards. Thinner and thicker panels obey contiguity, the 10% rule and damage tolerance (thicker ones disorientation too) and are at most one ply (pair of plies) away from balance. Candidates are kept according to their ply-drop spacing then their objective: with unlimited nodes the designs of the thinner (thicker) panels are the best of all admissible ones and failure is reported only if there is none. The failure code tells the step that failed.',
  quant='every structure, initial ply-drop layout, guide laminate, reference panel, combination of rules, targets, weightings and node limits (symmetric structures: panels all with or all without middle ply)',
  why='tests do not call the repair; errors need several panels, several ply drops and pruning at once',
  over=['inputs', 'configurations', 'histories'],
  files=['src/RELAY/repair_mp.py', 'src/RELAY/repair_reference_panel.py', 'src/RELAY/thick_to_thin.py', 'src/RELAY/thin_to_thick.py', 'src/BELLA/reduced_multipanels.py', 'src/BELLA/format_pdl.py'],
  mech=[('steps', 'src/RELAY/repair_mp.py:repair_mp'), ('reference panel', 'src/RELAY/repair_reference_panel.py:repair_reference_panel'), ('thinner panels', 'src/RELAY/thick_to_thin.py:repair_thick_to_thin'), ('thicker panels', 'src/RELAY/thin_to_thick.py:repair_thin_to_thick')],
  observe=['stacks, stacking sequence tables, ply-drop layout, success flag and failure code'],
  technique='generated structures through the whole multi-panel repair, online oracle (blending, rules, reference panel against the single-laminate repair), enumeration of all designs of small structures for optimality and failures', note=ORACLE),
 dict(id='C22', title='The optimiser returns the best of its searches, blended and consistent',
  statement='A run of BELLA_optimiser on a structure explores the requested ply-drop layouts and returns the one whose objective is the lowest; its laminates (one per panel, of the requested size), its stacking sequences with ply drops, lamination parameters, ply counts and percentages, penalties and objective all describe the same design and equal what is recomputed from the laminates. The designs entering the repair have the layout being explored (every thinner panel is a subset of every thicker one) and a guide laminate that obeys the rules the search enforces; they are those of a beam search in the documented order with the requested node limits: with unlimited nodes none of the admissible designs is better. When the repair fails the objective is marked as failed, never reported as a success; with save_success_rate failed designs are discarded. A run leaves the definitions it was given fit for another: run again after other optimisations, it yields the same designs. The returned design of a successful run obeys the rules as the repair guarantees. The numbers of calls, of designs tried and of successful repairs are those of the run.',
  quant='every structure, combination of rules, targets, weightings, group sizes, node limits, number of layouts and random seed',
  why='no test runs the optimiser; errors need several layouts, failed repairs, or node limits to be active',
  over=['inputs', 'configurations', 'histories'],
  files=['src/BELLA/optimiser.py', 'src/BELLA/optimiser_with_one_pdl.py', 'src/BELLA/results.py', 'src/BELLA/pruning.py', 'src/BELLA/ply_order.py', 'src/BELLA/moments_of_areas.py', 'src/BELLA/objectives.py', 'src/BELLA/lampam_matrix.py'],
  mech=[('optimiser', 'src/BELLA/optimiser.py:BELLA_optimiser'), ('beam search of one layout', 'src/BELLA/optimiser_with_one_pdl.py:BELLA_optimiser_one_pdl'), ('results', 'src/BELLA/results.py:BELLA_Results'), ('pruning', 'src/BELLA/pruning.py')],
  observe=['BELLA_Results fields', 'designs and layouts entering the multi-panel repair'],
  technique='whole optimisations of generated structures with the multi-panel repair tapped, online oracle on designs and results, an independent reference beam search and enumeration of all guides of small structures', note=ORACLE),
 dict(id='C23', title='Buckling factors equal the closed-form critical load of the plate',
  statement='The buckling factor returned for a simply-supported plate is the smallest over the buckling modes of the closed-form solution for its bending stiffnesses, whether computed from a stacking sequence or from lamination parameters. It scales inversely with the loads and linearly with the stiffnesses, and the buckling margin is positive exactly when the factor is above one.',
  quant='every laminate, plate dimensions, load case and material',
  why='no test covers buckling',
  files=['src/buckling/buckling.py'],
  mech=[('buckling factor', 'src/buckling/buckling.py')],
  observe=['buckling factors and margins'],
  technique='generated plates, closed-form oracle integrated ply by ply; scaling relations', note=ORACLE),
 dict(id='C24', title='Lamina properties: invariants and densities consistent, ill-formed refused',
  statement='The material invariants and rotated stiffnesses of a lamina equal those of classical lamination theory, area and volume densities agree through the ply thickness whichever of the two is given, and definitions with negative or non-numeric properties are refused.',
  quant='every set of lamina properties',
  why='no test covers materials',
  files=['src/BELLA/materials.py', 'src/LAYLA_V02/materials.py'],
  mech=[('properties', 'src/BELLA/materials.py'), ('properties (single laminate)', 'src/LAYLA_V02/materials.py')],
  observe=['attributes of the material and refusals'],
  technique='generated lamina, oracle from the rotated stiffness matrix', note=ORACLE),
 dict(id='C25', title='Definitions of rules, settings and panels mean what the user asked',
  statement='Rules, fibre orientations, optimiser settings, panels and targets are accepted exactly when well-formed, and then mean what was asked: derived orientation tables match the set, percentages the rule, damage tolerance forces enough covering plies, and targets and weightings are filtered and normalised according to the rules of symmetry, balance and orthotropy, without altering what the user gave. Settings not given take their announced defaults.',
  quant='every definition, well-formed or not',
  why='no test covers the definitions on which all rules rely',
  over=['inputs', 'configurations'],
  files=['src/BELLA/constraints.py', 'src/BELLA/parameters.py', 'src/BELLA/panels.py', 'src/LAYLA_V02/constraints.py', 'src/LAYLA_V02/parameters.py', 'src/LAYLA_V02/targets.py'],
  mech=[('rules', 'src/*/constraints.py'), ('settings', 'src/*/parameters.py'), ('weightings and targets', 'src/BELLA/panels.py:filter_lampam_weightings / filter_target_lampams')],
  observe=['attributes of the definitions and refusals'],
  technique='generated definitions, valid or with one ill-formed value; oracle on every attribute', note=ORACLE),
 dict(id='C26', title='Workbooks state the set-up and designs as they are',
  statement='The workbooks written by an optimisation, or by the set-up writers, hold the rules, material and its derived constants, parameters, objective, structure (panels, neighbours, loads, targets, weightings, areas, weights) that were used, and for each explored layout and for the best one, panel by panel, the laminate, its ply counts, percentages, lamination parameters, errors, penalties, orthotropy indices, buckling factor and objective, as recomputed from the laminate. Layouts without design have no table; the best table is the design returned. Optional material properties are absent when no material is given. Set-ups read back by the repository scripts that run the optimiser give the optimiser the same problem, and ply-drop layouts read from workbooks are those written, used as such, and refused when they have a wrong number of panels or plies. Set-ups of single laminates (LAYLA) likewise state the rules, those waived for comparison, the material and the parameters as used. The repository scripts run on the repository data.',
  quant='every structure, combination of rules, material, settings and layouts',
  why='tests do not write workbooks; a wrong column or row is silent and only shows for particular structures (panels of several thicknesses, several layouts, no material)',
  over=['inputs', 'configurations'],
  files=['src/BELLA/save_set_up.py', 'src/LAYLA_V02/save_set_up.py', 'src/BELLA/save_result.py', 'src/divers/excel.py', 'src/BELLA/pdl_ini.py', 'src/BELLA/optimiser.py', 'run_BELLA_from_input_file_SST_1.py', 'run_BELLA_from_input_file_horseshoe.py', 'input-files/create_input_file_SST.py', 'FXI-results/format_restults_FXI_SST_1.py'],
  mech=[('set-up', 'src/BELLA/save_set_up.py'), ('results', 'src/BELLA/save_result.py:save_result_BELLAs'), ('layouts', 'src/BELLA/pdl_ini.py:read_pdls_excel'), ('scripts', 'run_BELLA_from_input_file_SST_1.py')],
  observe=['cells of the workbooks', 'arguments given to the optimiser by the scripts'],
  technique='workbooks of generated optimisations and set-ups read back cell by cell by an independent reader and recomputed; scripts of the repository run in a scratch folder with a capturing stand-in for the optimiser', note=ORACLE),
 dict(id='C27', title='Maxima, custom orderings and workbook writing do what they announce',
  statement='The element-wise maximum of two arrays (or array and scalar) is exact and incompatible sizes are refused. Custom sorting puts listed values first, in the order of the list, then the others in increasing order, and loses none. Writing tables to a workbook puts every cell where asked, appends without overwriting other data or sheets, replaces only the sheets asked, and widens columns to their contents; an existing result file is deleted only on confirmation.',
  quant='every pair of arrays, every order, every sequence of writings',
  why='the array tests sample two pairs; no test writes a workbook',
  over=['inputs', 'histories'],
  files=['src/divers/arrays.py', 'src/divers/sorting.py', 'src/divers/excel.py'],
  mech=[('maxima', 'src/divers/arrays.py:max_arrays'), ('ordering', 'src/divers/sorting.py:sortAccording'), ('workbooks', 'src/divers/excel.py')],
  observe=['returned arrays and orders, cells read back from the workbooks'],
  technique='generated inputs and sequences of writings in a temporary folder, offline comparison of the cells read back with a log of the writings', note=ORACLE),
 dict(id='C28', title='LAYLA returns the best single laminate that its search found',
  statement='For one laminate, the ply-by-ply search of LAYLA explores, group of plies after group and outer step after outer step, the orientations allowed by the rules, keeps the best partial laminates within the node limits (with the lamination parameters of the plies not yet known taken from the previous outer step), sends every complete laminate to the repair, and returns the laminate of lowest objective (penalties included) among those repaired in all the steps. It has the ply count asked, obeys every active rule, and its lamination parameters, objective and counts of designs, for each step and for the result, are those of that laminate; the steps stop early only when the laminate no longer changes or meets its target. Without limits every allowed laminate is explored, and a refusal means that there is none. Rules, settings and targets serve unchanged for a second run, which yields the same laminates.',
  quant='every set of rules, target, weighting, settings, and number of plies',
  why='no test runs the single-laminate optimiser',
  over=['inputs', 'configurations'],
  files=['src/LAYLA_V02/optimiser.py', 'src/LAYLA_V02/outer_step_sym.py', 'src/LAYLA_V02/outer_step_asym.py', 'src/LAYLA_V02/beam_search.py', 'src/LAYLA_V02/results.py', 'src/LAYLA_V02/pruning.py', 'src/guidelines/ipo_oopo.py'],
  mech=[('outer steps', 'src/LAYLA_V02/optimiser.py:LAYLA_optimiser'), ('search of a ply group', 'src/LAYLA_V02/beam_search.py:beam_search'), ('objective', 'src/LAYLA_V02/outer_step_asym.py')],
  observe=['laminates sent to and back from the repair, results of each outer step, laminate returned'],
  technique='whole optimisations of generated laminates with the repair tapped, online oracle on designs and results, an independent reference search and enumeration of all laminates of few plies', note=ORACLE),
]
