import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
A='alipy/'
p('C01','Index collections behave as duplicate-free sets under every history',
 'After any sequence of constructing, adding, discarding, updating, subtracting and clearing, an index collection holds exactly the elements a mathematical set would hold under the same operations, and its length, membership, iteration and exposed list agree with each other and keep insertion order. Adding a present element or discarding an absent one changes nothing, an element of another type is rejected leaving the collection unchanged, and copies and exposed lists share no state with the original. Random sampling returns the requested fraction of distinct members and does not change the collection; translating whole-data indexes into positions within the training set maps every element to the position holding it.',
 ['histories','inputs'],'all operation sequences over integer, string, float and tuple elements, including numpy scalars, self-arguments and bulk arguments of every accepted container type',
 'The tests exercise a dozen fixed calls on small integer collections; a set is only right if it stays right after every history, for every element type and every aliasing of arguments.',
 [A+'index/index_collections.py',A+'utils/interface.py'],
 [('add/discard/update/difference_update keep elements unique',A+'index/index_collections.py IndexCollection'),('random_sampling, map_whole_index_to_train',A+'index/index_collections.py')],
 [('element container','the ordered unique elements',A+'index/index_collections.py IndexCollection.__init__')],['return values, len, in, iteration, .index'])
p('C02','Multi-label index collections equal sets of (instance, label) pairs',
 'A multi-label (or feature) index collection, under any history of adding, discarding, updating and subtracting whole-instance, single-pair and multi-pair keys, holds exactly the set of (instance, label) pairs those keys denote, never one outside its label range. Its instance list, its fully and partially covered instance lists, its one-dimensional positions in either memory order and its boolean, weighted or sparse matrix mask all describe that same set. Rebuilding a collection from the one-dimensional positions or from the element mask gives back the same set.',
 ['histories','inputs'],'all operation sequences and key shapes ((i,), (i,j), (i,(j,k))) over all label counts, both orders, every sparse format and fill value',
 'The tests check a handful of conversions on one 3-by-4 example; the encodings must agree for every set, shape and history.',
 [A+'index/index_collections.py',A+'index/multi_label_tools.py'],
 [('whole-instance keys are decomposed into pairs',A+'index/index_collections.py MultiLabelIndexCollection.add/discard'),('construct_by_1d_array, construct_by_element_mask, get_matrix_mask, get_onedim_index',A+'index/index_collections.py')],
 [('pair container','the set of (instance,label) pairs and the label count',A+'index/index_collections.py MultiLabelIndexCollection')],['.index, len, in, get_* results'])
p('C03','Multi-label index tools agree with the pairs the index denotes',
 'Flattening an arbitrary multi-label index gives exactly the pairs it denotes, integrating it groups those pairs per instance (a complete row becoming a bare instance key), and the two are inverse to each other as sets. Retrieving labels (and features) by such an index returns one row per instance in first-mention order, holding the true value at every indexed entry and the unknown marker everywhere else, and never modifies the source matrices. The inferred label count is one more than the largest label mentioned, malformed keys are rejected, and no label outside the range ever comes out.',
 ['inputs'],'all lists/arrays/collections of (i,), (i,j), (i,(j,...)) keys with repetitions, over all label counts and data matrices',
 'The tests cover a few fixed indexes; agreement between five functions over all mixtures and repetitions of key shapes is an input-universal claim.',
 [A+'index/multi_label_tools.py'],[('flattern_multilabel_index/integrate_multilabel_index/get_labelmatrix_in_multilabel/get_Xy_in_multilabel',A+'index/multi_label_tools.py')],(),['return values'])
p('C04','Data splits are partitions with the requested sizes',
 'For every data-set size, ratio and split count, each fold divides the data into disjoint train and test parts that together cover it, and divides the training instances (or, for feature splits, the training entries) into disjoint initially-labeled and unlabeled parts that together cover them, with sizes following the requested ratios. When all classes (labels, features) are requested, each one occurs in the initial labeled part of every fold, and rates too small for that are rejected rather than looping. Caller-supplied instance names appear in the splits in place of positions, and the given data are not modified.',
 ['inputs','configurations'],'all instance/label/feature counts, test ratios, initial label rates, split counts, option flags, instance names and random seeds',
 'Tests split one data set of fixed size with fixed ratios; partition and minimum guarantees must hold for every size, ratio and random draw, including the redraw paths that are seldom taken.',
 [A+'data_manipulate/al_split.py',A+'utils/misc.py'],[('split, split_multi_label, split_features',A+'data_manipulate/al_split.py'),('redraw until all classes / minimum known entries',A+'data_manipulate/al_split.py')],(),['returned index lists'])
p('C05','Saved splits load back identically',
 'Saving the folds of any split to a folder and loading them back yields exactly the same train, test, labeled and unlabeled index lists, for single-label, multi-label and feature splits, any number of folds (including one) and equal or unequal fold lengths. Saving a second split over an earlier one never yields a mixture of the two on load.',
 ['inputs','histories'],'all split shapes, fold counts and sequences of saves into the same folder',
 'Tests save one regular 10-fold split; raggedness, single folds and overwriting are different storage paths.',
 [A+'data_manipulate/al_split.py'],[('split_load and the saving code of split*',A+'data_manipulate/al_split.py')],(),['files written and lists loaded'])
p('C06','Single-label strategies only ever select distinct unlabeled instances',
 'Every instance-selection strategy, for any data, any label/unlabel sets given as list, array or index collection, and any batch size, returns distinct members of the given unlabeled set, exactly min(batch, size of the unlabeled set) of them, and a random strategy can return any of them. A selection never modifies the caller\'s index sets, data, labels or supplied prediction matrices, so repeating a deterministic selection on the same state returns the same instances. The guarantee holds at every round of a query loop that moves the selected instances to the labeled set until the pool is exhausted.',
 ['inputs','histories','configurations'],'all strategies (uncertainty measures, committee measures, error reduction, QUIRE, graph density, density weighted, core-set, random), pool states, batch sizes and container types',
 'Example tests run a strategy on one data set with batch size 1 and look only at whether it finishes.',
 [A+'query_strategy/query_labels.py',A+'query_strategy/base.py'],[('select / select_by_prediction_mat / nlargestarg',A+'query_strategy/query_labels.py'),('nlargestarg, nsmallestarg, randperm',A+'utils/misc.py')],(),['return values; caller-owned arguments before and after'])
p('C07','Strategies pick the instances their documented measure ranks best',
 'Uncertainty sampling (least confident, margin, entropy, distance to boundary), committee disagreement (vote entropy, KL divergence), expected error reduction, core-set greedy, density-weighted, graph-density and QUIRE selection each return a set of instances that no unselected candidate strictly beats under the measure the strategy documents, evaluated on the same model predictions. Selecting from a supplied prediction matrix agrees with selecting through a model that produces that matrix. The reported scores order the pool consistently with the definition, and neither depends on the sets the same strategy object was used on before, nor on whether it was copied or pickled.',
 ['inputs'],'all prediction matrices (including zeros, ties and one-column/two-column forms), committees, feature geometries and batch sizes',
 'No test compares a selected instance with the definition; any sign, axis or index mapping slip still yields a plausible instance from the pool.',
 [A+'query_strategy/query_labels.py'],[('per-strategy score and ranking',A+'query_strategy/query_labels.py')],(),['select/select_by_prediction_mat results'])
p('C08','Multi-label strategies select distinct unlabeled pairs of the requested kind',
 'Every multi-label strategy returns well-formed distinct keys, each denoting only (instance, label) entries that are in the given unlabeled set, of the requested kind (whole instance or single pair) and in the requested number when available, and random strategies can select any eligible candidate. Selecting leaves the caller\'s labeled and unlabeled collections and data unchanged. Moving the selected entries from the unlabeled to the labeled collection round after round keeps the two disjoint with constant union until the pool is exhausted.',
 ['inputs','histories'],'all multi-label strategies, data shapes, partially labeled pool states and batch sizes',
 'Example scripts run a few fixed rounds without checking the selection.',
 [A+'query_strategy/multi_label.py'],[('select of QueryMultiLabelQUIRE/AUDI/MMC/Adaptive/Random',A+'query_strategy/multi_label.py'),('_check_multi_label_ind, get_Xy_in_multilabel',A+'query_strategy/base.py')],(),['select results; caller-owned collections'])
p('C09','Feature queries are unobserved entries and completion keeps observed values',
 'Feature-querying strategies return distinct (instance, feature) entries taken from the given unobserved set, in the requested number when available, and do not modify the caller\'s collections or data. Matrix completion returns a finite matrix of the input\'s shape in which every observed entry keeps its observed value (to the method\'s documented tolerance), and the outcome depends only on the observed entries, never on the hidden true values. A variance-based query picks the entry its documented score ranks best, whatever entries the strategy was asked about before, and a random query can pick any unobserved entry.',
 ['inputs','histories'],'all data matrices, observation masks, rounds of observing, and batch sizes',
 'Example scripts run one data set; leakage of hidden values or of already observed entries does not fail any of them.',
 [A+'query_strategy/query_features.py'],[('AFASMC_mc, AFASMC_mask_mc, IterativeSVD_mc, QueryFeature*',A+'query_strategy/query_features.py')],(),['completion outputs, select results'])
p('C10','Cost-sensitive selection respects the budget and finds the promised optimum',
 'Cost-sensitive strategies return distinct unlabeled (instance, label) entries whose total cost never exceeds the given budget, and the exact knapsack solver returns a subset of maximum total worth among all subsets within the capacity while the evolutionary solver returns a feasible subset no worse than the empty one. Marking hierarchical labels propagates positive labels to all ancestors and negative labels to all descendants, and changes nothing else. Selecting does not modify the caller\'s collections, costs or labels, and its result is that of the labeled set it is given, whichever sets the strategy object served before.',
 ['inputs','histories'],'all item worths/costs/budgets, label trees, pool states and cost vectors',
 'Tests run the solvers on one instance and print the result; optimality and budget feasibility are claims over all instances.',
 [A+'query_strategy/cost_sensitive.py'],[('select_Knapsack_01, select_POSS, hierarchical_multilabel_mark',A+'query_strategy/cost_sensitive.py')],(),['solver outputs; select results'])
p('C11','Noisy-oracle strategies query valid pairs and vote aggregation is a plurality',
 'Noisy-oracle strategies return an unlabeled instance together with a non-empty set of distinct oracles from the given pool, whatever the pool size, and do not modify the caller\'s index sets. Majority voting over any set of answers returns a label that no other label outvotes (by count, or by total weight when weights are given) and leaves the repository of each oracle\'s answers consistent. Collecting results asks each selected oracle exactly once about exactly the requested instance and reports its true answer and cost, and the pair a strategy documents as best (CEAL\'s Q, least confident instance, IEthresh\'s threshold set) is the one returned.',
 ['inputs','histories'],'all answer vectors, oracle pools, pool sizes and rounds',
 'Example scripts only check the loop ends; votes with ties, weights, strings or single-instance pools are never asserted.',
 [A+'query_strategy/noisy_oracles.py'],[('majority_vote, get_query_results, get_majority_vote',A+'query_strategy/noisy_oracles.py')],(),['returned instances, oracle names, votes'])
p('C12','Oracles answer with the truth, in order, at the right cost, and record history',
 'An oracle queried by any list of indexes (or examples) it knows returns, in the order asked, exactly the stored label and cost of each, and an index it does not know is answered as missing or rejected but never with another item\'s label. A multi-label or feature oracle returns exactly the requested entries. A named set of oracles routes each query to the named oracle only, and its recorded history and accumulated cost equal the sum of what was successfully answered, also after rejected queries.',
 ['inputs','histories'],'all label/cost tables, index names, query lists with repetitions and unknowns, add-knowledge steps and oracle sets',
 'Tests query a few known indexes; order, unknowns, costs and conservation across long mixed histories are not reached.',
 [A+'oracle/oracle.py'],[('Oracle.query_by_index/example, add_knowledge, Oracles.query_from, cost_inall, query_history',A+'oracle/oracle.py')],(),['query return values, cost and history'])
p('C13','Knowledge repositories return what was added last, and only that',
 'After any sequence of adding, overwriting, discarding, clearing and retrieving, a knowledge repository retrieves for each stored index exactly its own label and instance (the last one added; the matrix form instead keeps the first and warns), retrieves for each stored example its label, reports exactly the stored indexes, and its training export pairs each instance with its own label. The element and matrix representations give the same answers to the same history of distinct indexes, and rejected entries leave them unchanged. Accumulated cost and query history never lose or invent an entry.',
 ['histories','inputs'],'all operation histories over indexes, labels, costs and examples in both representations',
 'Tests run one short fixed history; overwrites, clears and scalar-versus-list forms interact over histories.',
 [A+'oracle/knowledge_repository.py'],[('add/discard/retrieve_by_indexes/retrieve_by_examples/get_training_data/update_query/clear',A+'oracle/knowledge_repository.py')],(),['retrieval results, len, contains'])
p('C14','An experiment log replays to exactly the working state it recorded',
 'An experiment log (per-fold list of query states) with any history of appends, replaces, removals and truncations reports exactly the states it was given, in order, with matching batch size, query count and accumulated cost. Recovering the workspace at any recorded iteration yields labeled and unlabeled sets equal to the initial ones after moving exactly the selections of the iterations before (and including) that point, keeping them disjoint with constant union. Querying, summarising, copying or recovering never alters recorded states, and mutating the caller\'s objects afterwards never alters the log.',
 ['histories'],'all append/replace/remove histories, recovery points, batch sizes, costs, single- and multi-label indexes',
 'Tests recover one three-state log at a couple of points; conservation at every recovery point of every history is the user-facing promise.',
 [A+'experiment/state_io.py',A+'experiment/state.py'],[('add_state, recover_workspace, get_workspace, refresh_info, check_batch_size',A+'experiment/state_io.py'),('State access',A+'experiment/state.py')],(),['recovered indexes, reported counts'])
p('C15','Saved experiment state survives a crash at any point and loads back equal',
 'Saving and loading an experiment log, an experiment environment or a parallel-run record gives back an equal object. If the process dies at any point while saving, the file still loads and holds either the previously saved state or the new one, never a truncated or mixed file. Recovery therefore resumes from the last completed iteration without losing or repeating a query.',
 ['crash_points','fault_sequences','histories'],'every prefix of the file-system operations and bytes of a save, over arbitrary logs and repeated saves',
 'No test interrupts a save; README promises recovery from any breakpoint, which quantifies over crash points.',
 [A+'experiment/state_io.py',A+'utils/multi_thread.py',A+'toolbox.py'],[('save/load',A+'experiment/state_io.py'),('save/recover',A+'utils/multi_thread.py'),('save/load',A+'toolbox.py')],(),['files on disk after an injected crash'])
p('C16','Stopping criteria stop exactly at their documented point',
 'A stopping criterion fed the successive states of a growing experiment log answers "stop" exactly when its documented condition first holds - number of queries, accumulated cost, fraction of the pool labeled, no unlabeled data left, elapsed time - and not before, for any threshold and batch size. Once it holds it stays true until reset, and after a reset it behaves like a fresh one. Checking it never modifies the log.',
 ['histories','configurations'],'all criteria, thresholds, batch sizes, cost sequences and fold switches',
 'Tests try each criterion at one threshold; off-by-one, accumulation and reuse-across-folds errors need histories.',
 [A+'experiment/stopping_criteria.py',A+'experiment/state_io.py'],[('is_stop/update_information/reset',A+'experiment/stopping_criteria.py')],(),['is_stop results'])
p('C17','Parallel folds each run exactly once, within the thread bound, and recover',
 'Running folds in parallel executes every requested fold exactly once with its own index sets, never more than the configured number at the same time, and the call returns only after all have finished, whatever the interleaving. Each fold\'s log holds that fold\'s states only, in that fold\'s order, and results come back in fold order. After an interruption, recovery finishes exactly the unfinished folds from their last saved state, so that the final logs equal those of an uninterrupted run.',
 ['schedules','crash_points','configurations'],'all fold counts, thread bounds, relative speeds and interruption points',
 'The tests run one schedule on one machine and ignore exceptions in worker threads.',
 [A+'utils/multi_thread.py'],[('start_all_threads/recover/save',A+'utils/multi_thread.py')],(),['start/finish events inside the user target, saved files, get_results'])
p('C18','A packaged experiment gives schedule-independent, conserved query histories',
 'For a deterministic strategy, a packaged experiment produces for every fold the same query history and performance whether folds run sequentially or in parallel under any thread interleaving, and the history depends only on that fold\'s split. In every fold each query selects only instances unlabeled at that time, the labeled and unlabeled sets stay a partition of the training set, the recorded performance is that of a model trained on exactly the labeled data, and the loop ends exactly at the configured stopping point. Settings the experiment cannot honour are rejected before running, all others (strategy arguments, metric, criterion, split rates, number of threads) are honoured.',
 ['schedules','configurations','histories'],'all interleavings of folds, strategies, models, stopping criteria and batch sizes',
 'The packaged-experiment test is an example script on one schedule that asserts nothing about the histories.',
 [A+'experiment/al_experiment.py',A+'utils/multi_thread.py'],[('start_query, __al_main_loop',A+'experiment/al_experiment.py')],(),['resulting logs; calls made on a monitored model and strategy'])
p('C19','Performance metrics equal their mathematical definitions',
 'Every provided performance metric (accuracy, zero-one loss, F1, ROC AUC, micro AUC, average precision, Hamming loss, one-error, coverage, label ranking loss and label ranking average precision), for every valid input including ties, single-class columns, sample weights and normalisation flags, returns the value of its textbook definition, within its documented range. Metrics are invariant under permuting the instances and do not modify their inputs, and inputs of mismatched shape are rejected.',
 ['inputs'],'all label and score arrays, weights, shapes and flags',
 'Tests compare a few small arrays against constants; ties, degenerate columns, weights and flags form the input space where metrics go wrong.',
 [A+'metrics/performance.py'],[('metric functions',A+'metrics/performance.py')],(),['return values'])
p('C20','Experiment summaries equal the statistics of the logs they were given',
 'For any set of methods, folds and logs (of equal or different lengths, with or without costs), the analyser\'s extracted performance matrices, means, standard deviations, learning-curve points, fold counts, query counts and summary table equal the values recomputed directly from the recorded states. Cost curves are interpolated at the recorded cumulative costs, logs shorter than others are cut or rejected as documented, and analysing never modifies the logs. Significance tests report the same decision as the paired test recomputed from the extracted data.',
 ['inputs','configurations'],'all numbers of methods, folds, lengths, batch sizes, costs and performance values',
 'Tests check that analysing one log runs; numeric agreement over ragged, costed and multi-method inputs is untested.',
 [A+'experiment/experiment_analyser.py',A+'utils/interface.py'],[('extract_matrix, get_methods_data, plot_learning_curves, summaries',A+'experiment/experiment_analyser.py')],(),['analyser data, summaries and drawn curve points'])
p('C21','The tool box hands out objects consistent with its one data set and split',
 'Every object a tool box creates (splits, index collections, oracles, repositories, logs, stopping criteria, strategies, metrics) is consistent with the data, labels, costs and split the box was built with: the split indexes equal the stored ones and have the requested sizes and classes, oracles answer with the box\'s labels and costs, and metrics equal the direct computation. Objects handed out share no mutable state with the box or each other. A box saved and loaded behaves identically.',
 ['configurations','histories'],'all query types, split configurations, data shapes, folds and save/load points',
 'Example scripts use one query type each on one data set and assert little.',
 [A+'toolbox.py'],[('split_AL/get_split/get_clean_oracle/get_repository/calc_performance_metric/save/load',A+'toolbox.py')],(),['returned objects'])
p('C22','Numeric helpers equal their definitions and leave inputs untouched',
 'Selecting the n largest or smallest positions returns distinct positions whose values are the n extreme ones in order; random permutations return the requested number of distinct integers in the closed range; scaling maps every feature onto the requested range or to zero mean and unit variance; kernel matrices equal their formulas, are symmetric and positive semi-definite; and the paired t-test decides as the statistical definition does. None modifies its inputs, and constant features or equal values never produce a non-finite result where the definition gives a finite one.',
 ['inputs'],'all arrays, sizes, ranges, kernels and parameters',
 'Tests touch these helpers with single examples; every strategy and split is built on them.',
 [A+'utils/misc.py',A+'data_manipulate/datapreprocess.py',A+'utils/interface.py'],[('nlargestarg, nsmallestarg, randperm, minmax_scale, StandardScale, kernels, paired_ttest',A+'utils/misc.py')],(),['return values'])
p('C23','Multi-label strategies pick what their documented criterion ranks best',
 'Multi-label QUIRE, AUDI, AURO, MMC and Adaptive each return the instance, pair or label couple that no other unlabeled candidate strictly beats under the criterion they document, evaluated on the predictions of the model they consult, and MMC and Adaptive choose the same whether irrelevant labels are written 0 or -1. A model trained for the selection sees exactly the labeled entries, never a label that is still unlabeled. The label ranking model predicts a label relevant exactly when it scores above its threshold, predicts each instance on its own, learns separable data, and a non-incremental refit does not depend on earlier fits.',
 ['inputs','histories'],'all data, label matrices in both encodings, partly labeled pools, models, trade-offs and query rounds',
 'Tests only run each strategy for a round on one data set and never look at what was selected.',
 [A+'query_strategy/multi_label.py',A+'query_strategy/query_type.py'],[('select of QUIRE, AUDI, MMC, Adaptive; LabelRankingModel.fit/predict',A+'query_strategy/multi_label.py'),('QueryTypeAURO.select',A+'query_strategy/query_type.py')],(),['selected keys; calls recorded on the label ranking model'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2, x['id']
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
