#!/usr/bin/env python3
"""writes properties.jsonl (the list is kept here, readable)"""
import json
E = 'src/engine.rs'; C = 'src/catalog/collections.rs'
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    return d
TABLE = [('DCG', 'node table, frame stack and current path of one engine', E + ' struct DCG'), ('succs/preds', 'recorded dependencies, with effect, dependency check and dirty bit', E + ' struct Succ, enum CompNode/MutNode/PureNode')]
props = [
P('E01', 'From-scratch consistency',
  'After any sequence of edits, allocations and demands, the value returned by a demand equals the value that a run of the same program from scratch on the current inputs returns. This holds for programs whose functions depend only on their arguments and on what they demand, that use each name for one allocation per run, and that write input cells only outside of running computations.',
  ['programs', 'histories'], 'every program and every finite history of edits, allocations and demands',
  'The tests run a few dozen fixed programs with one or two edits each; stale results need a particular shape of dependency graph together with a particular order of edits and demands.',
  [E], [('demand with change propagation', E + ' DCG::force, loc_produce, clean_comp, ForceDep/ForceMapDep/ForceAbsDep/AllocDependency::clean'), ('edits', E + ' DCG::set, DCG::cell, DCG::thunk, dirty_pred_observers, dirty_alloc')], TABLE, ['value returned by force, force_map, force_abs']),
P('E02', 'An edit marks every dependent result for re-checking',
  'When a cell changes, or a named computation is replaced, every previously computed result that observed it, directly or through any chain of demands, is marked out of date before the edit returns, unless what it observed is unchanged; so is the computation that allocated it, with its own observers, because running that computation again would restore its content. A result is presented as up to date only after everything it observed has been re-established as unchanged or it has been recomputed.',
  ['histories', 'programs'], 'every dependency graph reachable by any history, and every edit of it',
  'The marking must reach all transitive observers through every combination of shared, repeated and partial observations; the tests check final values of small graphs.',
  [E], [('dirtying', E + ' dirty_pred_observers, dirty_alloc, DCG::set'), ('cleaning', E + ' clean_comp, loc_produce')], TABLE, ['reflected graph (dirty flags)']),
P('E03', 'Results are reused while what they observed is unchanged',
  'A computation is run again only if it has never completed, or its function or argument changed, or some value it observed when it last ran now differs. In particular a repeated demand without intervening changes runs nothing, and a change that leaves an intermediate value the same does not re-run the computations that observed only that value. One demand runs each computation at most once.',
  ['histories', 'programs'], 'every program and every history',
  'Tests compare final values, and values are the same when too much is recomputed; which computations run depends on the whole history.',
  [E], [('early cutoff', E + ' clean_comp, ForceDep::clean, ForceMapDep::clean'), ('memo reuse', E + ' DCG::thunk (reuse of an equal thunk), DCG::force'), ('no-op edits', E + ' DCG::set (equal value)')], TABLE, ['number and identity of function runs']),
P('E04', 'Recorded dependencies are exactly those of the last run, and symmetric',
  'Whenever no computation is running, the dependency graph is symmetric: a computation lists a dependency exactly when the dependency lists that computation as an observer, and both ends exist. The dependencies recorded for a completed computation are exactly the allocations and demands of its most recent run, in order; those of earlier runs are gone.',
  ['histories', 'programs'], 'every reachable dependency graph',
  'No test inspects the graph after re-execution, replacement of nodes and edits; a stale or missing edge shows only in later edits.',
  [E], [('recording', E + ' DCG::force, DCG::force_map, DCG::force_abs, DCG::cell, DCG::thunk (frame succs), loc_produce (commit of the frame)'), ('revoking', E + ' revoke_succs, revoke_succ')], TABLE, ['reflected graph (predecessors, successors)']),
P('E05', 'Partial observations: projections and abstractions of cells',
  'A demand through a projection or an abstraction returns that projection or abstraction of the current value. A computation that observed a cell only through them is re-checked when the cell changes and is not re-run when the projected value is unchanged; a full and a partial observation of the same cell by one computation are both honoured.',
  ['histories', 'programs', 'inputs'], 'every mix of full, projected and abstract observations, and every edit',
  'The tests cover one projection of one cell; the interplay of several kinds of observation of one cell by one computation is not tested.',
  [E], [('force_map', E + ' DCG::force_map, ForceMapDep::clean'), ('force_abs', E + ' DCG::force_abs, ForceAbsDep'), ('partial dirtying', E + ' dirty_pred_observers')], TABLE, ['value of force_map, force_abs', 'number of runs']),
P('E06', 'A name in a namespace identifies one location',
  'Allocating with a name yields the same reference whenever the name and the current namespace are the same, and different references otherwise, whatever was allocated there before; the content is that of the latest allocation, and observers of the earlier content see the change. Two references are equal exactly if they denote the same location (or the same constant), and equal references hash equally.',
  ['histories', 'inputs'], 'every sequence of allocations of cells and computations under every name and namespace',
  'Reallocation matters for each pair of old and new content (cell or computation, same or other function or argument, observed or not), which tests sample at a few points.',
  [E], [('named allocation', E + ' DCG::cell, DCG::thunk, dirty_alloc'), ('identity of locations', E + ' struct Loc, impl PartialEq/Hash for Loc, impl PartialEq/Hash for Art, loc_of_id')], TABLE, ['equality and hash of references', 'value of force']),
P('E07', 'Structural identity: equal content gives one location',
  'Without names, allocating the same function with equal arguments, or an equal value, in one namespace yields equal references that share one cached result; different functions, arguments or values do not share. Structural references never change their content.',
  ['inputs', 'histories'], 'every function, argument and value, and every order of allocations',
  'Sharing depends on hash and equality of whole arguments; tests allocate one or two structural computations.',
  [E], [('structural allocation', E + ' DCG::put, DCG::thunk (NameChoice::Structural), structural')], TABLE, ['equality of references', 'number of runs']),
P('E08', 'Namespaces and modes are scoped',
  'The current namespace and the structural/nominal mode in force before a namespaced or mode-switched block are in force again after it, at every nesting, and a computation runs in the namespace in which it was allocated, however and whenever it is demanded.',
  ['programs', 'histories'], 'every nesting of namespaces, mode switches and demands',
  'Only the outermost nestings are tested, and a leaked namespace only shows in the identity of later allocations.',
  [E], [('ns', E + ' DCG::ns, ns'), ('structural', E + ' DCG::structural, structural'), ('path during evaluation', E + ' loc_produce')], [('path, flags', 'current namespace and mode', E + ' struct DCG')], ['identity of later allocations', 'reflected path']),
P('E09', 'Cyclic demands return the fallback, exactly when cyclic',
  'A demand with a fallback returns the fallback if and only if the demanded computation is currently running; every other demand returns the computed value. Recursion without cycles is never cut.',
  ['programs', 'inputs'], 'every call graph, on its first evaluation',
  'Tests contain two cyclic graphs.',
  [E], [('cycle detection', E + ' DCG::force, force_cycle, Producer/ForceCycle')], TABLE, ['value of force_cycle']),
P('E10', 'A reference is never read at a type other than its content',
  'A demand yields a value of the type of its reference, or stops the program; content of another type is never reinterpreted, whatever is allocated under the same name.',
  ['histories', 'inputs'], 'every sequence of allocations and demands with any types under any names',
  'Memory unsafety needs a name reused at another type, which tests avoid.',
  [E], [('dynamic type tests', E + ' res_node_of_loc, get_mut/assert type id, Producer/Force'), ('unchecked casts', E + ' transmute in res_node_of_loc, DCG::force, AllocDependency::clean')], TABLE, ['value of force, or panic']),
P('N01', 'Names are identified by their construction',
  'Two names are equal if and only if they were built by the same constructions from the same parts, equal names hash equally, and forking a name yields names different from it and from each other.',
  ['inputs'], 'every pair of names built by any constructions',
  'Tests do not compare names.',
  [E], [('names', E + ' struct Name, enum NameSym, name_unit, name_pair, name_of_str, name_of_usize, name_of_isize, name_of_string, name_of_hash, name_fork, name_fork3, name_fork4')], None, ['equality and hash of names']),
P('M01', 'Engines agree and do not interfere',
  'The naive and the graph-based engine return the same values for the same program. Selecting an engine returns the one in force before, unchanged; while another engine is in force its graph and cached results do not change, and they are there again when it is selected again.',
  ['programs', 'configurations', 'histories'], 'every program, and every order of engine switches',
  'One test alternates engines for one program.',
  [E], [('engine selection', E + ' init_naive, init_dcg, use_engine, engine_is_naive, engine_is_dcg'), ('naive engine', E + ' cell, put, thunk, force, force_map, set under Engine::Naive')], [('GLOBALS', 'engine in force', E)], ['values', 'reflected graph']),
P('R01', 'Reflection shows the engine state and what the engine did',
  'A reflected graph contains exactly the nodes, values, dependencies, dirty flags, stack and namespace of the engine at that moment, and taking it changes nothing; values built from numbers, strings, tuples, vectors, structs, constructors, names and references are reflected with that structure. A reflected trace is properly nested, with each allocation, demand, dirtying and cleaning step attributed to the computation that performed it and to the case that occurred.',
  ['histories', 'programs'], 'every reachable engine state and every recorded history',
  'Tests print traces without checking them.',
  [E, 'src/reflect.rs', 'src/parse_val.rs'], [('values', 'src/parse_val.rs parse_val'), ('graph', E + ' reflect_dcg, Reflect impls'), ('trace', E + ' my_trace/dcg_effect_begin!/dcg_effect_end!, src/reflect.rs trace'), ('dcg_reflect_begin/end/now', 'src/reflect.rs')], None, ['dcg_reflect_now, dcg_reflect_end']),
P('B01', 'Bit strings behave as sequences of bits',
  'For every length up to the supported maximum, appending a bit extends the string by that bit and changes no other, testing and toggling address exactly the named bit, powers are exact, and a shift keeps the length and drops the bits shifted out.',
  ['inputs'], 'every bit string and bit index within the supported length, every base and exponent whose power is representable',
  'Tests sample a handful of values.',
  ['src/catalog/bitstring.rs'], [('bit operations', 'src/catalog/bitstring.rs impl BitString for BS')], [('BS', 'length and value', 'src/catalog/bitstring.rs struct BS')], ['results of the operations']),
P('L01', 'List functions compute what their sequences prescribe',
  'Read as sequences, mapping, filtering, reversing, appending, folding, pushing, popping, generating and converting lists give exactly the elements, in exactly the order, that the same operation on plain sequences gives, wherever the list has names or references in it. The eager map and filter keep every name in its place, and demanding a prefix yields that prefix.',
  ['inputs', 'histories'], 'every list, with any placement of names and references, every function, under both engines and after any edits',
  'Tests run one generated list shape with names after every element.',
  [C], [('lists', C + ' list_map_*, list_filter_*, list_reverse, list_fold, list_append, list_push, list_pop, list_gen, list_of_vec, vec_of_list, ListElim, ListIntro')], None, ['vec_of_list']),
P('T01', 'Trees preserve the sequence they are built from',
  'The tree built from a list has the elements and names of the list in the same order (mirrored when built from the right), and reading it back in either direction gives that sequence or its reverse. Folds combine the leaves in order; pruning, filtering and copying a tree keep exactly the (selected) elements in order, pruning leaves no empty subtree, and filtering into a list keeps exactly one of the names between two elements that names separated.',
  ['inputs', 'histories'], 'every list or tree, with any placement of names, under both engines and after any edits',
  'Tests compare the two engines with each other on one list, not with the sequence.',
  [C], [('tree construction', C + ' tree_of_list, tree_of_list_rec'), ('folds', C + ' tree_fold_seq, tree_fold_up, tree_fold_up_nm_dn, monoid_of_tree'), ('derived', C + ' list_of_tree, filter_list_of_tree, filter_tree_of_tree, eager_tree_of_tree, prune_tree_of_tree')], None, ['traversal of the tree']),
P('S01', 'Sorting yields the sorted permutation of its input',
  'Merging two sorted lists and sorting the leaves of a tree, in each variant, yield exactly the input elements, each as often as it occurs, in ascending order; a partial demand yields the smallest ones; this remains so after edits of the input.',
  ['inputs', 'histories'], 'every list or tree of ordered elements, names anywhere, both engines, any edits',
  'One test sorts an already sorted list, and compares the engines with each other.',
  [C], [('merge', C + ' list_merge, list_merge_wrapper'), ('sort', C + ' mergesort_list_of_tree, mergesort_list_of_tree2, mergesort_list_of_tree3')], None, ['vec_of_list of the result']),
P('T02', 'Tries find exactly the elements stored at their hash positions',
  'In a trie whose elements sit at the positions given by the bits of their hash, lookup finds an element if and only if it is stored, folding visits every element exactly once, left to right, and splitting a leaf keeps its element findable and records the right bit prefixes.',
  ['inputs'], 'every trie, with names and references anywhere',
  'No test looks up or folds a non-empty trie.',
  ['src/catalog/trie.rs', 'src/catalog/bitstring.rs'], [('lookup', 'src/catalog/trie.rs find, mem, is_empty'), ('fold', 'src/catalog/trie.rs trie_fold, SetElim::fold'), ('split', 'src/catalog/trie.rs split_atomic')], None, ['find, mem, fold']),
P('A01', 'Association lists map each key to its latest binding',
  'A lookup returns the value of the most recent update of that key, or nothing if there is none; folding visits every binding; as sets they contain exactly the added elements, and an intersection exactly the common ones.',
  ['inputs'], 'every sequence of updates, names and references anywhere in the list',
  'No test exercises them.',
  [C], [('maps', C + ' impl MapIntro/MapElim for List, SetIntro/SetElim')], None, ['find, fold, is_mem']),
P('X01', 'The macros are the engine operations they abbreviate',
  'Each form of the macros that programs are written with (get!, cell!, thunk!, memo!, eager!, fork!, forko!, cell_call!, let_cell!, let_thunk!, let_memo!) does what the engine operations it abbreviates do: the reference is the one of the given name (of the quoted or bound identifier, of a fresh name where none is given, and for an optional name that is absent nothing is named and the value is computed at once); a thunk runs the given function on the given arguments in their order, once demanded and not before; arguments after `;;` are passed on but not compared; a memo demands its thunk once and returns the reference and the result, a binding form binds the variable to what it names. Two different functions or bodies under one name are never taken for one another.',
  ['programs', 'inputs'], 'every form of every macro, every name, every function and every arguments',
  'Tests use a few of the forms, mostly with one thunk per name, and compare final values.',
  ['src/macros.rs'], [('macros', 'src/macros.rs get, cell, thunk, memo, eager, fork, forko, cell_call, let_cell, let_thunk, let_memo'), ('fresh names', 'src/macros.rs bump_name_counter'), ('program points', 'src/macros.rs prog_pt')], None, ['references and results of the macros, function runs']),
]
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
