"""The properties and the proof modules that decide them."""
HIST = 'a case is a random program and a random history of edits and demands on the real engine, compared with a from-scratch interpreter; non-trivial: more than one demand or run'
SCEN = 'a case is a random scenario from its own seed, on the real crate, compared with an independent model; non-trivial: more than one operation'
COLL = 'a case is a random list, tree, trie or map with random names, on the real crate under the naive engine or under one DCG over a sequence of edits, compared with plain vectors; non-trivial: more than one round or element'
MODULES = {
    'engine': dict(props=['E01', 'E02', 'E03', 'E04', 'E05', 'E06', 'E07', 'E08', 'E09', 'M01'], default=['E01'], min_obligations=188, timeout=420),
    'arts': dict(props=['E01', 'E06'], default=['E06'], min_obligations=26),
    'macros': dict(props=['X01'], min_obligations=45),
    'bits': dict(props=['B01'], min_obligations=30),
    'coll': dict(props=['L01', 'T01', 'S01', 'A01'], default=['L01'], min_obligations=160, timeout=300, scope=['--verify-only-module', 'fns']),
    'trie': dict(props=['T02'], default=['T02'], min_obligations=80, timeout=300, scope=['--verify-only-module', 'fns']),
    'types': dict(props=['E10'], min_obligations=15),
    'reflect': dict(props=['R01'], min_obligations=33),
    'trace': dict(props=['R01'], min_obligations=78, timeout=300),
    'names': dict(props=['N01'], min_obligations=20),
    'parse': dict(props=['R01'], min_obligations=50),
}
# assumptions left unchecked, by proof module (written into the evidence)
A_SHIMS = 'shims with assumed contracts: HashMap (a finite map on equal keys), Vec/Option/iterator methods of vstd, Rc and Box transparent, RefCell borrows stripped (the dynamic borrow check is not modelled), `.clone()` gives an equal value, derived PartialEq/Eq is structural equality, my_hash is an uninterpreted function of the value'
ASSUME = {
    'engine': [A_SHIMS,
        'types are erased (one opaque value type); transmute is the identity (types are property E10, module types)',
        'Box<dyn DCGDep>, Box<dyn GraphNode>, Box<dyn Producer> are the enumeration of their implementations found in the source; the dispatch on it is generated',
        'user code (thunk bodies, FnBox::call, projections) acts on the engine only through its interface, each function of which is proved to keep the invariant and the step relation assumed of the call; it is a function of its argument and of what it observes',
        'demands are acyclic where `rank` is required (E09 is proved without); a computation does not overwrite what the running demand relies on, does not allocate itself, and does not select engines',
        'no hash collisions between structural cells and thunks; one function per program point',
        'termination (exec_allows_no_decreases_clause), panics inside thunks, reads of constants'],
    'coll': [A_SHIMS, 'put, cell, thunk, force, memo!, ns are transparent (E01 to E08 are proved in module engine); names generated on the way are opaque: clashes are only seen by the bounded run',
        'the generic parameters at their only implementation in the crate (List, Tree, usize levels)', '`<=` of the elements is a total preorder; user closures are total and deterministic', 'termination'],
    'trie': [A_SHIMS, 'put, cell, thunk, force, memo! are transparent (module engine); hashes are a function of the element; u64-to-i64 casts out of range are uninterpreted', 'user closures are total and deterministic', 'termination'],
    'arts': ['equality of values of user types and derived equality is structural, their hash is a function of the value; the dispatch of a trait object goes to the implementation under contract of the type that was boxed, TypeId::of tells types apart (the changes of type are module types); two functions alive at once have different addresses; a boxed closure keeps its contract', 'two maps (thunk_map) of different thunks with one hash are taken for equal: no hash collisions'],
    'macros': ['the engine operations (cell, put, thunk, force, force_cycle, name_of_str, name_of_usize, name_fork) as in modules engine, arts and names', 'each arm of a macro is expanded by the extractor (macro_rules matching and transcription, nested uses included) at uses with one to three arguments, with or without spurious ones; hygiene is not modelled: the names of the uses do not clash with those of the macros', 'stringify! of one token is its text, of several a text that its tokens determine and that tells them from others', 'a boxed closure keeps its contract; user functions may be called with any arguments; the counter of fresh names does not reach usize::MAX'],
    'types': ['dispatch of a trait object goes to the implementation for the type that was boxed; TypeId::of tells types apart', 'be_node (the identity on trait objects) is not under contract', 'all code outside `unsafe` is typed correctly by rustc'],
    'reflect': ['iterating the HashMap shim lists each entry exactly once; clones are equal', 'parse_val is an uninterpreted relation between a value and its reflection here (module parse: what it reads)', 'wf_table: location hashes are a function of path and id, as the engine builds them'],
    'trace': [A_SHIMS, 'types are erased and trait objects are the enumeration of their implementations, as in module engine', 'a panic ends the program (a trace cut short by a panic is not looked at)', 'user code acts on the engine and the recording only through the interface, ends the debug extents it begins, and does not begin or end a recording inside a computation; mapping functions record nothing', 'the reflection of a location, a dependency and an effect are those of module reflect; termination'],
    'parse': ['contracts of the standard library: format!("{:?}") gives the Debug text of the value, UTF-8 encoding, String::from_utf8, from_str_radix, to_digit, from_u32, reverse, collect; derived PartialEq of tokens is structural; constructors of names (module names)', 'that the Debug text of a value is one that the grammar of the contracts covers is assumed of the value: numbers, strings, tuples, vectors, structs and constructors, names and articulations (derived Debug, and the ones of engine.rs for Loc, Path, ArtId); not covered: floats, characters, maps', 'usize has 64 bits'],
    'bits': ['shifts and arithmetic are those of the machine integers (checked for overflow); preconditions: lengths up to the supported maximum'],
    'names': [A_SHIMS, 'the value a hasher finishes with is an uninterpreted function of the sequence of tokens fed to it; a derived or library Hash feeds each part as one token'],
}
def p(level, modules, rule, note, **k): return dict(level=level, modules=modules, rule=rule, note=note, **k)
BOUNDED = 'bounded: the contract of the property is evaluated at run time on the real crate over random inputs and histories (labelled bounded, nothing is counted as proved)'
PROPS = {
    'E01': p('proof', ['engine', 'arts'], HIST, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; the postcondition of force, force_map and force_abs says that what is returned is from-scratch consistent (the cached run of the current content, each of whose observations saw what is from-scratch consistent now); it follows from the invariant every function of the interface keeps. Assumed: user code acts only through the interface and is a function of what it observes; demands are not cyclic (E09 apart); a computation does not overwrite what the running demand relies on; no hash collisions; shims for HashMap, Rc, RefCell, trait objects and derived traits (DESIGN.md). Termination is not proved'),
    'E02': p('proof', ['engine'], HIST, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; postconditions of dirty_pred_observers and dirty_alloc, and the invariant that no result that is out of date is unmarked. Assumptions as for E01'),
    'E03': p('proof', ['engine'], HIST, 'proved: a computation is only run if it has no result or some dependency changed; having run it is among the locations the demand relies on, which stay clean until the demand ends and hence are not run again; an unchanged demand changes nothing (contracts of loc_produce, clean_comp, force)'),
    'E04': p('proof', ['engine'], HIST, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; invariants w1 and w2 (each dependency is known to its target and each recorded dependent has the dependency) and s1 (the recorded dependencies are those of the run that gave the cached result), kept by every function of the interface. Assumptions as for E01'),
    'E05': p('proof', ['engine'], HIST, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; contracts of force_map, force_abs and of the dependencies they record. Assumptions as for E01'),
    'E06': p('proof', ['engine', 'arts'], SCEN, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; cell and thunk return the location that is a function of the name and the namespace, its content is the one allocated, and observers of another content are marked. two references are equal exactly if they denote the same location, constant or suspended computation, and equal references hash equally (module arts: equality and hash of references, locations, suspended computations and their maps, with the generic types kept). Assumptions as for E01'),
    'E07': p('proof', ['engine'], SCEN, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; structural cells and thunks are located by the hash of their content (assumed free of collisions) and are never overwritten. Assumptions as for E01'),
    'E08': p('proof', ['engine'], SCEN, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; the namespace, the flags and the stack after each function of the interface are those before it, and blocks and computations run in their own. Assumptions as for E01; panics inside a block are out of scope'),
    'E09': p('proof', ['engine'], SCEN, 'the engine functions the property depends on (src/engine.rs), extracted from the source on every run, are under contract and every obligation is discharged by Verus; force returns the fallback exactly if the location is on the stack, and otherwise the value of the location. Assumptions as for E01'),
    'E10': p('proof', ['types'], SCEN, 'every function of the crate with unsafe code (each transmute of src/engine.rs), extracted from the source on every run with the generic parameters kept, is under contract: a transmute is a change of type whose precondition is that the value has that type; the type checks that guard them (assert_graphnode_res_type, res_node_of_loc, DCG::thunk, App::eq, NaiveThunk::eq, and the type ids they compare) are discharged by Verus for all types and all stores. Everything else is safe code, whose types the compiler checks. Assumed: dispatch of trait objects goes to the implementation for the type that was boxed; TypeId tells types apart; be_node (the identity on trait objects) is not under contract. A bounded run on the real crate accompanies it'),
    'N01': p('proof', ['names'], SCEN, 'every constructor of names, the hash function and the theorem that names are equal exactly if their constructions are, extracted from the source on every run, are discharged by Verus; a bounded run on the real crate accompanies them'),
    'M01': p('proof', ['engine'], HIST, 'the functions programs call (src/engine.rs: use_engine, init_engine, init_dcg, init_naive, engine_is_*, ns, structural, put, cell, set, thunk, force, force_cycle, force_map, force_abs, NaiveThunk::force), extracted from the source on every run with the thread-local engine as a parameter, are under contract and every obligation is discharged by Verus: selecting an engine returns the one in force unchanged and puts the given one in force, an engine out of force is not touched by any program, each function dispatches to the engine in force with its own contract, under the naive engine a reference stands for its content or for a run of its function, and under the DCG engine for what E01 says. That both give the value of the from-scratch run follows from E01; that the programs of the test families give equal values is the bounded run. Not covered: thunk_map. Assumptions as for E01, and programs do not select engines inside computations'),
    'R01': p('proof', ['reflect', 'trace', 'parse'], SCEN, 'every function that builds the snapshot (src/reflect.rs and the reflect implementations of src/engine.rs), extracted from the source on every run, is under contract and every obligation is discharged by Verus: dcg_reflect_now leaves the DCG as it was and shows exactly its table, its dependencies in both directions with their effects and marks, its stack and its path, first to last. Every function that records effects (the macros dcg_effect_begin/end, dcg_reflect_begin/end, debug_*, revoke_succs, dirty_pred_observers, dirty_alloc, set_, loc_produce, clean_comp, the dependencies, cell, thunk, set, force, force_map, force_abs) is under a contract over the recording: each call adds exactly one properly nested trace (or what it says), for the location that runs, with the case that occurred and inside it only what its effect can contain; nothing is dirtied or cleaned unrecorded. Every function of src/parse_val.rs is under contract: a text made of the tokens of a value (numbers, strings with their escapes, tuples, vectors, structs, constructors, names, articulations) is read as exactly this value, without a panic, and the text of a name or an articulation as this name, path and identity. Assumed: locations are built by the engine, so that their hash is a function of what they name; iterating a HashMap lists each entry once'),
    'X01': p('proof', ['macros'], SCEN, 'every arm of get!, cell!, thunk!, memo!, eager!, fork!, forko!, cell_call!, let_cell!, let_thunk!, let_memo! is expanded mechanically from src/macros.rs on every run, at uses with one to three arguments, and the expansion is verified by Verus, for all names, arguments and functions, against a contract in terms of the engine operations: identity of the reference, program point, compared and spurious arguments, the function that runs and on what, the result; so is bump_name_counter. Assumed: the contracts of the engine operations (modules engine, names, arts), hygiene. That more arguments behave like one to three is seen only by the bounded run (four), as is the moment of evaluation'),
    'B01': p('proof', ['bits'], SCEN, 'all obligations of the bit-string operations, extracted from the source on every run, are discharged by Verus for all inputs within the stated preconditions; a bounded run on the real crate accompanies them'),
    'L01': p('proof', ['coll'], COLL, 'the functions the property depends on (src/catalog/collections.rs), extracted from the source on every run with the generic parameters at their only implementation (List, Tree, usize levels), are under contract and every obligation is discharged by Verus; the postcondition of every list function, over all lists with names and references anywhere: constructors and eliminators, generation, maps, filters, reversal, folds, push, pop, append, conversions. Assumed: references, demand, memoisation and namespaces are transparent (that is E01 to E08, proved for the engine), names generated on the way do not clash (only seen by the bounded run), user closures are total, derived equality is structural'),
    'T01': p('proof', ['coll'], COLL, 'the functions the property depends on (src/catalog/collections.rs), extracted from the source on every run with the generic parameters at their only implementation (List, Tree, usize levels), are under contract and every obligation is discharged by Verus; the postcondition of tree_of_list (the in-order sequence of the tree is the list), the three folds (relations over the whole tree), list_of_tree, filter_list_of_tree, filter_tree_of_tree, eager_tree_of_tree, prune_tree_of_tree, and monoid_of_tree with a lemma that for a monoid the result depends on the elements only. Assumed: references, demand, memoisation and namespaces are transparent (that is E01 to E08, proved for the engine), names generated on the way do not clash (only seen by the bounded run), user closures are total, derived equality is structural'),
    'S01': p('proof', ['coll'], COLL, 'the functions the property depends on (src/catalog/collections.rs), extracted from the source on every run with the generic parameters at their only implementation (List, Tree, usize levels), are under contract and every obligation is discharged by Verus; list_merge gives the merge of the two sequences, and each mergesort an ordered permutation of the leaves, over all trees, for any total preorder. Assumed: references, demand, memoisation and namespaces are transparent (that is E01 to E08, proved for the engine), names generated on the way do not clash (only seen by the bounded run), user closures are total, derived equality is structural'),
    'T02': p('proof', ['trie'], COLL, 'the functions of src/catalog/trie.rs and src/catalog/bitstring.rs, extracted from the source on every run with the generic parameters at their only implementation, are under contract and every obligation is discharged by Verus: find and mem report an element exactly if it is in a trie whose elements are where the bits of their hash put them (and never one that is not there, in any trie), both folds go over the elements first to last, split_atomic gives a node whose leaf is where the next bit of its hash puts it and whose prefixes extend the prefix of the leaf, empty tries are empty. singleton and extend are unimplemented in the source (panic). Assumed: references, demand and memoisation are transparent (that is E01 to E08, proved for the engine), hashes are a function of the element, user closures are total, derived equality is structural'),
    'A01': p('proof', ['coll'], COLL, 'the functions the property depends on (src/catalog/collections.rs), extracted from the source on every run with the generic parameters at their only implementation (List, Tree, usize levels), are under contract and every obligation is discharged by Verus; find gives what the latest update of the key bound, folds visit every binding in order, sets have exactly the added elements and intersections exactly the common ones; remove, append, union and difference are unimplemented in the source. Assumed: references, demand, memoisation and namespaces are transparent (that is E01 to E08, proved for the engine), names generated on the way do not clash (only seen by the bounded run), user closures are total, derived equality is structural'),
}
