"""What the checks run, and how they describe what they cover."""

SPECS = {}

TRUST = ['CPython, zope.interface, zope.proxy and the other installed '
         'packages are trusted',
         'held on the executions explored; nothing is claimed about others']


def spec(pid, configs, need, technique, note, rule, **kw):
    SPECS[pid] = dict(configs=configs, need=need, technique=technique,
                      note=note, rule=rule, assumptions=TRUST, **kw)


spec('P01', {'c': 2, 'pure': 2, 'watch': 1},
     {'operations': 50000, 'composite_object_events': 5000,
      'shifty_names': 10000, 'several_checks': 10000},
     'online monitor over event logs of instrumented objects and checkers',
     'Random programs over every operation, in both implementations; a '
     'monitor relates what the checker was asked to what the object saw. '
     'Trusts the instrumented classes.',
     'A case is one operation with one checker kind, grant pattern and '
     'planned reaction of the object, or one library-level expression; it is '
     'distinct by these, and non-trivial if the checker was asked.')

spec('P02', {'c': 3, 'pure': 3, 'watch': 1, 'purewatch': 1},
     {'obtained': 50000, 'obtained_proxied': 20000, 'callback_args': 300,
      'inplace_self': 300, 'longest_derivation': 10,
      'wild_roots': 500},
     'runtime monitor: taint oracle over random walks from proxies',
     'An attacker takes random steps from proxies of a random object graph; '
     'everything obtained is judged: proxied with the checker the '
     'declarations choose, or of a type declared harmless.',
     'A case is one step; distinct by the step, the type of the object '
     'behind the proxy and the type of what was obtained.')

spec('P03', {'c': 2, 'pure': 2, 'watch': 1, 'watch2': 1},
     {'decisions': 100000, 'granted': 3000, 'unauthorized': 3000,
      'forbidden': 10000, 'let_pass': 5000, 'interaction_failed': 1000},
     'runtime oracle: executable model of the decision, online',
     'Each decision of a real checker is compared with a ten-line model, and '
     'the questions put to the interaction are counted. Trusts the model.',
     'A case is one decision for a table, name, object, interaction '
     'behaviour and route; distinct by these.')

spec('P04', {'c': 2, 'pure': 2, 'watch': 1, 'purewatch': 1},
     {'selections': 20000, 'declared_checkers': 3000, 'duplicates': 1000,
      'default_checkers': 2000},
     'runtime oracle: model of the registry, checked after every step',
     'Random histories of declarations over a zoo of classes, modules and '
     'values; the checker and the factory calls are compared with a model. '
     'Trusts the model.',
     'A case is one selection of a checker by one route for one value after '
     'a history; distinct by route, type, expected outcome and history '
     'length.')

spec('P05', {'c': 2, 'pure': 2, 'watch': 1},
     {'identities': 100000, 'reproxied': 5000, 'transparent': 3000,
      'nested': 1000},
     'runtime oracle: identity ledger over random wrapping histories',
     'Every proxy made is kept in a ledger with its object and checker, '
     'which is verified after every step. Trusts the ledger.',
     'A case is one wrapping, unwrapping, comparison, hash, truth or '
     'isinstance operation; distinct by operation and the types involved.')

spec('P06', {'c': 2, 'pure': 2, 'watch': 1, 'purewatch2': 1},
     {'decisions': 50000, 'outcome_ok': 5000, 'outcome_forbidden': 3000,
      'outcome_unauthorized': 5000, 'outcome_error': 500},
     'runtime oracle: truth-table evaluation with the order of questions',
     'Random trees of combined checkers over real and instrumented leaves; '
     'decision, exception and the sequence of leaves asked are compared '
     'with the documented table. Trusts the evaluator.',
     'A case is one access through one tree by one route; distinct by route, '
     'name, shape of the tree, expected outcome and leaves asked.')

spec('P07', {'c': 2, 'pure': 2, 'watch': 1},
     {'can_access': 30000, 'can_write': 30000, 'write_forbidden_ok': 1000,
      'write_forbidden_unauthorized': 1000,
      'write_forbidden_forbidden': 1000, 'write_forbidden_error': 100},
     'runtime oracle: prediction compared with the check itself',
     'For random checkers, grants, objects and names, the predictions are '
     'compared with what the check of the access does, including the '
     'questions put to the interaction. Trusts the checker (P03, P06).',
     'A case is one prediction; distinct by outcome of reading and writing, '
     'kind of checker, way of protection and name.')

spec('P08', {'c': 2, 'pure': 2, 'watch': 1},
     {'verified': 100000, 'refused_new': 3000, 'restore': 5000,
      'helpers': 5000, 'granted': 2000, 'refused': 2000, 'failed_new': 500,
      'policies': 3000},
     'runtime oracle: state-machine model checked after every step',
     'Random histories of the interaction API against a model of two '
     'variables. Trusts the model.',
     'A case is one step; distinct by the step, the state before it and the '
     'two steps before.')

spec('P09', {'c': 3, 'pure': 3, 'watch': 1},
     {'thread_switches': 5000, 'verified': 20000, 'concurrent_decisions': 3000,
      'concurrent_selections': 3000, 'granted': 1000, 'refused': 1000,
      'decisions_while_declared': 2000, 'redeclared': 1000},
     'runtime oracle: per-thread models under injected delays',
     'Threads run random interaction programs over shared proxies, with '
     'yields injected at random lines of the code under test; each thread is '
     'compared with its own model, and decisions on moving tables with the '
     'table versions during the check. Schedules are not replayable.',
     'A case is one run of 2 to 8 threads; distinct by its schedule, and '
     'non-trivial if it switched between threads more than twice.')

spec('P10', {'c': 2, 'pure': 2},
     {'answers': 5000, 'allowed': 1500, 'refused': 1500, 'questions': 3000,
      'refused_add': 1000, 'refused_remove': 1000, 'added': 1000,
      'removed': 1000, 'defaults': 200},
     'runtime oracle: membership model checked after every step',
     'Random histories of interactions and participations with system, '
     'ordinary and lookalike principals against a model. Trusts the model.',
     'A case is one answer; distinct by route, policy, permission, number of '
     'participations and how many of them are those of the system user.')

spec('P11', {'c': 3, 'pure': 3, 'watch': 1},
     {'operations': 20000, 'raise': 5000, 'ok': 5000, 'programs': 800,
      'program_results': 8000, 'effects_compared': 3000,
      'inplace_self': 100},
     'runtime oracle: the same program on a bare twin',
     'Random operations and whole programs run on two isomorphic worlds, one '
     'behind permissive proxies; results, exceptions, the effects in their '
     'order, the arguments received and all states must agree.',
     'A case is one operation or one program; distinct by checker, '
     'operation, types of object, arguments and result, or program and seed.')

spec('P12', {'asan': 3, 'dbg': 2, 'c': 2, 'vg': 1},
     {'operations': 50000, 'hostile_acts': 20000, 'lookups': 5000,
      'factories': 3000, 'replaced_in_lookup': 5000, 'allocations_failed': 2000,
      'dropping': 10000, 'tables_dropped': 1000, 'deep_RecursionError': 50,
      'threaded_operations': 3000, 'borders': 200},
     'AddressSanitizer, UBSan, memcheck and the debugging allocator over '
     'hostile programs, with injected allocation failures',
     'Hostile objects, checkers and interactions re-enter, raise, drop '
     'references and replace tables at random; each allocation of an '
     'operation is made to fail in turn. Trusts the sanitizers.',
     'A case is one operation with hostile arguments, one dropped reference '
     'or one series of failing allocations; distinct by the operation, the '
     'types of its arguments and the outcome.')

spec('P13', {'c': 4, 'pure': 2},
     {'operations': 20000, 'outcome_ok': 5000, 'outcome_Unauthorized': 1000,
      'outcome_ForbiddenAttribute': 2000, 'outcome_other': 3000,
      'graphs': 1000, 'tokens': 5000, 'links': 5000, 'loops': 500,
      'prompt': 300, 'released': 10000, 'odd_class_operations': 2000},
     'runtime monitor: reference counts and allocated blocks around each '
     'operation, and a ledger of finalized objects',
     'Each operation with each outcome is repeated while the counts of all '
     'that takes part are compared; random cyclic graphs must all have been '
     'finalized after collection. Trusts the interpreter\'s counters.',
     'A case is one operation with one kind of checker, answer, object, '
     'argument and outcome, or one graph; distinct by these.')

spec('P14', {'c': 4, 'pure': 4},
     {'programs': 4000, 'compared': 2000, 'steps': 100000,
      'outcome_ok': 30000, 'outcome_Unauthorized': 2000,
      'outcome_ForbiddenAttribute': 10000},
     'runtime monitor: differential trace comparison of the two '
     'implementations',
     'The same random programs run with each implementation; every step, its '
     'result or exception, the questions to the interaction and what the '
     'objects see is recorded, and the traces must be equal.',
     'A case is one program; distinct by its trace.', finish=['c', 'pure'])

spec('P22', {'c': 1, 'watch': 2, 'watch2': 2, 'pure': 1, 'purewatch': 1,
             'purewatch2': 1},
     {'programs': 8000, 'compared': 8000, 'steps': 100000, 'accesses': 50000,
      'log_lines': 20000, 'decided_Forbidden': 5000,
      'decided_Unauthorized': 3000, 'decided_Granted': 5000,
      'decided_Always': 1000, 'default_accesses': 2000,
      'builtin_accesses': 2000, 'without_repr': 3000},
     'runtime monitor: differential trace comparison with watching on and '
     'off, and an online checker of what standard error receives',
     'The same random programs run with each verbosity and their traces must '
     'be equal; for accesses with known tables the lines logged must be '
     'those of the decisions a model makes, in their order.',
     'A case is one program or one access; distinct by its trace, or by the '
     'kind of checker, the way of access, name and decision.',
     finish=['c', 'watch', 'watch2', 'pure', 'purewatch', 'purewatch2'])

spec('P15', {'c': 2, 'pure': 2},
     {'configurations': 2000, 'tables': 8000, 'ended_ok': 1000,
      'ended_conflict': 50, 'ended_refused': 20, 'ended_undefined': 20,
      'declarations': 20000, 'n_class_require': 2000, 'n_class_allow': 1000,
      'n_class_implements': 500, 'factories': 200, 'access_ok': 10000,
      'access_Unauthorized': 5000, 'access_ForbiddenAttribute': 10000},
     'runtime monitor: state after each configuration against a reference '
     'model of the declarations',
     'Random configurations (nested files and groups, conflicts, flaws) are '
     'loaded; how that ends, the checkers of all classes, what proxies let '
     'through and what is implemented and registered are compared with a '
     'model. Trusts the model and zope.configuration.',
     'A case is one history of configurations; distinct by the text of the '
     'first, non-trivial if it consists of more than eight actions.')

spec('P16', {'c': 2, 'pure': 2},
     {'configurations': 2000, 'tables': 8000, 'ended_ok': 1000,
      'ended_conflict': 50, 'ended_refused': 20, 'ended_undefined': 20,
      'n_module': 2000, 'n_redefine': 1000, 'n_include': 500,
      'n_group': 500, 'n_policy': 200, 'permissions': 5000,
      'access_ok': 10000, 'access_Unauthorized': 2000,
      'access_ForbiddenAttribute': 10000},
     'runtime monitor: state after each configuration against a reference '
     'model of the declarations',
     'As for P15, with the emphasis on modules, permissions, redefinitions '
     'in nested scopes and policies.',
     'A case is one history of configurations; distinct by the text of the '
     'first, non-trivial if it consists of more than eight actions.')

spec('P17', {'c': 2, 'pure': 2, 'watch': 1},
     {'protect_get': 10000, 'protect_set': 10000, 'protect_module': 500,
      'like_copied': 5000, 'like_undeclared': 1000, 'define': 3000,
      'tables': 200000, 'access_ok': 5000, 'access_Unauthorized': 5000,
      'access_ForbiddenAttribute': 5000},
     'runtime monitor: shadow of all permission tables, checked after '
     'every step',
     'Random histories of protections over classes, modules, shared and odd '
     'checkers; after each step all tables of all classes, and accesses '
     'through proxies made earlier, are compared with the shadow. Trusts '
     'the shadow.',
     'A case is one access through a proxy after a history; distinct by '
     'direction, decision, permission, kind of name and length of the '
     'history.')

spec('P18', {'c': 2, 'pure': 2, 'watch': 1},
     {'calls': 20000, 'exceptions': 500, 'protected': 5000,
      'unprotected': 5000, 'located': 3000, 'parent_given': 1000,
      'parent_kept': 1500, 'proxied': 3000, 'bare': 300},
     'online monitor: what the wrapped factory saw and what came out, '
     'against a model',
     'Random adapter factories, arguments and adapters (located or not, '
     'proxied, false, equal to everything, failing, adapting in turn); the '
     'monitor notes each call and each assignment to the adapter. Trusts '
     'the model.',
     'A case is one call; distinct by the kind of factory and adapter, the '
     'number of arguments, which are proxied and what is located.')

spec('P19', {'c': 2, 'pure': 2, 'watch': 1},
     {'decorators': 10000, 'unprotected': 300, 'alone': 2000,
      'combined': 3000, 'errors': 300, 'decision_ok': 20000,
      'decision_Unauthorized': 20000, 'decision_ForbiddenAttribute': 20000,
      'through': 20000},
     'runtime monitor: decisions, questions and their order against a '
     'model of the declarations',
     'Random towers of decorators and location proxies over objects, '
     'proxies and values, declared in all ways, with declarations changed '
     'in between; permissions name the table they come from, so that the '
     'monitor sees which tables are asked and in which order. Trusts the '
     'model.',
     'A case is one decision; distinct by the tower, the kind of access, '
     'the name, the decision and the number of questions.')

spec('P21', {'c': 2, 'pure': 1},
     {'registered': 8000, 'unregistered': 3000, 'directives': 500,
      'checked_defined': 10000, 'checked_undefined': 10000,
      'listed': 20000, 'terms': 20000, 'with_public': 1000,
      'fields_defined': 3000, 'fields_undefined': 3000},
     'runtime monitor: model of the registrations, compared after every '
     'step',
     'Random histories of registrations in nested registries (by call, '
     'directive and unregistration, of odd permission objects); lookups, '
     'lists, vocabularies and the field are compared with the model from '
     'different places. Trusts the model and zope.component.',
     'A case is one look from one place; distinct by the place, the ids '
     'defined there, and the length of the history.')

spec('P24', {'c': 2, 'pure': 2, 'watch': 1},
     {'names': 5000, 'interface': 5000, 'multi': 10000, 'plain': 5000,
      'conflicts': 5000, 'checkers': 10000, 'access_ok': 5000,
      'access_Unauthorized': 10000, 'access_ForbiddenAttribute': 10000},
     'runtime oracle: model of the table for random arguments',
     'Random names, interfaces, mappings and permissions of all kinds are '
     'given in all ways; the tables of the checker, what it lets through '
     'and whether arguments or tables are shared or changed are compared '
     'with a model. Trusts the model.',
     'A case is one construction; distinct by the constructor, whether '
     'there are conflicts, the size of the table and the permissions.')

spec('P23', {'c': 3, 'pure': 3, 'watch': 1},
     {'attacks': 30000, 'attacks_passed': 5000, 'attacks_refused': 10000,
      'restricted': 500, 'read': 1000, 'changes': 2000, 'clears': 100,
      'proxied': 20000},
     'runtime monitor: deep snapshots around every operation, taint check '
     'of results, model of the set of basic types',
     'Random nested containers of all built-in kinds are attacked through '
     'proxies with the default declarations by every method of theirs, '
     'every operator and the standard library; snapshots by identity must '
     'not change and nothing bare may come out.',
     'A case is one attack; distinct by the way, the type, the name and '
     'whether it was let through.')

spec('P20', {'c': 3, 'pure': 4, 'watch': 1},
     {'attempts': 100000, 'attempt_ok': 20000, 'attempt_raise': 30000,
      'worlds': 2000, 'chained': 2000, 'caught': 5000},
     'runtime monitor: identity, taint and capture checks after every attempt',
     'The protocols of the language, the standard library and the methods of '
     'the type and of object are tried on proxies, alone and in chains; '
     'after each, object and checker must be the same, must not be '
     'reachable from the result and not be given to operands. Trusts '
     'gc.get_referents and the trusted functions.',
     'A case is one attempt; distinct by the kind of object, the rules, the '
     'attack, whether it succeeded and whether the result is a proxy.')

spec('P25', {'c': 2, 'pure': 2, 'watch': 1},
     {'cleanups': 1500, 'changed': 1000, 'steps': 20000, 'basic_added': 1000,
      'basic_removed': 300, 'classes': 3000, 'other_threads': 500,
      'during_interaction': 200},
     'runtime oracle: snapshot of all protections around random histories',
     'The checkers of many values, types and modules are recorded; random '
     'histories of declarations, policies and interactions are followed by '
     'cleaning up, and all is compared by identity with the record. Trusts '
     'zope.testing.cleanup.',
     'A case is one history with the clean-up after it; distinct by its '
     'steps, and non-trivial if it changed what is declared for the '
     'recorded values.')

spec('P26', {'c': 2, 'pure': 2},
     {'copies': 20000, 'tables': 1000, 'proxied': 1000, 'impostors': 10000,
      'translated': 1000, 'markers': 1000},
     'runtime oracle: identity of the public permission after every copy, '
     'and questions counted for impostors',
     'Random structures are copied and pickled in all ways and compared by '
     'identity; impostors of all kinds take the place of the public '
     'permission, where the interaction must be asked. Trusts copy and '
     'pickle.',
     'A case is one way of copying with one structure, or one impostor with '
     'one route; distinct by these.', finish=['c', 'pure'])

spec('P27', {'c': 2, 'pure': 2, 'watch': 1},
     {'read': 40000, 'deeper': 10000, 'raised': 2000, 'read_list': 1000,
      'read_dict': 500, 'read_view': 500, 'read_set': 1000,
      'read_decimal': 500, 'read_iterator': 2000, 'read_interface': 500,
      'read_callable': 500, 'read_class': 500, 'read_btree': 200},
     'runtime oracle: lock-step comparison of readings with and without the '
     'default proxy',
     'Random values of the built-in types, iterators, views and interfaces '
     'are read in chains of the reading operations of their types, through '
     'a default proxy and bare; results and exceptions must be the same. '
     'Trusts the list of reading operations.',
     'A case is one chain; distinct by the type, the operation and how it '
     'ends.')
