#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
S = 'src/zope/security/'

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': hook}})

prop('C01', 'Every operation through a security proxy is authorised by its own name',
 'An operation on a security-proxied object (attribute get, set and delete, call, item get, set and delete, length, containment, '
 'iteration and next, numeric conversion, unary, binary, reflected, in-place and power operators, in any operand position) reaches the '
 'wrapped object only if that object\'s checker grants exactly the attribute or special-method name that the operation stands for '
 '(the reflected name when the proxy is the right operand). If the checker refuses, the caller gets the checker\'s error '
 '(Unauthorized or ForbiddenAttribute) and the wrapped object is neither called nor changed.',
 ['inputs', 'histories', 'configurations'],
 'all operations x operand positions x grant tables x what the wrapped type supports, in the C and the pure-Python implementation',
 'The unit tests check each slot once with one stub checker; they do not cross operations with operand positions, NotImplemented fallbacks, '
 'partial grant tables and both implementations, nor observe that a refused operation had no effect.',
 ['proxy.py', '_proxy.c'],
 [('slot functions calling check() before the operation', '_proxy.c'), ('_check_name / __getattribute__ / __setattr__', 'proxy.py')],
 observe=['result or exception of the operation', 'special methods invoked on the wrapped object', 'permissions asked of the policy'])

prop('C02', 'Nothing reached through a proxy is handed out raw unless it is a rock',
 'Whatever value an operation on a proxied object returns (attribute value, call result, item, iterator and its elements, operator result, '
 'non-boolean comparison result) is either of a type declared to need no protection or is itself security-proxied with the checker that '
 'selection assigns to that value; so everything reachable through any chain of operations from a proxy is proxied or a rock. '
 'A value that is already proxied is passed on as the same proxy, an in-place operation that returns its own target returns the same proxy, and string conversions return plain strings.',
 ['inputs', 'histories', 'configurations'],
 'all chains of operations from a proxy over object graphs, all result kinds, both implementations',
 'Tests look at single operations with one result type; the closure is a property of unbounded chains of operations and of every result type.',
 ['proxy.py', '_proxy.c', 'checker.py', '_zope_security_checker.c'],
 [('PROXY_RESULT', '_proxy.c'), ('checker.proxy applied to every result', 'proxy.py'), ('Checker.proxy', 'checker.py')],
 observe=['type, identity and checker of the returned value'])

prop('C03', 'Identity-like operations are always available, faithful and safe',
 'Comparison, hashing and truth testing of a proxied object need no permission and give what the wrapped object gives (comparisons also with the proxy as right operand); '
 'the class of a proxied object, its name and parent and its declared-interface hooks are readable unless the checker\'s own table assigns those names a permission. '
 'str() and repr() of a proxied object never fail for lack of permission: they use the wrapped object\'s own conversion only when that is granted (a representation is granted unless protected) and otherwise give a generic text that contains only the class and the address.',
 ['inputs', 'configurations'],
 'all grant tables, wrapped types, policies (including none) and both implementations',
 'Tests exercise a handful of names with default checkers; they do not cross the always-available names with tables that override them, with exceptions raised by the wrapped object or with both implementations.',
 ['proxy.py', '_proxy.c', 'checker.py'],
 [('_available_by_default', 'checker.py'), ('proxy_richcompare, proxy_hash, proxy_bool, proxy_str, proxy_repr, default_repr', '_proxy.c'), ('__eq__ .. __bool__, __str__, __repr__', 'proxy.py')],
 observe=['results, wrapped methods invoked, permissions asked'])

prop('C04', 'A name-based checker decides exactly by its permission tables',
 'Reading or operating by a name is allowed iff the checker\'s read table maps the name to the public marker, or maps it to a permission that the current interaction grants on the object, or does not map it (or maps it to None) and the name is one of the fixed always-available names (or is the iteration hook of an object that has none); '
 'writing is allowed iff the write table maps the name to the public marker or to a granted permission. Otherwise a refused permission raises Unauthorized(object, name, permission) and an unmapped name raises ForbiddenAttribute(name, object). '
 'The tables are consulted live, the policy is asked exactly the mapped permission with the protected object itself, its errors propagate, and nothing is granted by the write table for reads or conversely.',
 ['inputs', 'histories', 'configurations'],
 'all tables, names (including non-ASCII, empty, dunder), policies, objects and edit histories of the tables, both implementations',
 'Tests sample a few names and two policies on each implementation; the rule is universally quantified over names, tables, policy answers and edits.',
 ['checker.py', '_zope_security_checker.c'],
 [('CheckerPy.check / check_setattr', 'checker.py'), ('Checker_check_int / Checker_check_setattr / checkPermission', '_zope_security_checker.c')],
 [('get_permissions / set_permissions', 'name -> permission tables', 'checker.py')],
 ['outcome of check, check_getattr, check_setattr, permission_id', 'permission and object the policy was asked'])

prop('C05', 'A combined checker is the logical or of its two parts',
 'For reads, operations and writes alike, combining two checkers grants a name iff the first grants it or else the second grants it, raises ForbiddenAttribute iff both raise ForbiddenAttribute, and otherwise raises Unauthorized (the first checker\'s when the second forbids). '
 'The second checker is not consulted when the first grants, errors other than the two refusals propagate, and the rule holds for combinations of combinations.',
 ['inputs', 'programs', 'configurations'],
 'all pairs (and nested trees) of checkers, names and policy answers',
 'Tests go through the documented table once with flat checkers and do not nest combinations, use custom parts or vary the asked operation.',
 ['checker.py'],
 [('CombinedChecker.check / check_setattr', 'checker.py')],
 observe=['outcome of each check method', 'permissions asked of the policy', 'which part was consulted'])

prop('C06', 'canAccess and canWrite predict what the proxied object allows',
 'canAccess(obj, name) is True iff reading the name through obj\'s proxy would be allowed in the current interaction and False iff it would be Unauthorized; a forbidden read raises ForbiddenAttribute. '
 'canWrite(obj, name) is True iff writing would be allowed and False iff it would be Unauthorized or the write is forbidden while the read is not; it raises ForbiddenAttribute only if both are forbidden. '
 'The answers are the same for a bare object and for its proxy, and any other error propagates.',
 ['inputs', 'configurations'],
 'all checkers, names, policy answers, bare and proxied objects',
 'Tests sample some table entries; agreement with actual access must hold for all tables and policy states.',
 ['checker.py'],
 [('canAccess / canWrite', 'checker.py')],
 observe=['answers compared with real attribute access and assignment'])

prop('C07', 'A security proxy cannot be shed, rebound or doubled',
 'Proxying an already proxied object without a checker or with its own checker returns the very same proxy and with any other checker raises TypeError; a proxy without a checker cannot be created; values of rock types are never wrapped as results, nor by the factory unless a checker is given. '
 'Removing the security proxy returns exactly the wrapped object (and returns anything else unchanged), the security-aware isinstance agrees with the wrapped object, and no attribute read, write or deletion through the proxy exposes or alters its wrapped object or its checker.',
 ['inputs', 'histories', 'configurations'],
 'all sequences of proxying, unwrapping and attribute operations; both implementations',
 'Tests try single calls; the property is about arbitrary sequences of wrapping, access attempts and unwrapping.',
 ['proxy.py', '_proxy.c', 'checker.py', '_zope_security_checker.c'],
 [('ProxyFactory', 'checker.py'), ('getObject / getChecker / isinstance', 'proxy.py'), ('proxy_new', '_proxy.c'), ('Checker.proxy', 'checker.py')],
 observe=['identity of proxies, wrapped objects and checkers'])

prop('C08', 'Checker selection follows the registry by exact type',
 'The checker for a value is its own non-None security-checker attribute if it has one, otherwise what the registry holds for its exact type (never a base class), where a registered no-proxy marker means no protection, a registered function is called with the value repeatedly until it yields a checker or says no protection, and an unregistered type gets a checker that grants only the always-available names. '
 'Defining a checker for a type that already has one fails and changes nothing, defining one for something that is not a class or module fails, undefining restores the unregistered behaviour, and test cleanup restores exactly the built-in registrations (and those of declared basic types). Errors from the own attribute of the value or from registered functions propagate; instances of unregistered exception classes may be left unprotected.',
 ['inputs', 'histories', 'configurations'],
 'all define/undefine/cleanup histories, type hierarchies and registered values, both implementations',
 'Tests check single registrations; the rule must hold after every history of definitions, removals and cleanups.',
 ['checker.py', '_zope_security_checker.c'],
 [('selectChecker', '_zope_security_checker.c'), ('selectCheckerPy, ProxyFactory, defineChecker, undefineChecker, _clear', 'checker.py')],
 [('_checkers', 'type or module -> checker, function or no-proxy marker', 'checker.py')],
 ['checker of the resulting proxy or absence of a proxy'])

prop('C09', 'Values of standard types are protected exactly as documented',
 'Immutable basic values (numbers, strings, bytes, booleans, None, dates, messages, views of dicts) pass through unproxied, and values of the built-in container, iterator, function, method, class, module, weak-reference, decimal and interface-declaration types are proxied with read-only protection: '
 'through such a proxy exactly the documented names are granted, granted operations give what they give on the bare value (as protected results), and every operation that would change the value is refused without effect, apart from advancing an iterator and the registration methods that interface declarations themselves offer.',
 ['inputs', 'configurations'],
 'all operations of all standard types with built-in protection, both implementations',
 'Tests probe several operations per type; the guarantee is over every operation of every registered type, including those added by Python releases.',
 ['checker.py'],
 [('_default_checkers, BasicTypes and the _fixup functions', 'checker.py')],
 observe=['outcome of each operation, resulting value of the container'])

prop('C10', 'Protection declarations for a class change only what they name',
 'Declaring a permission for reading (or writing) one name of a class makes instances of exactly that class require that permission for exactly that name and kind of access, with the public permission id meaning public, last declaration winning, and every other name, access kind and class unaffected. '
 'Protecting a class like another one copies all current read and write protections of the other class onto it (overriding same names, keeping the rest), has no effect when the other class has none, and leaves the two independent afterwards.',
 ['histories', 'inputs', 'configurations'],
 'all histories of declarations over several classes, names and permissions, followed by accesses through proxies created before or after',
 'Tests check one declaration at a time; frame conditions and independence only show over histories.',
 ['protectclass.py', 'checker.py'],
 [('protectName, protectSetAttribute, protectLikeUnto', 'protectclass.py')],
 [('checker tables per class', 'protections in force', 'protectclass.py')],
 ['access decisions for every name and class after each declaration'])

prop('C11', 'Checker builders grant exactly the names they are given',
 'A checker built from names, from an interface or from a list of specifications protects exactly the listed names (for an interface, all its own and inherited names) with the stated permissions and grants no writes and nothing else. '
 'Listing one name with two different permissions raises a duplication error, listing it repeatedly with the same permission does not, and the order of the specifications is irrelevant.',
 ['inputs', 'configurations'],
 'all specifications: name sequences, interface hierarchies, mappings, keyword additions, repeated names',
 'Tests build a few checkers; the union/conflict semantics must hold for every specification.',
 ['checker.py'],
 [('NamesChecker, InterfaceChecker, MultiChecker', 'checker.py')],
 observe=['permission of every name, or duplication error'])

prop('C12', 'At most one interaction per thread, visible only to that thread',
 'In every thread, starting an interaction succeeds only if none is active and otherwise raises and leaves the active one in place; ending removes the active one (and is harmless without one) and restoring brings back exactly what the most recent ending removed, or nothing if there was nothing. '
 'Queries always return the calling thread\'s own current interaction or report that there is none, no thread\'s calls affect another thread, a failing policy leaves the thread without an interaction, and security decisions in a thread use that thread\'s current interaction and fail rather than grant if there is none.',
 ['schedules', 'histories'],
 'all interleavings of new/end/restore/query/check calls over several threads',
 'Tests run mostly single-threaded fixed sequences; the property quantifies over all interleavings and histories.',
 ['management.py', '_definitions.py', 'checker.py', '_zope_security_checker.c'],
 [('newInteraction, endInteraction, restoreInteraction, queryInteraction, getInteraction', 'management.py'), ('thread_local', '_definitions.py')],
 [('thread_local.interaction / previous_interaction', 'current and last ended interaction of the thread', '_definitions.py')],
 ['result of each call in each thread'])

prop('C13', 'A participation belongs to at most one interaction at a time',
 'Adding a participation succeeds only if it belongs to no interaction and then makes it belong to this one; removing succeeds only if it belongs to this one and then frees exactly that participation. '
 'Failed calls change nothing, the interaction lists exactly its current participations in order of joining, and a removed participation can join again.',
 ['histories', 'inputs'],
 'all histories of creating interactions and adding and removing participations, including participations that compare equal',
 'Tests do one add and one remove; membership must stay consistent over all histories and with equal-comparing participations.',
 ['simplepolicies.py'],
 [('ParanoidSecurityPolicy.__init__, add, remove', 'simplepolicies.py')],
 [('participations / participation.interaction', 'two sides of the membership relation', 'simplepolicies.py')],
 ['participations list and back-reference after each call'])

prop('C14', 'Policies decide only by marker, policy kind and current principals',
 'A permission check succeeds without consulting anything if the permission is the public marker or None, and otherwise returns the given interaction\'s answer, or the current one\'s if none is given, raising NoInteraction if there is none either. '
 'The paranoid policy grants a non-public permission iff every current participation\'s principal is the system user (so also without participations), the permissive one always grants, and the current default policy is the one used for each new interaction, is replaced by setting it (which returns the previous one) and is the paranoid one initially and after cleanup.',
 ['histories', 'inputs'],
 'all policy settings, participations and permission/object/interaction arguments',
 'Tests check each rule with one or two principals; they do not cross policy changes, membership changes and explicit interactions.',
 ['management.py', 'simplepolicies.py'],
 [('checkPermission, setSecurityPolicy, getSecurityPolicy', 'management.py'), ('checkPermission of both policies', 'simplepolicies.py')],
 [('_defaultPolicy', 'factory for new interactions', 'management.py')],
 ['answers of checkPermission'])

prop('C15', 'Class directives in configuration produce exactly the declared protection',
 'Executing class configuration (require and allow with attributes, interfaces, set-attributes, schemas, like-class; implements; factory) makes instances of the class require exactly the declared permission for each declared name: interface and schema declarations cover inherited names, schema writes cover exactly the non-readonly fields, allow means public, and nothing else becomes accessible. '
 'Declaring the same name of a class twice for the same kind of access conflicts and nothing takes effect, and incomplete declarations (nothing required, no permission) are rejected.',
 ['inputs', 'programs', 'configurations'],
 'all configurations built from these directives over several classes, interfaces and schemas',
 'Tests have one ZCML snippet per feature; combinations, inheritance and conflicts are unbounded.',
 ['metaconfigure.py', 'metadirectives.py', 'protectclass.py', 'zcml.py', 'meta.zcml'],
 [('ClassDirective', 'metaconfigure.py'), ('directive schemas', 'metadirectives.py')],
 observe=['permission tables and access decisions after executing the configuration, or the configuration error'])

prop('C16', 'Module directives protect exactly the declared module names',
 'Executing module configuration makes each name given by attributes or interfaces of an allow accessible to everyone and of a require accessible with that permission, for exactly that module; every other name of a protected module, and every name other than __name__ of an undeclared module, stays forbidden. '
 'A name given several times in one directive counts once, and declaring a name of a module in two directives conflicts with no effect.',
 ['inputs', 'programs', 'configurations'],
 'all module configurations over several modules, names and interfaces',
 'Tests have a few fixed snippets; the frame conditions and duplicate rules quantify over all configurations.',
 ['metaconfigure.py', 'metadirectives.py', 'checker.py', 'meta.zcml'],
 [('protectModule, allow, require, _names', 'metaconfigure.py'), ('module checker lookup', 'checker.py')],
 observe=['access decisions on the proxied module after executing the configuration, or the conflict'])

prop('C17', 'Configured permission ids are mapped where redefined and must exist',
 'Every permission id given in configuration must be defined, as a permission utility or as the public one, by the time all configuration has run, whatever the order of definition and use, or else configuration fails; malformed ids are rejected. '
 'Where a permission is redefined in a configuration file, uses later in that file and files it includes are replaced by the substituted permission, uses elsewhere are not.',
 ['inputs', 'programs', 'configurations'],
 'all orders of permission definitions, redefinitions and uses over nested configuration contexts',
 'Tests have single-use snippets; scope and order matter over all arrangements.',
 ['zcml.py', 'permission.py', 'metadirectives.py', 'meta.zcml'],
 [('Permission.fromUnicode / _validate, redefinePermission, permission', 'zcml.py'), ('checkPermission', 'permission.py')],
 [('permission_mapping', 'redefinitions per configuration context', 'zcml.py')],
 ['permission in force for each declared name, or the configuration error'])

prop('C18', 'Permission listings show exactly the registered permissions',
 'A permission id counts as defined iff it is the public marker or a permission utility of that name is registered in the given context; listing all permissions yields each defined id exactly once except the public one. '
 'The permissions vocabulary has exactly one term per registered permission (value the permission, token its id); the permission-ids vocabulary has exactly one term per registered id sorted by id, with the public one first, titled Public and valued by the public marker, when registered.',
 ['histories', 'inputs'],
 'all registration and removal histories, ids and lookup contexts',
 'Tests register a few permissions; sorting, exclusion and context rules hold for all sets of ids and histories.',
 ['permission.py', 'zcml.py', 'testing.py', 'permissions.zcml', 'configure.zcml'],
 [('checkPermission, allPermissions, PermissionsVocabulary, PermissionIdsVocabulary', 'permission.py')],
 observe=['terms and answers after each registration change'])

prop('C19', 'Trusted adapters see bare objects and come back protected',
 'A trusted adapter factory called with at least one proxied argument calls its factory with all arguments unproxied and returns the adapter security-proxied; called with none proxied it returns the plain adapter. '
 'A locating untrusted factory passes its arguments as they are. A locatable adapter without parent gets the first argument as parent (unproxied for trusted ones) and one with a parent keeps it; a non-locatable adapter is given such a location by the locating untrusted factory, and by the locating trusted factory only when an argument was proxied, and never by the plain trusted factory.',
 ['inputs', 'configurations'],
 'all argument tuples (which are proxied), adapter kinds, parents and factory classes',
 'Tests use one or two arguments and a few adapter kinds per factory class.',
 ['adapter.py'],
 [('assertLocation, LocatingTrustedAdapterFactory, TrustedAdapterFactory, LocatingUntrustedAdapterFactory', 'adapter.py')],
 observe=['arguments the factory received', 'type, proxying and parent of the adapter returned'])

prop('C20', 'A decorator adds protection declarations to those of what it decorates',
 'The checker of a security-aware decorator or location proxy grants a name iff the decorator class\'s own declaration grants it or the decorated object\'s checker does (the proxy\'s checker if that object is security-proxied, else its own or its type\'s), refusing otherwise as a combined checker would. '
 'If only one side has a checker that one is used unchanged, if neither has the attribute is absent, and the checker cannot be assigned through the decorator. The decorator class itself, as a value, is protected like any other class.',
 ['inputs', 'programs', 'configurations'],
 'all stackings of decorators, location proxies and security proxies over objects with all kinds of declarations',
 'Tests cover one layer with fixed checkers; stackings and combinations of declarations are unbounded.',
 ['decorator.py', 'checker.py'],
 [('DecoratedSecurityCheckerDescriptor', 'decorator.py'), ('CombinedChecker', 'checker.py')],
 observe=['access decisions through the proxied decorator'])

prop('C21', 'Watching checks reports decisions without changing them',
 'With check watching enabled, every decision, error and result is the same as without it. '
 'Each refused check is reported on the error stream with its kind (unauthorized or forbidden), name and object, and granted checks are reported exactly when the verbosity is above one.',
 ['inputs', 'configurations'],
 'all checkers (plain and combined), check kinds, names, policy answers and verbosity levels, both implementations',
 'Tests log single checks; the invariance must hold for the complete decision function.',
 ['checker.py'],
 [('CheckerLoggingMixin, WatchingChecker, WatchingCombinedChecker, WATCH_CHECKERS', 'checker.py')],
 observe=['decision of watching and plain checkers', 'lines written'])

prop('C22', 'Proxies keep exactly their object and checker alive and take part in collection',
 'A proxy keeps its wrapped object and its checker (with its tables) alive as long as it lives and stays usable for that time; when the last reference to a proxy goes away, so do its references, and cycles that run through proxies, checkers and wrapped objects are reclaimed by the garbage collector. '
 'No operation, successful or refused, changes the lifetime of the objects involved beyond its result.',
 ['histories', 'inputs'],
 'all graphs of proxies, checkers, tables and objects and all orders of dropping references; repeated operations of every kind',
 'Tests have one cycle each for proxy and checker; leaks and premature frees depend on the operation and the path taken.',
 ['_proxy.c', '_zope_security_checker.c', 'proxy.py'],
 [('proxy_traverse, proxy_clear, proxy_dealloc, check1, check2, PROXY_RESULT', '_proxy.c'), ('Checker_traverse, Checker_clear, selectChecker, Checker_proxy', '_zope_security_checker.c')],
 observe=['weak references and reference counts before and after'])

prop('C23', 'The testing helpers set up and tear down interactions faithfully',
 'Creating a test interaction for a principal id makes it the current interaction with exactly that principal participating, and fails if one is active. '
 'The interaction context manager leaves an existing interaction untouched and yields nothing, otherwise creates one for the block, yields its principal and ends it however the block is left; the principal and participation stubs expose what they were given.',
 ['histories', 'inputs'],
 'all nestings of the context manager with new/end calls and exceptions inside the block',
 'Tests use it once with and once without an existing interaction.',
 ['testing.py', 'management.py'],
 [('interaction, create_interaction, Principal, Participation, addCheckerPublic', 'testing.py')],
 observe=['current interaction and its principals before, inside and after the block'])

prop('C24', 'The public marker keeps its identity',
 'The public marker is one object that stays itself when used as a permission, returned through a proxy, security-proxied or pickled and unpickled, so it is recognised wherever it is compared by identity. '
 'It grants access in every checker and policy whatever the interaction, and no other value, in particular no string such as the public permission id, acts as it at check time (None, documented as granted, is the exception in `management.checkPermission`).',
 ['inputs', 'histories', 'configurations'],
 'all routes by which the marker or a look-alike can reach a check',
 'Tests pickle it once; recognition has to hold on every route and no look-alike may pass.',
 ['checker.py', '_zope_security_checker.c', 'simplepolicies.py', 'management.py'],
 [('Global, CheckerPublic', 'checker.py'), ('CheckerPublic comparison', '_zope_security_checker.c')],
 observe=['identity after each route, decisions with look-alikes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
