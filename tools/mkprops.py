#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list of properties is maintained here."""
import json, os
B = 'src/node/behaviors/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('P01', 'Every shipped node type is a faithful mapping',
  'After any sequence of mapping operations (item set/get/delete, get, pop, popitem, setdefault, update, clear), every read of a BaseNode, OrderedNode, Node, AttributedNode or attributes node (indexing, get, in, has_key, len, keys/values/items and their iterators) agrees with a plain dictionary given the same operations, and in insertion order on ordered nodes. Failing operations raise what a dictionary raises and change nothing. A node is always true, even when it is empty.',
  ['histories', 'inputs'], 'all operation sequences over arbitrary keys (any text, non-string hashables) on every shipped node type',
  'The tests run one fixed script of 20 calls with keys foo, bar and baz; nothing compares histories or unusual keys with a dictionary.',
  [B+'mapping.py', B+'storage.py', B+'nodify.py', 'src/node/base.py'],
  [('FullMapping default methods built on __getitem__/__setitem__/__delitem__/__iter__', B+'mapping.py'), ('DictStorage/OdictStorage', B+'storage.py')])

p('P02', 'Composing behaviors keeps the mapping contract',
  'A node class plumbed from any documented combination of the shipped behaviors (validation, nodespaces, attributes, uuids, lifecycle, adoption, caching, references, ordering, unicode keys, aliasing, fallback, attribute access, events) over dict or odict storage still behaves like a dictionary for its ordinary keys under any operation sequence. No behavior loses, duplicates, renames or reorders children, or makes a read disagree with another read.',
  ['configurations', 'histories'], 'all subsets of behaviors in canonical order times all operation sequences',
  'Each test composes one or two behaviors by hand and calls two or three methods; there are thousands of compositions.',
  [B+'__init__.py', B+'mapping.py', B+'common.py', B+'cache.py', B+'nodespace.py', B+'reference.py', B+'lifecycle.py', B+'fallback.py', B+'alias.py'],
  [('plumbing chains of __getitem__, __setitem__, __delitem__, __iter__', B)])

p('P03', 'Explicit ordering operations place nodes exactly where asked',
  'On a node that supports ordering, insertfirst, insertlast, insertbefore, insertafter and swap, mixed with any other mapping operations, always yield exactly the child order that the same operations produce on a plain list, seen identically by every forward or backward traversal. An inserted node is a full child (its name and parent are set). An insertion or swap that is rejected (no name, name already used, node already in the tree, reference node not a child, invalid value) raises and leaves children, order and the rejected node as they were.',
  ['histories', 'inputs'], 'all sequences of ordering and mapping operations, including rejected ones',
  'The tests insert and swap a few nodes in one fixed order and never continue after a rejected insertion.',
  [B+'order.py', B+'storage.py', B+'reference.py'],
  [('insertbefore/insertafter on odict storage, then regular assignment', B+'order.py'), ('_validateinsertion', B+'order.py')])

p('P04', 'Every contained node knows where it is',
  'At any time, each node contained in a tree has its container as parent and its key as name, its root is the top of the tree, its path lists the names from the root down to it, and looking up that path from the root (as list or as slash separated string) gives that very node. This holds whichever way the node got there: assignment, setdefault, update, ordered insertion, or being moved from another place.',
  ['histories', 'inputs'], 'all histories of building, moving, renaming and removing subtrees at any depth',
  'The tests check name, parent and path on one hand-built tree right after construction.',
  [B+'common.py', B+'nodify.py', 'src/node/utils.py'],
  [('Adopt.__setitem__/setdefault', B+'common.py'), ('path, root, LocationIterator, node_by_path', B+'nodify.py, src/node/utils.py')],
  [('__name__/__parent__', 'location of a node', B+'nodify.py')])

p('P05', 'Invalid children are rejected without a trace',
  'A validating node accepts exactly node instances as children: classes and non-node values are rejected with ValueError by every way of writing (item assignment, setdefault, update, ordered insertion), while a node that allows non-node children accepts any value and hands back the identical object. A rejected value leaves no trace: the children, their order, the location of the rejected value and the reference index are unchanged.',
  ['inputs', 'histories'], 'all kinds of values, all write methods, all histories before and after the rejection',
  'The tests try one class and one string through __setitem__ only, on an empty node.',
  [B+'common.py', B+'order.py', B+'attributes.py'],
  [('NodeChildValidate.__setitem__', B+'common.py'), ('Adopt roll back', B+'common.py')])

p('P06', 'A failing storage never leaves a half-done change',
  'When the underlying storage raises any exception while a child is written, deleted or detached, the exception reaches the caller and the tree is as before: same children in the same order, same reference index, the node that was to be added keeps its old name and parent, the node that was to be removed is still fully a child. Later operations work normally, including lifecycle events.',
  ['fault_sequences', 'histories', 'configurations'], 'every storage write and delete in a history failing with any exception type, for all behavior compositions',
  'The tests inject one KeyError-like fault for adoption and check nothing else of the tree.',
  [B+'common.py', B+'reference.py', B+'order.py', B+'lifecycle.py', B+'cache.py'],
  [('Adopt.__setitem__ restores name and parent', B+'common.py'), ('order of storage access and bookkeeping', B+'reference.py, '+B+'lifecycle.py')])

p('P07', 'The reference index contains exactly the nodes of the tree',
  'From every node of a referencing tree, looking up a uuid (by node() or by the index, as UUID or as integer) finds exactly the node of that tree having this uuid, and nothing for any other uuid. This stays so through adding nodes and whole subtrees, ordered insertion, deleting, popping, clearing, detaching, re-adding and moving between trees, and assigning new uuids; a removed subtree forms an exact index of its own.',
  ['histories'], 'all histories of structural changes on forests of referencing nodes',
  'The tests look at the index of one small tree after a few hand-picked calls.',
  [B+'reference.py'],
  [('Reference.__setitem__/__delitem__/detach, uuid setter', B+'reference.py')],
  [('index', 'uuid to node mapping shared by all nodes of a tree', B+'reference.py')])

p('P08', 'No two nodes of a tree ever share a uuid',
  'Within one referencing tree no two nodes have the same uuid. Adding a node or subtree in which any uuid is already used by another node of the tree, or assigning a used uuid, is refused with an exception and changes neither tree, nor any uuid, location or index.',
  ['histories', 'inputs'], 'all histories in which trees with overlapping uuids (twins, deep copies, nil uuid) meet',
  'The tests try one duplicate assignment; they never merge subtrees with a duplicate deep inside or check what is left behind.',
  [B+'reference.py', B+'order.py'],
  [('intersection check in __setitem__, check in uuid setter', B+'reference.py')])

p('P09', 'UUID aware nodes get fresh uuids exactly when they should',
  'Each UUID aware node has its own uuid from creation. A deep copy gets new uuids for the copied root, and for all UUID aware descendants if recursive overwriting is enabled (else they keep theirs); originals keep their uuids, and a shallow copy is refused. Setting uuids for a subtree assigns only to UUID aware nodes, replaces existing uuids only if asked to, and descends only if asked to. New uuids come from the uuid factory of the node the operation is called on.',
  ['inputs', 'configurations'], 'all trees mixing UUID aware and other nodes, all flag combinations',
  'The tests copy one tree of three nodes.',
  [B+'common.py'], [('UUIDAware.deepcopy, set_uuid_for', B+'common.py')])

p('P10', 'Copies and pickles are faithful and independent',
  'A deep copy or a pickle round trip of a tree yields a tree of the same types, structure, order, names, attributes, nodespaces and uuid lookups, correctly parented, sharing no node with the original, and any later change on either side is invisible on the other. A shallow copy is a distinct node with the same name, parent and identical children, and copying changes nothing on the original.',
  ['inputs', 'histories'], 'all trees of shipped node types, all change histories after copying',
  'The tests copy a tree of two nodes and check identity of one child.',
  [B+'mapping.py', B+'nodify.py', B+'nodespace.py', B+'reference.py', 'src/node/utils.py'],
  [('ClonableMapping, Nodify.copy', B+'mapping.py, '+B+'nodify.py'), ('Unset', 'src/node/utils.py')])

p('P11', 'JSON serialization round-trips node trees',
  'Deserializing the serialization of a node tree, or of a list of trees, gives trees of the same classes, names, child order and attributes, where attribute values may be nested JSON data, UNSET, UUIDs, classes and functions. Given a root node, deserialized nodes become its children under their names. Serializing does not change the tree, and serializing the result again gives the same data.',
  ['inputs'], 'all trees of shipped or custom node types with arbitrary names and attribute values',
  'The tests serialize six fixed trees and compare with fixed strings.',
  ['src/node/serializer.py'],
  [('NodeEncoder.default, NodeDecoder.decode', 'src/node/serializer.py'), ('built-in serializers for INode and IAttributes', 'src/node/serializer.py')])

p('P12', 'Simple mode serialization is the plain projection of the tree',
  'In simple mode the result is exactly the nested plain data of the tree: the name, the children if there are any (in order), the attributes if the node type has attributes, and the dotted class name only if requested. UNSET, UUIDs, classes and functions appear as their documented string forms, and no type markers appear anywhere.',
  ['inputs', 'configurations'], 'all trees, with and without class names',
  'The test serializes one two-level tree.',
  ['src/node/serializer.py'], [('NodeEncoder simple_mode', 'src/node/serializer.py')])

p('P13', 'Custom serializers run for every matching node',
  'For each serialized or deserialized node, exactly the registered callbacks whose interface the node provides, or whose class it is an instance of, are called once each in registration order and see the same data; registering a key again replaces its callback. Keyword arguments recorded by a serializer reach the constructor on deserialization, and class names are resolved even if their module is not imported yet.',
  ['configurations', 'inputs'], 'all sets of registrations over interface and class hierarchies, all trees',
  'The tests register one class based and one interface based callback in one process.',
  ['src/node/serializer.py'], [('serializer/deserializer registry', 'src/node/serializer.py'), ('NodeDecoder.resolve, node_factory', 'src/node/serializer.py')])

p('P14', 'Attributes and nodespaces are kept apart from children',
  'Attributes and nodespaces (names wrapped in double underscores) of a node never appear among its children or in its length, and changing, deleting or clearing one of the three never affects the others, even for equal keys. The attributes are available identically as attrs, attributes, and nodespace __attrs__, the nodespace __children__ is the node itself, and each nodespace has the node as parent and its key as name.',
  ['histories', 'inputs'], 'all interleavings of operations on children, attributes and nodespaces with arbitrary keys',
  'The tests set one attribute and one nodespace on one node.',
  [B+'nodespace.py', B+'attributes.py'], [('Nodespaces plumbs on item access', B+'nodespace.py'), ('Attributes.attrs', B+'attributes.py')],
  [('nodespaces', 'ordered mapping of nodespace name to node', B+'nodespace.py')])

p('P15', 'Attribute style access is item access',
  'Through AttributeAccess, as_attribute_access(), attrs with attribute access enabled, and nodes giving access to children by attribute, reading an attribute gives exactly the item of that name, a missing item raises AttributeError (so hasattr is false), and writing or deleting through the wrapper changes exactly that item of the wrapped object. Real attributes of a node are never shadowed by its children.',
  ['inputs', 'histories'], 'all names that are not attributes of the wrapper itself, all mixes of both access styles',
  'The tests read and write one attribute.',
  ['src/node/utils.py', B+'common.py', B+'attributes.py'], [('AttributeAccess', 'src/node/utils.py'), ('GetattrChildren.__getattr__', B+'common.py')])

p('P16', 'Aliasers are invertible',
  'For every aliaser and key, unaliasing the alias of a key gives the key back, and aliasing an unaliased key gives the alias back; prefix, suffix and combined aliasers add exactly their (possibly empty) affixes, chains apply their members in order and undo them in reverse, dictionary aliasers map exactly as their data says. Keys an aliaser cannot translate raise KeyError, except that a non-strict dictionary aliaser passes them through.',
  ['inputs', 'configurations'], 'all keys, affixes, dictionaries and nested chains',
  'The tests try one prefix, one suffix and one chain with one key.',
  [B+'alias.py'], [('alias/unalias of the aliaser classes', B+'alias.py')])

p('P17', 'An aliased node is the same mapping under other keys',
  'Every read or write of a node with an aliaser under an aliased key acts on the storage under the unaliased key, iteration gives exactly the aliased keys, and keys a dictionary aliaser does not list are hidden. A failing access raises KeyError; for a key the aliaser can translate it names the aliased key the caller used, never the hidden key.',
  ['histories', 'configurations'], 'all aliasers and operation histories',
  'The tests set and read two keys for two aliasers.',
  [B+'alias.py'], [('Alias plumbs', B+'alias.py')])

p('P18', 'The cache is never stale and never recomputes',
  'A caching node reads each child from the underlying source at most once until that child is set, deleted or invalidated, returning the identical object meanwhile; after a set, delete or invalidation the next read shows the current source. Invalidating one key keeps the other entries, failed lookups are not cached, and iteration and length always reflect the source.',
  ['histories'], 'all interleavings of reads, writes, external source changes and invalidations, any values including false ones',
  'The tests read one key twice and look at the cache dictionary.',
  [B+'cache.py'], [('Cache plumbs', B+'cache.py')], [('cache', 'key to loaded child', B+'cache.py')])

p('P19', 'Invalidation drops exactly what was asked for',
  'invalidate(key) discards the in-memory child of that key only, invalidate() discards all of them, and invalidating an unknown key raises KeyError and changes nothing. With volatile storage invalidation on lazily created children, valid keys remain listed, a key that is not loaded yet is accepted silently, and the next access creates a new child.',
  ['histories', 'configurations'], 'all histories of set, access and invalidate on both invalidation behaviors',
  'The tests invalidate one key and then everything.',
  [B+'cache.py'], [('Invalidate, VolatileStorageInvalidate', B+'cache.py')])

p('P20', 'Child factories create each child once, lazily and in order',
  'A factory driven node lists exactly its factory keys in their order regardless of which children were created; accessing a key calls its factory exactly once and from then on gives the same child, named and parented by the node. A deleted or invalidated child is created anew on next access, an assigned child is used instead of the factory, and unknown keys raise KeyError without calling any factory. This also holds for what factories themselves read of the same or other nodes, and after factories failed.',
  ['histories'], 'all access, assignment and deletion histories over any factory sets',
  'The test accesses two children once.',
  [B+'common.py'], [('ChildFactory.__getitem__/__iter__', B+'common.py')])

p('P21', 'Fixed children are complete, ordered and read-only',
  'A fixed children node has from construction exactly one child per declared factory, in declared order, each named and parented by the node and the same object on every access. Every attempt to modify the children through any mapping method is refused with NotImplementedError and changes nothing; instances do not share children.',
  ['histories', 'inputs'], 'all factory lists and all sequences of reads and attempted writes',
  'The test tries one set and one delete.',
  [B+'common.py'], [('FixedChildren', B+'common.py')])

p('P22', 'Fallback lookup finds the documented substitute or fails cleanly',
  'Reading an existing child always gives that child. Reading a missing key searches the parents from the nearest to the root for a fallback subtree, follows the same subpath in it, continues from there to unvisited parents, and yields the first node found; if there is none (including parents whose declared fallback child does not exist) a KeyError for the requested key is raised. The search never loops, never changes the tree, and a failed search does not influence later lookups.',
  ['inputs', 'histories'], 'all trees with any number of nested, missing or overlapping fallback keys and all lookups in any order',
  'The test looks up a dozen paths in one fixed tree with two fallback keys.',
  [B+'fallback.py'], [('_to_root, _to_leaf, fallback_processing', B+'fallback.py')])

p('P23', 'Lifecycle events are exactly one per change',
  'Each creation, addition, removal and detachment of a child, and each change of lifecycle aware attributes, notifies exactly one event of the configured class, after the change took effect, carrying the right object, parent and name. Reads and failing operations notify nothing, detaching notifies only a detached event, and a failure never mutes later events.',
  ['histories', 'configurations'], 'all histories of mapping operations on lifecycle aware trees, with default or custom event classes',
  'The tests check one event of each kind, one at a time.',
  [B+'lifecycle.py', 'src/node/events.py'], [('Lifecycle, AttributesLifecycle', B+'lifecycle.py')])

p('P24', 'Event dispatch calls exactly the bound subscribers',
  'Dispatching an event calls each subscriber bound to that event on that dispatcher exactly once, in binding order, with the given arguments, whatever sequence of register, bind (also repeated), unbind (by event, by subscriber, by both, of everything) and dispatch led there, and whatever subscribers bind or unbind meanwhile. Binding an unknown event raises UnknownEvent, and declaring events on a class or instance never makes them known to unrelated classes, base classes or other instances.',
  ['histories', 'programs'], 'all histories over several dispatchers and class hierarchies, with subscribers that change bindings',
  'The tests bind and unbind one or two subscribers in fixed order.',
  [B+'events.py'], [('Events.bind/unbind/dispatch', B+'events.py'), ('metaclass hook collecting events', B+'events.py')])

p('P25', 'Event attributes hold values and dispatch exactly on change',
  'An event attribute reads as its default until set and afterwards as the last value set, per instance and in the configured storage, and as its default again after deletion. Setting it dispatches its event once if the value differs from the previous one (always, if so configured), calling decorated subscribers with instance and value before bound ones with the value, all seeing the new value; deleting dispatches UNSET to the bound subscribers. Setting other event attributes from within a subscriber works the same, also if a class overrides dispatch and sets, dispatches or fails in there.',
  ['histories', 'configurations'], 'all value sequences over several attributes, instances and subclasses, with nested changes',
  'The tests set one attribute twice per configuration.',
  [B+'events.py'], [('EventAttribute, _subscribers', B+'events.py')])

p('P26', 'Event suppression is exactly scoped',
  'Within suppress_events exactly the given events (all of them if none are given) are muted, nested contexts add up, and leaving a context (also by an exception) restores exactly what was in effect before. Contexts may be left in any order: what the contexts still entered name stays muted. A context that was created but not entered suppresses nothing, a context can be reused, and suppressed changes still take effect on the data.',
  ['histories', 'inputs'], 'all nestings of contexts for any event sets, with exceptions, on several dispatchers',
  'The tests enter one context per form.',
  [B+'events.py'], [('suppress_events', B+'events.py')])

p('P27', 'Threads do not influence each other',
  'Suppressing events, dispatching events, setting event attributes and fallback lookups in one thread give the same results and notifications as if no other thread were running, for every interleaving of threads working on their own objects, including threads started after import.',
  ['schedules'], 'all interleavings of two or three threads at any point inside the library',
  'All tests are single threaded.',
  [B+'events.py', B+'fallback.py'], [('thread local suppression, subscriber and fallback state', B+'events.py, '+B+'fallback.py')])

p('P28', 'Tree locks exclude all other threads from a tree',
  'While a thread holds the lock of a tree, taken from any node of it, no other thread can take it from any node, including when several threads take it for the first time at once; the owner can take it again, and it becomes free exactly when it released as often as it acquired. Methods decorated with locktree run under that lock with unchanged arguments, result and exceptions, and release it in every case; locks of different trees are independent.',
  ['schedules', 'histories'], 'all interleavings of threads acquiring, re-acquiring and releasing on nodes of one or several trees',
  'The tests run a few threads with a mocked lock and sleeps.',
  ['src/node/locking.py'], [('TreeLock, locktree', 'src/node/locking.py')])

p('P29', 'String encoding and decoding of nested data is lossless',
  'Decoding an encoded structure of texts, lists, tuples, dictionaries and nodes gives an equal structure, with all texts encoded and all byte strings decoded in the chosen encoding at every nesting level, container types kept, and nodes turned into dictionaries. Byte strings invalid in the encoding are left as they are in soft mode and raise otherwise, other values are passed through, and the input is never modified.',
  ['inputs', 'configurations'], 'all nested structures, encodings, and valid or invalid byte strings',
  'The tests encode a handful of literals.',
  ['src/node/utils.py', B+'common.py'], [('StrCodec', 'src/node/utils.py')])

p('P30', 'A reverse mapping is the exact inverse view',
  'A ReverseMapping of a mapping or node always gives for a value the first key holding it, KeyError or the default for values not held, and its keys, values, items, iteration, membership and length are those of the mapping with keys and values exchanged, also after the mapping changed.',
  ['inputs', 'histories'], 'all mappings, including ones with equal, false and unhashable values',
  'The test reverses one dictionary with two entries.',
  ['src/node/utils.py'], [('ReverseMapping', 'src/node/utils.py')])

p('P31', 'The tree representation shows every node once, in place',
  'treerepr shows exactly one line per node and per non-node value of the tree, in child order for ordered nodes and sorted by key for unordered ones, each indented by its depth with the given prefix below its parent, naming class and node name without namespace prefix (or key and value). Rendering changes nothing and is the same for equal trees.',
  ['inputs'], 'all trees, key types and prefixes',
  'The tests print a few two-level trees.',
  [B+'nodify.py'], [('treerepr, noderepr', B+'nodify.py')])

p('P32', 'Acquisition and filtering respect interfaces and classes',
  'acquire gives the nearest proper ancestor that provides the given interface or is an instance of the given class, and None if there is none, whatever truth value the nodes have. filtereditems, filtereditervalues and filteredvalues give exactly the direct children that provide the given interface, in child order.',
  ['inputs'], 'all trees mixing classes and directly provided interfaces, all queries',
  'The tests acquire and filter in one tree of three nodes.',
  [B+'nodify.py'], [('acquire, filtereditems', B+'nodify.py')])

p('P33', 'Node instances share no state',
  'Whatever is done to one node instance (children, attributes, nodespaces, cache, references, event bindings, registered events) has no effect on any other instance of the same class, of a base class or of a subclass that is not in the same tree, for every behavior composition.',
  ['histories', 'configurations'], 'all interleaved histories on several instances of one class hierarchy',
  'The tests use one root instance at a time.',
  [B+'storage.py', B+'cache.py', B+'nodespace.py', B+'reference.py', B+'events.py', 'src/node/utils.py'], [('per instance storage created lazily', B+'storage.py, src/node/utils.py')])

p('P34', 'The mapping contract tester gives the right verdicts',
  'Running the full mapping tester on a conforming mapping reports OK for every contract method, and on a mapping in which one method is missing or misbehaves it reports a failure for that method without crashing, and OK for those before it. A contract method without a test raises ContractError, and wherefrom names for each contract method the class, or else the first direct base, that defines it.',
  ['programs'], 'all single and combined breakages of contract methods on any conforming class',
  'The tests run it on two correct classes and one broken one.',
  ['src/node/testing/base.py', 'src/node/testing/fullmapping.py'], [('FullMappingTester.test_*', 'src/node/testing/fullmapping.py'), ('BaseTester.run', 'src/node/testing/base.py')])

p('P35', 'Moving subtrees conserves nodes',
  'Detaching returns the very child with its whole subtree, order, attributes and values unchanged and removes only that child from its parent; adding it elsewhere puts exactly that subtree there. Across any history of detaching, removing and adding, no node is lost, duplicated or changed in place.',
  ['histories'], 'all histories of detaching and re-adding subtrees within and between trees of any node type',
  'The tests detach one leaf.',
  [B+'nodify.py', B+'reference.py', B+'common.py'], [('Nodify.detach, Reference.detach, Adopt', B+'nodify.py, '+B+'reference.py')])

p('P36', 'Utility decorators are transparent',
  'A function decorated with instance_property is evaluated at most once per instance, whatever value it returns, never shares its value between instances, and is retried if it raised; a function decorated with debug is called exactly once per call with the same arguments and its result or exception is passed on unchanged.',
  ['inputs', 'histories'], 'all values, exceptions and access sequences over several instances and properties',
  'The tests access one property twice and call one function.',
  ['src/node/utils.py'], [('instance_property, debug', 'src/node/utils.py')])

p('P37', 'Modules can be imported in any order',
  'Whichever module of the package is imported first, and in whatever order others follow, every import succeeds, every module exports the same names with the same classes, interfaces and functions, an object exported by several modules is one and the same object, and the parts work together as in any other order.',
  ['schedules', 'configurations'], 'all orders in which (a part of) the modules can be imported',
  'The test suite imports the modules in one order, in which circular imports happen to work.',
  ['src/node'], [('imports of node.behaviors.events and node.events of each other', 'src/node/events.py'), ('deprecated node.parts', 'src/node/parts.py'), ('imports of all behaviors', 'src/node/behaviors/__init__.py')])

p('P38', 'Nodes honour the interfaces they declare',
  'At any point of their life, nodes of shipped types and of any composition of behaviors (and subclasses of those) provide exactly the node interfaces declared by their behaviors and fulfil them: every declared attribute can be read and every declared method accepts the declared arguments. The same holds for attributes, nodespaces, aliasers, events and dispatchers. A node is true even without children unless its class says otherwise, is equal to nothing but itself, can be hashed, and has a text with its class and name.',
  ['configurations', 'histories', 'inputs'], 'all compositions of behaviors, node names and histories of operations',
  'The tests verify no interface and compare the text of a few fixed nodes.',
  ['src/node/interfaces.py', 'src/node/behaviors'], [('interface declarations', 'src/node/interfaces.py'), ('implementer declarations of the behaviors', 'src/node/behaviors/common.py'), ('Nodify.__bool__, __repr__', 'src/node/behaviors/nodify.py')])

p('P39', 'Unicode aware nodes hold texts',
  'On a unicode aware node, a key given as UTF-8 byte string means the same as the decoded text in every operation: children are stored, listed and named under texts only, and found by both forms. String values set as byte strings are returned as texts; other values, other keys and byte strings that cannot be decoded are kept as they are. This holds for all compositions and histories.',
  ['histories', 'inputs', 'configurations'], 'all histories of mapping operations with keys and values in either form',
  'The test uses texts only, which need no decoding.',
  ['src/node/behaviors/common.py'], [('UnicodeAware', 'src/node/behaviors/common.py'), ('decode', 'src/node/utils.py')])

p('P40', 'Behaviors are transparent to constructors and class settings',
  'Creating a node of any composition calls every constructor of its class hierarchy exactly once with the very arguments given, and passes on its exceptions; a new node has the name and parent given, no children but fixed ones, a uuid if the type has one, and one created event is notified after all constructors if the type is lifecycle aware. Settings of a class or subclass (child validation, attribute factory and access, uuid factory, aliaser, event classes, cache) replace the defaults for its instances.',
  ['configurations', 'inputs'], 'all compositions, class hierarchies, constructor arguments and settings',
  'The tests create nodes with at most a name and a parent.',
  ['src/node/behaviors'], [('__init__ plumbing of Reference, UUIDAware, Lifecycle, FixedChildren', 'src/node/behaviors/common.py'), ('DefaultInit', 'src/node/behaviors/nodify.py'), ('defaults of the behaviors', 'src/node/behaviors/attributes.py')])

p('P41', 'Reading a tree does not change it',
  'Reading (get, contains, keys, values, items, iteration even if not finished, path, root, lookup by path or uuid, acquire, filtering, copying, serializing, printing, comparing, reading attributes, and reads that fail) changes nothing: a history of changes leads to the same children, order, names, parents, attributes, nodespaces, uuids, uuid index and lifecycle events, whatever is read in between, and lists that were read belong to the reader. Only what is documented as created on first access (nodespaces, attributes, factory children, caches) may come into being.',
  ['histories'], 'all histories of changes with any reads in between',
  'The tests read right before they compare and never compare with a run without reads.',
  ['src/node/behaviors', 'src/node/utils.py', 'src/node/serializer.py'], [('mapping reads', B+'mapping.py'), ('Nodify reads', B+'nodify.py'), ('node_by_path, LocationIterator', 'src/node/utils.py, src/node/locking.py'), ('serialize', 'src/node/serializer.py')])

p('P42', 'What is removed is released',
  'Once a child, attribute, nodespace, cached value or subscriber was removed, replaced, invalidated or unbound and nobody else uses it, the library does not keep it: no node, index, cache, dispatcher or module holds it, also after failed changes, lookups, copies, serialization or locking. What is still in use stays: no node, value or subscriber disappears while a tree or dispatcher refers to it.',
  ['histories'], 'all histories of structural changes, cache use, invalidation and event binding',
  'The tests never look at what stays alive.',
  [B+'reference.py', B+'cache.py', B+'events.py', B+'lifecycle.py', B+'fallback.py', 'src/node/serializer.py', 'src/node/locking.py'], [('Reference._index', B+'reference.py'), ('subscribers', B+'events.py'), ('Cache', B+'cache.py')])

p('P43', 'Mapping operations are built on the four item methods',
  'Whatever behaviors a class has, every change made through any operation (set, del, update, setdefault, pop, popitem, clear, detach, insertions, invalidation of stored children) passes __setitem__ or __delitem__ of every behavior and overriding subclass exactly once per changed item, in order, with the key and the very value as seen at that place; swapping and forgetting volatile storages pass none. Every read is answered from __getitem__ and __iter__ alone, so that any storage that provides the four item methods (as behavior, base class or methods of the class) gets a full mapping from the behaviors.',
  ['configurations', 'histories'], 'all compositions, places of own behaviors, storages and histories',
  'The tests use the storages the library ships and no overriding subclass.',
  [B+'mapping.py', B+'nodify.py', B+'common.py', B+'order.py', B+'alias.py'], [('ExtendedWriteMapping, ExtendedReadMapping', B+'mapping.py'), ('Nodify.detach', B+'nodify.py'), ('Order.insertbefore', B+'order.py')])

p('P44', 'Operations in progress do not disturb operations on other trees',
  'An operation on a tree (mapping operations, detaching, ordering, copying, serializing, loading, printing, lookups by path, uuid or fallback, attributes, locking; accepted or refused) has the same effect, result and lifecycle events if in the middle of it, within a storage, behavior or event handler it calls or in another thread, operations on other trees of the same or other classes run.',
  ['histories', 'schedules'], 'all histories on several trees, nested in each other or interleaved in threads',
  'The tests finish each operation before the next one.',
  [B+'fallback.py', B+'common.py', B+'lifecycle.py', B+'mapping.py', 'src/node/serializer.py', 'src/node/utils.py'], [('fallback_processing', B+'fallback.py'), ('Adopt.__setitem__', B+'common.py'), ('Lifecycle.detach', B+'lifecycle.py')])

p('P45', 'Behaviors applied in several steps work like applied at once',
  'A class that gets its behaviors in several steps, each step plumbing the outer behaviors to a subclass of the class with the inner ones, provides the same interfaces and attributes and works the same for every history of operations as the class with all behaviors plumbed at once in the same order.',
  ['configurations', 'histories'], 'all compositions, cuts of them and histories',
  'The tests plumb each class at once.',
  [B+'common.py', B+'nodify.py', B+'mapping.py', B+'lifecycle.py', B+'attributes.py', B+'nodespace.py'], [('behaviors', B+'__init__.py'), ('Nodify', B+'nodify.py')])

p('P46', 'Event handlers may change the trees',
  'When handlers of lifecycle events change the tree that notifies or other trees (add, insert, move, remove, detach, pop, reorder, set attributes or uuids, copy, create nodes, undo what was notified), nested to any depth, or fail, every operation has the result, notifies the events and leaves the children, order, names, parents, attributes and uuid lookups as if it had been finished first and the changes of its handlers were made after it; every change, nested or later, notifies its own events exactly once, and a failing handler does not take back what was done.',
  ['histories', 'schedules'], 'all compositions, histories and handlers',
  'The handlers of the tests only write down what was notified.',
  [B+'lifecycle.py', B+'order.py', B+'reference.py', B+'common.py'], [('Lifecycle', B+'lifecycle.py'), ('Order._setinserted', B+'order.py'), ('Adopt.__setitem__', B+'common.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
