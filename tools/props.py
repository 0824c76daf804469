"""Generates properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note='', claimed=True,
         reason='check still under construction'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, claimed=claimed,
                  reason=reason))


ST = 'citrine/storage/'
prop('C01', 'A group of collections behaves as one key-value map',
     'For any history of insert, update, setdefault, pop, popitem and clear on a group made of any number of '
     'collections, every get, has_key, pop, setdefault and size gives exactly what a single map holding the same '
     'entries would give: a stored value (falsy ones included) is found under its own key and no other, insert never '
     'replaces an existing value, update always does, and pop/popitem return and remove exactly one entry. '
     'Missing keys give the supplied default (or KeyError from pop without one), popitem on a non-empty group never '
     'fails just because one of its collections is empty, and a stored group answers the same in another process.',
     ['inputs', 'histories', 'configurations'],
     'every pair/triple of keys, every pre-state of up to two or three entries, every number of collections',
     'The tests use fixed word lists as keys and fixed prime group sizes; they never vary which collection two keys '
     'fall into or leave some collections empty, so routing errors for other keys or sizes are invisible.',
     [ST + 'group.py', ST + 'collection.py'],
     [('hash routing of an id to one collection', ST + 'group.py:get_group_index,groupfn'),
      ('per-collection tree', ST + 'collection.py:Collection')],
     ['Group.get/insert/update/pop/setdefault/has_key/popitem/size'])

prop('C02', 'Group iteration yields every entry once, in order',
     'keys(), values() and items() of a group yield each stored entry exactly once and their length is the number of '
     'entries. iterkeys/iteritems yield exactly the entries whose key lies within the inclusive [min, max] range, '
     'in ascending key order and paired with their own value, whatever the keys and values are (empty-string keys, '
     'falsy and equal values included); itervalues yields exactly the values of those entries; byValue(min) yields '
     'exactly the (value, key) pairs with value >= min in descending order; minKey/maxKey give the smallest/largest '
     'key satisfying the bound.',
     ['inputs', 'configurations'],
     'every set of up to three keys and values spread over one to three collections, every bound',
     'The tests iterate over one fixed data set of truthy values with distinct non-empty keys; falsy keys/values, '
     'duplicate values and empty collections never occur there.',
     [ST + 'group.py', ST + 'collection.py'],
     [('k-way merge of per-collection iterators', ST + 'group.py:iterkeys,iteritems,itervalues,byValue'),
      ('concatenating views', ST + 'group.py:GroupView')],
     ['Group.keys/values/items/iterkeys/itervalues/iteritems/byValue/minKey/maxKey'])

prop('C03', 'Strict capacity limits are never exceeded',
     'In strict mode no operation ever leaves a collection with more items than its maximum size, nor a group or the '
     'writable part of a container with more items than its capacity; an operation that would do so raises a capacity '
     'error and changes nothing. Operations on already stored keys and operations that fit are never refused, and '
     'strictness requested when a group or container is created (or already set when it is resized) really is in force; '
     'without strict mode nothing is refused.',
     ['inputs', 'histories', 'configurations'],
     'every collection size and fill level in bounds, every key, each mutating operation, strict and non-strict',
     'Tests try a handful of full collections via insert/update only; every fill level, every mutating operation and '
     'every route by which strictness can be requested needs a universal argument.',
     [ST + 'collection.py', ST + 'group.py', ST + 'container.py'],
     [('size guard before each write', ST + 'collection.py:insert,update,setdefault'),
      ('group-wide guard and strict propagation', ST + 'group.py:insert,update,strict,new')],
     ['sizes, stored entries and raised exceptions'])

prop('C04', 'A container reads back what was written, across all its groups',
     'After a write, reading that id returns exactly the written object (falsy objects included) until it is written '
     'again or deleted, and no other id changes. With several groups, a read returns the value from the first group, in '
     'order, that holds the id; has() counts the groups holding it; delete removes it from every group and returns the '
     'removed objects in group order; an id stored nowhere reads as the supplied default and deleting it removes nothing '
     'and does not fail.',
     ['inputs', 'histories', 'configurations'],
     'every id, every distribution of up to two ids over one to three groups, every value',
     'The tests only place disjoint or fully duplicated fixed ids in groups and store truthy values.',
     [ST + 'container.py', ST + 'group.py'],
     [('ordered search through groups', ST + 'container.py:read,has,delete'),
      ('write = insert or update in the primary group', ST + 'container.py:write')],
     ['Container.read/write/has/delete'])

prop('C05', 'Resizing or condensing a container never loses or changes an object',
     'After resize or condense (any combination of condense/transfer, strict or not) every id readable before is still '
     'readable with the same value, and nothing else is; with transfer the drained groups are empty and are returned and '
     'removed, without it they keep their contents; groups not meant to be merged stay in place. If the operation fails '
     'part-way (capacity error, or a failure at any commit when a transaction manager is given), every id is still '
     'readable with the same value, both in memory and in what has been committed.',
     ['inputs', 'configurations', 'crash_points', 'fault_sequences'],
     'every distribution of up to three entries over up to three groups, new capacities, flags, and every commit at '
     'which a failure can occur',
     'Tests resize fixed, non-overlapping data without failures; conflicts between groups, strict overflow and a crash '
     'at each commit are not exercised.',
     [ST + 'container.py', ST + 'utils.py'],
     [('new primary in front, then key-by-key move', ST + 'container.py:resize,condense')],
     ['Container.read for every id, Container.groups, committed state'])

prop('C06', 'Collection counts are the smallest sufficient prime',
     'The recommended number of collections for a capacity is the smallest prime (1 is permitted) not below '
     'capacity / maximum collection size, so it can always hold the requested capacity; growing computes the same for '
     'one and a half times the current size. Prime generation yields exactly the primes from the minimum up to and '
     'including the maximum, in ascending order.',
     ['inputs'],
     'every capacity and collection size in bounds',
     'Tests check a few dozen fixed capacities; boundary values around multiples and primes are what matters.',
     [ST + 'utils.py'],
     [('ceil division then next prime', ST + 'utils.py:number_of_collections,next_number_of_collections,get_primes,is_prime')],
     ['return values'])

prop('C07', 'Connection transactions are atomic and durable',
     'With autocommit on, each create/update/delete is committed when it returns and leaves nothing behind when it '
     'fails. Inside a with-block nothing is visible to another connection until the block ends; if it ends normally '
     'everything in it is committed, if it ends with an exception (or the storage fails during the commit) nothing is. '
     'A block inside another is part of it; when it fails only its own changes are undone. '
     'With autocommit switched off (at construction or later) nothing is committed until the user commits, and a '
     'with-block restores whatever autocommit setting was in force before it; a connection always reports the setting in force.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences', 'configurations'],
     'every sequence of up to three operations, every ending of the block, every storage call at which a fault occurs, '
     'both autocommit settings',
     'Tests run single operations and look at the same connection; the other connection, failures during commit and '
     'the restored mode are not observed.',
     [ST + 'transaction.py', 'citrine/connection/container_connection.py'],
     [('autocommit wrapper', ST + 'transaction.py:autocommit'),
      ('context manager', ST + 'transaction.py:__enter__,__exit__')],
     ['a second connection on the same database'])

prop('C08', 'create never overwrites, update upserts, delete removes',
     'Through a connection, create stores an object only when the id is free and otherwise raises the overwrite error '
     'leaving the stored object (falsy ones included) untouched; update always leaves the new object stored and returns '
     'the previous one; delete returns the removed objects and afterwards the id is free. Looking up a single id with [] '
     'gives the object or KeyError; a list of ids gives one result per id, in order, and KeyError only when none of them '
     'is stored. Other ids are never affected.',
     ['inputs', 'histories'],
     'every pair of ids, every stored value, each operation after each other',
     'Tests use fixed ids and truthy objects and one operation at a time.',
     ['citrine/connection/container_connection.py', ST + 'container.py'],
     [('existence test before create', 'citrine/connection/container_connection.py:create'),
      ('indexing', 'citrine/connection/container_connection.py:__getitem__')],
     ['ContainerConnection.create/read/update/delete/[]'])

prop('C09', 'The hashed database container is a faithful map that survives expansion',
     'A DbContainer with any number of sub-containers behaves as one map: write then read gives the object, has tells '
     'whether it is stored, delete removes exactly that id, and size is the number of stored ids, also when the database is '
     'read by another process than the one that wrote it. Expanding to a larger '
     'number of sub-containers keeps every stored id readable with its value; a smaller or equal number is refused and '
     'changes nothing.',
     ['inputs', 'histories', 'configurations'],
     'every id (strings and integers), every number of sub-containers and expansion in bounds',
     'There are no tests of this class at all.',
     ['citrine/persistence.py'],
     [('id hash modulo number of sub-containers', 'citrine/persistence.py:DbContainer.__locate_container'),
      ('expansion', 'citrine/persistence.py:DbContainer.expand_size')],
     ['DbContainer.has/read/write/delete/size/expand_size'])

prop('C10', 'The cluster registry records each module under its own id',
     'Registering a module in the cluster registry makes exactly that id present, with the module\'s own name and path; '
     'reading an unknown id gives nothing, deleting removes exactly that id, and a mapping handed in at construction is '
     'the one that is used. Registration never alters other entries or the module.',
     ['inputs', 'histories'],
     'every pair of ids and module names/paths',
     'There are no tests of this class.',
     ['citrine/cluster_tools/clusterdb/container.py'],
     [('mapping of registry objects', 'citrine/cluster_tools/clusterdb/container.py:ClusterRegistryContainer')],
     ['ClusterRegistryContainer.has/read/write/delete'])

prop('C11', 'Creating and deleting a database module touches only its own files',
     'Creating a module directory makes exactly one directory with one init file whose discoverable flag is what was '
     'asked for; an existing module is replaced only when overwriting is requested, and otherwise is left untouched with '
     'an error. Deleting removes exactly the module\'s init file and its database files and nothing else in that '
     'directory or outside it, and removes the directory itself only if it ends up empty (or when removal of everything '
     'was requested).',
     ['inputs', 'configurations'],
     'every small directory content, file names, and flag combination',
     'There are no tests of this code, and running it on every directory content needs a symbolic file system.',
     ['citrine/cluster_tools/dbmodule/dbmodule.py', 'citrine/cluster_tools/dbmodule/dbgroup.py'],
     [('create', 'citrine/cluster_tools/dbmodule/dbmodule.py:create_dbmodule'),
      ('delete', 'citrine/cluster_tools/dbmodule/dbmodule.py:delete_dbmodule')],
     ['file-system calls (recorded by a stand-in)'])

prop('C12', 'Group reads return what the member databases hold, or say so',
     'Reading an id from a group of databases returns the one stored object when exactly one database holds it, None '
     'when none does, and raises the duplicate-id error when several do unless multiple results were asked for, in which '
     'case exactly the databases holding it are reported with their objects. A time limit does not change a result that '
     'arrives in time, and connection arguments given for one database are used for that database only.',
     ['inputs', 'configurations'],
     'every subset of up to three databases holding the id, every value, with and without multiple/timeout',
     'There are no tests of this class.',
     ['citrine/connection/group_connection.py'],
     [('gathered asynchronous reads', 'citrine/connection/group_connection.py:GroupReadConnection.read')],
     ['GroupReadConnection.read'])

prop('C13', 'A new container database has the requested capacity and strictness',
     'A container database or container created with a given capacity, collection size and strictness can hold at least '
     'that many objects, limits collections to the requested size, and enforces (or not) strictness exactly as '
     'requested. Opening an existing database keeps its container, its objects and its settings unchanged, and a '
     'database lacking a container is refused by a plain connection.',
     ['inputs', 'configurations'],
     'every capacity and collection size in bounds, strict or not, every stored id',
     'Tests create databases with the default or one fixed capacity and never read strictness back.',
     ['citrine/database/containerdb.py', ST + 'container.py', ST + 'group.py',
      'citrine/connection/container_connection.py'],
     [('creation path', 'citrine/database/containerdb.py:create,new,load'),
      ('container sizing', ST + 'container.py:Container.new')],
     ['capacity, strict, stored objects after reopening'])

prop('C14', 'Reported sizes, usage and health match the stored data',
     'size is the number of stored items and max_size the sum of the collection limits at every level (collection, '
     'group, container, connection); usage is their ratio, and status is the highest health level whose threshold does '
     'not exceed the usage percentage rounded up. A group\'s status and highest/lowest usage are those of its '
     'collections, its per-collection usage covers each collection, and a container reports its primary group\'s '
     'capacity, use and status and the totals over all groups.',
     ['inputs', 'configurations'],
     'every fill level up to the limit and beyond, every mixture of collection sizes in bounds',
     'Tests check five fixed fill levels of one size; threshold boundaries for other sizes are not sampled.',
     [ST + 'collection.py', ST + 'group.py', ST + 'container.py', 'citrine/connection/container_connection.py'],
     [('metadata objects', ST + 'collection.py:CollectionMeta; ' + ST + 'group.py:GroupMeta; ' + ST + 'container.py:ContainerMeta')],
     ['size/max_size/usage/status properties'])

prop('C15', 'A database group manages exactly the modules below its root',
     'Opening a group on a directory finds exactly the database modules in it, whatever else lies there, and none when '
     'discovery is off; modules given explicitly are added and win. Creating adds one module with an empty database of '
     'its own, refusing names in use unless replacement is requested; destroying removes it from the group and the disk '
     'and frees its name. Objects stay in the module they were stored in and survive closing and rediscovery, and the '
     'group\'s databases and size are those of its modules.',
     ['inputs', 'histories', 'configurations'],
     'every choice of created/replaced/destroyed module, every mixture of directory entries, arbitrary stored objects',
     'There are no tests of this code.',
     ['citrine/cluster_tools/dbmodule/dbgroup.py', 'citrine/cluster_tools/dbmodule/dbmodule.py',
      'citrine/cluster_tools/dbmodule/consts.py'],
     [('discovery', 'citrine/cluster_tools/dbmodule/dbmodule.py:find_dbmodules,is_path_dbmodule,import_db'),
      ('group', 'citrine/cluster_tools/dbmodule/dbgroup.py:DbGroup')],
     ['DbGroup.modules/databases/size, files on disk'])

prop('C16', 'A connection to a hashed database commits each operation or block as a whole',
     'A connection to a database with a hash-placed container behaves as one map of ids: with automatic transactions every '
     'finished create, update, delete and expansion is committed, and one whose commit fails leaves nothing behind and does not '
     'keep later operations from committing; a with-block commits all of its operations when it ends normally and none of '
     'them when an exception of any kind leaves it, and blocks, set-ups and expansions inside a block are part of it. Without automatic transactions nothing is committed until the user '
     'commits. Setting up a database keeps the container and metadata it already has, and looking up several ids gives one '
     'result per id in order, with None for missing ones.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every id and object, every kind of transaction manager, every pair of operations, any of the commits failing',
     'There are no tests of this connection.',
     ['citrine/connection/connection.py', 'citrine/persistence.py'],
     [('autocommit', 'citrine/connection/connection.py:CitrineConnection'),
      ('transaction managers', 'citrine/persistence.py:CitrineTransactionManager,CitrineThreadTransactionManager')],
     ['CitrineConnection methods, a second connection to the same database'])

prop('C17', 'Concurrent sessions neither lose nor mix their changes',
     'Sessions that work on the same database at the same time each see what was committed when their transaction began plus '
     'their own changes, and every transaction is added as a whole to what the others committed or is refused with a conflict '
     'error, which needs a concurrent change, and leaves nothing behind: no change of another session is overwritten unseen. '
     'This includes resizing, condensing, expanding and setting up a database while other sessions write to it, and strict '
     'limits hold whatever is stored at the same time.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'every interleaving of the steps of two sessions, every id and object, operations in blocks, in manual transactions or '
     'committed by themselves, storages that refuse and storages that merge concurrent changes',
     'All tests use one connection at a time.',
     ['citrine/connection/container_connection.py', 'citrine/connection/connection.py', ST + 'transaction.py', 'citrine/persistence.py',
      ST + 'container.py', ST + 'collection.py'],
     [('transaction managers', ST + 'transaction.py'), ('persistent structure', ST + 'container.py, citrine/persistence.py')],
     ['connections of both kinds, a fresh connection after every commit'])

JL = 'jsonld/'
AS = 'activitystreams/'
prop('C18', 'A database block has its own connection for exactly as long as it lasts',
     'Each `with db` block gets a connection of its own that is open from its start to its end and closed when it ends, '
     'however it ends: blocks may be nested, follow each other or run in several threads at once without disturbing each '
     'other; an exception leaves the block unchanged and changes still pending then are dropped. A connection opened for an '
     'earlier moment shows exactly what was stored at that moment and refuses every change.',
     ['histories', 'schedules', 'inputs'],
     'every interleaving of the steps of two blocks, every operation and ending, every moment of a history',
     'The tests enter one block at a time, look at nothing but its closing, and never open the database at an earlier moment.',
     ['citrine/database/containerdb.py', 'citrine/connection/container_connection.py'],
     [('temporary connections', 'citrine/database/containerdb.py:__enter__,__exit__'),
      ('opening', 'citrine/database/containerdb.py:open')],
     ['the connections, and what a later connection reads'])

prop('C19', 'Options given for a database reach its storage unchanged',
     'Every option given when a container database is opened, loaded, created or connected to over the network (cache and pool '
     'sizes, timeouts, names, quotas, packing, credentials, and so on) is the one its database and its storage are opened with, '
     'each under its own meaning and also when the container had to be created first; an option that is not given has the '
     'default of ZODB or ZEO.',
     ['inputs', 'configurations'],
     'every number, flag and name given for every option, any one or all of them, every way of opening',
     'The tests say they leave the more than twenty options out; no test gives any of them.',
     ['citrine/database/containerdb.py', 'citrine/client/container_client.py'],
     [('passing on', 'citrine/database/containerdb.py:__init__,load,new,create'),
      ('client', 'citrine/client/container_client.py:connect')],
     ['the arguments ZODB.DB, FileStorage and ClientStorage are called with'])

prop('C20', 'A new group has exactly the collections asked for',
     'A group made with a definition of custom sizes has for every hash in the definition a collection of exactly that size, at '
     'every other position up to the number asked for (or the highest hash) one of the default size, all empty and as strict as '
     'requested; without a definition it has the given number of equal collections. A number below the highest hash, hashes that '
     'are not integers and collections that could hold nothing are refused. The definition itself is never altered, so that it '
     'can be used again.',
     ['inputs', 'configurations'],
     'every definition of up to three or four sizes in any order, every default and number of collections, used once or twice',
     'The tests use three definitions, each in ascending order and once per default.',
     [ST + 'group.py'],
     [('filling the gaps', ST + 'group.py:Group.new')],
     ['limits and strictness of the collections, the definition afterwards'])

prop('J01', 'Serialisation selects and renames exactly the requested properties',
     'The dictionary form of an object contains exactly its properties that are included (all by default), not '
     'excluded, whose value is not a rejected value, and not None unless None values were asked for; each appears once, '
     'under its requested or standard renamed key, with its own value after any transformation registered for it, '
     'whatever kind of iterable the names are given in. '
     'Selection never changes the object and applies to exactly the named properties, also inside nested objects.',
     ['inputs', 'configurations'],
     'every subset of include/exclude/reject/rename/transform options over arbitrary property values',
     'There are no tests of serialisation in the suite.',
     [JL + 'jsonld.py', JL + 'base.py', JL + 'utils.py'],
     [('data()', JL + 'jsonld.py:PropertyJsonLD.data'), ('json()', JL + 'jsonld.py:PropertyJsonLD.json')],
     ['PropertyJsonLD.data/json'])

prop('J02', 'Serialised values keep their JSON type and content',
     'Strings, integers, floats, booleans and nested lists, tuples, sets and dictionaries of them come out of '
     'serialisation as the equal JSON value of the same type, at any nesting; None inside a container stays null; nested '
     'objects come out as their own dictionary form. The JSON text always parses back to that dictionary, minified, '
     'indented or neither.',
     ['inputs'],
     'every value shape up to the stated nesting, with symbolic leaves',
     'There are no tests of serialisation in the suite.',
     [JL + 'jsonld.py'],
     [('recursive value handler', JL + 'jsonld.py:PropertyJsonLD.__handler')],
     ['PropertyJsonLD.data/json'])

prop('J03', 'Contextual properties dispatch on the object\'s current context',
     'Reading, assigning or deleting a contextual property runs the function registered for the object\'s current '
     'context if there is one and the default otherwise, and never any other; with no applicable function it raises '
     'AttributeError and changes nothing. Defining a new default getter, setter or deleter on a copy does not alter the '
     'original property or its registered contexts.',
     ['inputs', 'histories', 'configurations'],
     'every registration of functions for two contexts and the default, every current context',
     'There are no tests of contextual properties.',
     [JL + 'base.py'],
     [('dispatch tables', JL + 'base.py:ContextualProperty')],
     ['property access on an object'])

prop('J04', 'Processing contexts nest and are always restored',
     'Entering contexts to any depth makes the innermost one current, and leaving each one (normally or by an '
     'exception) restores exactly the one that was current before, ending with none. The manager reports itself active '
     'exactly while at least one context is entered, and serialising an object, whether it succeeds or raises, leaves '
     'its context as it was.',
     ['inputs', 'histories', 'fault_sequences'],
     'every sequence of enter/leave up to the stated depth, with an exception at any point',
     'There are no tests of the context manager.',
     [JL + 'base.py', JL + 'jsonld.py'],
     [('context stack', JL + 'base.py:JsonContextAwareManager'), ('switch_context', JL + 'base.py:PropertyAwareObject.switch_context')],
     ['context and active attributes'])

prop('J05', 'Validated properties accept exactly the permitted values',
     'Assigning to a validated property stores exactly the given value (lists element by element, in order) when it and '
     'every element have a permitted type and pass the property\'s validators, and otherwise raises ValueError and keeps '
     'the previous value. None is accepted where permitted; numbers declared non-negative reject every negative number '
     'and accept zero and above; identifiers and links must be valid URLs where that is declared.',
     ['inputs'],
     'every value of each JSON type, lists up to the stated length',
     'There are no tests of the property validators.',
     [JL + 'tools/type.py', JL + 'tools/number.py', AS + 'properties.py'],
     [('type and list check', JL + 'tools/type.py:evaluate_value,SetterValidator'),
      ('validators', JL + 'tools/number.py; ' + JL + 'tools/url.py; ' + JL + 'tools/datetime.py')],
     ['assignment to a property and the value read back'])

prop('J06', 'Durations serialise to valid, equal ISO 8601 durations',
     'The text produced for any duration is a well-formed ISO 8601 duration (at least one component, each a '
     'non-negative number with its designator in order, a leading minus for negative durations) and, counting a year as '
     '365 days and a month as 30, denotes exactly that duration.',
     ['inputs'],
     'every duration, negative and sub-second ones included',
     'There are no tests of duration formatting.',
     [JL + 'tools/datetime.py', JL + 'engine/utils.py'],
     [('timedelta_str', JL + 'tools/datetime.py:timedelta_str'), ('stringify_timedelta', JL + 'engine/utils.py:stringify_timedelta')],
     ['returned text'])

prop('J07', 'Datetimes keep their instant through parsing and serialisation',
     'Every text accepted as an ActivityStreams datetime parses to the instant it denotes, text that is not one is '
     'rejected, and a datetime serialises to well-formed text denoting the same instant to the second whatever its time '
     'zone. A serialised datetime is accepted and parses back to the same instant.',
     ['inputs'],
     'every datetime with any year, fraction and UTC offset; every text of the stated shapes',
     'There are no tests of datetime handling.',
     [JL + 'tools/datetime.py', JL + 'engine/utils.py'],
     [('regular expression and strptime', JL + 'tools/datetime.py:is_activity_datetime,parse_activitystream_datetime'),
      ('datetime_str', JL + 'tools/datetime.py:datetime_str')],
     ['parsed datetimes and texts'])

prop('J08', 'Only well-formed http(s) URLs are ever accepted or fetched',
     'A URL is accepted exactly when its scheme is http or https (https only when secure is requested), it names a host, '
     'and its network location contains only letters, digits, "-", "_", "." and ":" throughout. The document loader '
     'performs a request only for such URLs, with https required by default, and otherwise raises its load error without '
     'any network access.',
     ['inputs'],
     'every URL text up to the stated length and alphabet',
     'There are no tests of URL validation.',
     [JL + 'tools/url.py', JL + 'engine/utils.py', JL + 'docloader.py'],
     [('validate_url', JL + 'tools/url.py:validate_url'), ('loader checks', JL + 'docloader.py:RequestsJsonLoader.get')],
     ['returned verdict; calls made to the HTTP client'])

prop('J09', 'The document loader fetches once and reports what it received',
     'A loaded document carries the response\'s body, final URL and content type; a context link is reported only for '
     'non-JSON-LD content, more than one of them is an error, and an alternate JSON-LD link redirects non-JSON content. '
     'The caching loader performs at most one request per URL however often it is asked, returns the same document each '
     'time, keeps URLs apart, and does not remember failures; every failure surfaces as the JSON-LD load error.',
     ['inputs', 'histories', 'fault_sequences'],
     'every sequence of three loads over two URLs with arbitrary failures, every content type and link combination',
     'There are no tests of the loader.',
     [JL + 'docloader.py'],
     [('get', JL + 'docloader.py:RequestsJsonLoader.get'), ('cache', JL + 'docloader.py:CachedRequestsJsonLoader')],
     ['calls to the HTTP client, returned documents'])

prop('J10', 'Parsing JSON gives an object of the declared type with its data',
     'Parsing a JSON object of a registered type gives an instance of exactly that type (the first one, however it is '
     'written) whose properties hold the given values: nested typed objects as objects of their type, lists in order, '
     'untyped nested objects as dictionaries. Other keys are ignored, the input is never altered, the data\'s context is '
     'kept (the ActivityStreams one when absent) and applies to nested objects without their own. An object\'s own JSON '
     'parses back to an equal one. A missing or unregistered type raises ValueError; a nested object of an unregistered '
     'type is left out.',
     ['inputs'],
     'every assignment of values to the stated property sets, each registered type',
     'There are no tests of the engine.',
     [JL + 'engine/json_input.py', JL + 'engine/jsonld_engine.py'],
     [('from_json', JL + 'engine/json_input.py:PropertyJsonIntake.from_json')],
     ['returned objects'])

prop('J11', 'An engine answers with the classes of its packages, later ones winning',
     'An engine built from one or several packages knows every object type of each of them, a type defined in several '
     'being taken from the last; combining engines or adding a package gives the same as building from all their '
     'packages in order, subtracting one removes it, and the operands keep working. Indexing an engine with one JSON '
     'text gives one object and with a list gives one object per text in order; registering an already known type is '
     'refused and changes nothing.',
     ['inputs', 'configurations', 'histories'],
     'every assignment of two type names to up to three packages, every operation order',
     'There are no tests of the engine.',
     [JL + 'engine/jsonld_engine.py', JL + 'package.py'],
     [('package folding and registry', JL + 'engine/jsonld_engine.py:JsonLdEngine')],
     ['class_registry, engine[...]'])

prop('J12', 'Packages are immutable, isolated copies of their classes',
     'Building a package never changes the classes it was given: it holds one copy per given class, with the same '
     'inheritance among copies, and properties mapped to a type appear on that type\'s copy only, usable exactly like '
     'the original, also when they inherit from other properties or were used before. Name, types and properties of a package cannot be replaced afterwards; adding packages gives the '
     'union with the right-hand side winning, subtracting removes the named types and properties, and neither changes an '
     'operand.',
     ['inputs', 'configurations', 'histories'],
     'every mapping of two properties to two related types, and every overlap of two packages',
     'The only package test cannot be collected by the suite.',
     [JL + 'package.py', JL + 'kamino.py'],
     [('cloning', JL + 'kamino.py:ClassCloner.clone_classes'), ('linking', JL + 'package.py:link_properties'),
      ('set-once attributes', JL + 'package.py:JsonLdPackage')],
     ['package contents and original classes'])

prop('J13', 'Every vocabulary property accepted at construction is kept and serialised',
     'For every ActivityStreams type, each property the vocabulary defines for it can be given at construction or '
     'assigned, is read back with its value and appears with it in the serialised form (links by their address, times as '
     'text) together with the type\'s own name; properties not given are absent, save that collections count the items '
     'they are given. Iterating a collection yields its items in order. No property of one object ever shows up on '
     'another.',
     ['inputs', 'configurations'],
     'every type of the vocabulary, every accepted property, arbitrary values of a permitted type',
     'There are no tests of the vocabulary.',
     [AS + 'models.py', AS + 'properties.py', AS + 'package.py'],
     [('constructors', AS + 'models.py'), ('property storage', AS + 'properties.py')],
     ['constructor, attribute access, data()'])

prop('J14', 'Serialising never reaches for the network, and links survive failure',
     'Producing the dictionary or JSON form of any object, links included, performs no network access and shows links by '
     'their address. Reading a property that holds a single link fetches exactly its address, once per access, and gives '
     'the fetched object when that works and the link itself (still usable) when fetching or parsing fails in any way; '
     'the object keeps holding the link. Links in lists, and links without an engine, are given as they are.',
     ['inputs', 'fault_sequences'],
     'every link target and every kind of fetch failure, nested to the stated depth',
     'There are no tests of link objects.',
     [AS + 'models.py', JL + 'jsonld.py'],
     [('link expansion', AS + 'models.py:Link')],
     ['calls to the HTTP client'])

prop('J15', 'Objects can be read as mappings of their properties',
     'Indexing an object with a name or with several names, in any kind of iterable, gives a dictionary of exactly those '
     'properties with their values in the current context, without reading any other, and KeyError when its class has no '
     'property of such a name. Iterating gives every property of its class, own and inherited, exactly once with its '
     'value, also nested or repeated. '
     'What one class was asked for never changes the properties of its parent and child classes.',
     ['inputs', 'histories', 'configurations'],
     'every text as a name, every subset and iterable of names, every order in which related classes are first used',
     'There are no tests of indexing and iteration.',
     [JL + 'base.py'],
     [('indexing, iteration and the list of properties', JL + 'base.py:PropertyAwareObject')],
     ['PropertyAwareObject.__getitem__/__iter__'])

prop('J16', 'Re-classing an object keeps its data',
     'Values that pass through a package (returned from its methods or properties, or assigned to them) become '
     'instances of the package\'s own version of their class while keeping their identity and every property value '
     '(links stay links, unfetched), and values of classes the package does not know pass through unchanged. Objects and '
     'properties that were used before are treated the same, and no other object or class is affected.',
     ['inputs', 'configurations'],
     'every combination of present and absent property values for related classes',
     'There are no tests of the class cloner.',
     [JL + 'kamino.py'],
     [('change_class and wrappers', JL + 'kamino.py:ClassCloner.change_class,wrap_callables,wrap_properties')],
     ['class and property values of the result'])

prop('J17', 'Addresses given to link-valued properties become links to exactly them',
     'Text assigned to a property that can hold links becomes a link of the object\'s own package to exactly that text when it '
     'is a well-formed web URL, an e-mail address or an account reference, and a dictionary whose href is a URL becomes a link '
     'with exactly its attributes; in lists this happens to each element in its place. Other text and dictionaries are '
     'refused, leaving the previous value, or kept unchanged where the property may hold them; such links are serialised as '
     'the text they were made from, and what was given is never changed.',
     ['inputs', 'configurations'],
     'every link-valued property of the vocabulary, every short text and dictionary, objects of several engines and packages',
     'There are no tests of the vocabulary\'s setters.',
     [AS + 'models.py', AS + 'properties.py', JL + 'tools/url.py'],
     [('conversion', AS + 'models.py:Link.from_str'), ('serialisation', AS + 'models.py:Link.href_only')],
     ['property assignment and data() of vocabulary objects'])

TECH = 'bounded symbolic execution of the real Python code (z3), path-exhaustive, counterexamples replayed'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'],
                             mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                             observe_at=list(p['observe']), hook_needed=None))) + '\n')
    checks = [dict(property=p['id'],
                   quick_cmd='python3 check.py %s' % p['id'],
                   thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                   technique=TECH, level='model_checking',
                   level_note=p['note'] or
                   'Within the bounds listed in the evidence every input is decided by z3 on the '
                   'real code; outside them nothing is claimed. Trusts CPython, z3, BTrees/ZODB '
                   'and the engine models listed in DESIGN.md.')
              for p in P if p['claimed'] and claimed(p['id'])]
    na = [dict(property=p['id'], reason=p['reason']) for p in P
          if not (p['claimed'] and claimed(p['id']))]
    man = dict(version=1, setup_cmd='python3 selfcheck.py',
               checks=checks, not_applicable=na,
               notes='No hooks in /repo: code is instrumented at import time. See DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


def claimed(pid):
    import re
    for f in os.listdir(os.path.join(ROOT, 'harness')):
        if f.endswith('.py'):
            if re.search(r"@harness\('%s'" % pid, open(os.path.join(ROOT, 'harness', f)).read()):
                return True
    return False


if __name__ == '__main__':
    main()
