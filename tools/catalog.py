"""
The properties.  Running this file rewrites properties.jsonl and MANIFEST.json.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=(), technique='', note='', state=()):
    PROPERTIES.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, observe=list(observe),
        technique=technique, note=note, state=list(state)))


STORAGE = ['citrine/storage/collection.py', 'citrine/storage/group.py']

prop('C01', 'Collections and groups behave as maps',
     'A collection or a group of collections behaves as one map from ids to '
     'values: a value stored at an id is what reading that id returns until '
     'it is replaced or removed, and no operation changes any other id. '
     'Inserting never overwrites an existing id and reports whether it '
     'stored, updating overwrites, removing returns the removed value (or '
     'the given default, or a KeyError), setting a default keeps an existing '
     'value, removing an arbitrary item returns a stored pair and fails with '
     'a KeyError when nothing is stored, and clearing empties everything. '
     'The key, value and item views, their lengths and the size always show '
     'exactly the stored items, also for falsy values, for any text as id, '
     'and after commits, aborts and reloading.',
     ['inputs', 'histories', 'configurations'],
     'every history of map operations, every id text and value, every number '
     'of collections',
     'tests store a few fixed ids in one group layout; ids spread over '
     'collections by their bytes, so wrong routing, merging of views or '
     'falsy-value handling shows only for particular ids and histories',
     STORAGE,
     [('routing of an id to its collection', 'citrine/storage/group.py groupfn'),
      ('merged views of all collections', 'citrine/storage/group.py GroupView')],
     ['results of each call', 'items, keys, values, size'],
     'reference-model monitor (dict) over random operation histories, in '
     'memory and across commits, aborts and connections')

prop('C02', 'Ordered iteration, ranges and extreme keys',
     'Iterating over the keys or items of a collection or group yields '
     'exactly the stored keys within the inclusive lower and upper bounds, '
     'each once and in ascending order, and iterating over values yields '
     'exactly the values of those keys. The smallest or largest key (at or '
     'beyond an optional bound) is the smallest or largest over all '
     'collections and a ValueError if no key qualifies. Listing by value '
     'yields every (value, key) pair with a value of at least the minimum, '
     'in descending order.',
     ['inputs', 'histories', 'configurations'],
     'every content, every pair of bounds, every number of collections, '
     'including empty ones',
     'the result depends on how ids fall into collections, which are empty '
     'and where the bounds lie relative to each of them; tests use one '
     'content',
     STORAGE,
     [('merging of the collections in key order',
       'citrine/storage/group.py Group.iteritems'),
      ('extremes over all collections',
       'citrine/storage/group.py Group.minKey, Group.maxKey')],
     ['iterators, byValue, minKey, maxKey'],
     'reference-model monitor (sorted dict) with boundary-directed ranges')

prop('C03', 'Strict capacity limits are never exceeded',
     'A collection in strict mode never holds more items than its capacity, '
     'whatever sequence of operations is used and however the transactions '
     'of several connections interleave; this holds for collections within '
     'groups, containers and databases created strict. An operation that '
     'would exceed the capacity raises a capacity error and changes nothing '
     'at all, also when it stores several items at once, and one that fits '
     '(including overwriting existing ids at full capacity) is accepted. '
     'Without strict mode nothing is ever refused. Switching the mode through '
     'a connection lasts like any other operation.',
     ['histories', 'schedules', 'configurations'],
     'every history and interleaving near the limit, every split of capacity '
     'over collections, every way to create a strict store',
     'needs full collections inside of non-full groups, multi-item updates '
     'that fit in total but not per collection, and concurrent commits whose '
     'changes the tree would merge; tests fill one collection from one '
     'connection',
     STORAGE + ['citrine/storage/container.py',
                'citrine/database/containerdb.py'],
     [('capacity check', 'citrine/storage/collection.py check_update, insert'),
      ('all-or-nothing update', 'citrine/storage/group.py Group.update'),
      ('conflict of concurrent inserts',
       'citrine/storage/collection.py __claim_space')],
     ['capacity errors', 'committed content per collection'],
     'online monitor: per-collection counts predict acceptance; committed '
     'states of interleaved connections audited')

prop('C04', 'Reported sizes, usage and health match the content',
     'At every moment the size, usage and health level reported for a '
     'collection, group, container or connection agree with what is actually '
     'stored: size counts the stored items, usage is size divided by '
     'capacity, and the health level is the highest of 0, 60, 70, 80, 90 '
     'that does not exceed the usage in percent (rounded up). A group adds up its '
     'collections, reports the highest and lowest usage among them and takes '
     'the worst level; a container counts all of its groups in size and '
     'maximum size, while capacity, used, usage and level describe its '
     'primary group only. The figures stay right after removals, aborts, '
     'refused operations, reopening and in other connections.',
     ['histories', 'configurations'],
     'every history and every capacity layout',
     'tests check a few fill states; wrong aggregation or a stale counter '
     'shows only after particular histories, layouts or aborts',
     STORAGE + ['citrine/storage/container.py',
                'citrine/connection/container_connection.py'],
     [('figures derived from the content',
       'citrine/storage/collection.py CollectionMeta; group.py GroupMeta; '
       'container.py ContainerMeta')],
     ['size, usage, status, capacity, used, max_size'],
     'invariant monitor: recount by iteration compared with every reported '
     'figure after each phase')

prop('C05', 'Containers of several groups read their writes',
     'In a container of several groups reading an id returns the value of '
     'the first group that holds it, with the primary group always first, '
     'and the given default only if no group holds it (falsy values count as '
     'present); the presence query reports in how many groups it is. Writing '
     'stores in the primary group so that the value read afterwards is '
     'always the one written. Deleting removes the object from all groups '
     'and returns the removed values in that order, so that a deleted object '
     'cannot reappear.',
     ['histories', 'configurations'],
     'every distribution of objects over groups and every history of reads, '
     'writes and deletes',
     'tests use one or two groups with disjoint content; shadowed objects, '
     'falsy values and the order of groups need particular combinations',
     ['citrine/storage/container.py',
      'citrine/connection/container_connection.py'],
     [('primary first', 'citrine/storage/container.py Container.__init__'),
      ('search through groups', 'citrine/storage/container.py read, delete')],
     ['read, write, has, delete results', 'content of each group'],
     'reference-model monitor (one dict per group)')

prop('C06', 'Resizing and condensing keep every object',
     'Resizing a container replaces its primary group by one of at least the '
     'requested capacity and moves the objects of the old primary there; '
     'condensing moves the objects of all secondary groups into the primary '
     'one. Afterwards every id reads exactly as before, in every combination '
     'of options: groups that were transferred are empty, removed from the '
     'container and returned in order, other groups stay untouched, and '
     'without transfer the sources keep their objects, stay in the container '
     'and nothing is returned. A capacity below the number of stored objects '
     'is refused with a ValueError, and an operation stopped by a strict '
     'capacity limit, like a refused one, loses no object and no group.',
     ['histories', 'configurations', 'inputs'],
     'every content and overlap of the groups, every option, repeated '
     'operations',
     'tests cover disjoint groups with default options; priorities among '
     'overlapping groups, untouched secondaries and refusals half way need '
     'particular contents',
     ['citrine/storage/container.py', 'citrine/storage/utils.py'],
     [('insert before removal', 'citrine/storage/container.py _condense'),
      ('new primary group', 'citrine/storage/container.py resize')],
     ['visible map, content of each group, returned groups'],
     'conservation monitor: visible map and per-group content against a '
     'model after every operation')

prop('C07', 'Stepwise resizing is safe at every moment',
     'When resizing or condensing is given a transaction manager, it '
     'proceeds in individual transactions of at most one moved object, and '
     'in every state committed on the way every object is readable with its '
     'current value. A crash or failing commit at any step loses nothing, '
     'and condensing again finishes the work. Objects that other connections '
     'write, delete or read meanwhile are neither lost, overwritten by an '
     'older value, nor brought back: each such transaction either takes '
     'effect or fails with a conflict.',
     ['crash_points', 'schedules', 'fault_sequences'],
     'every commit of the operation as crash point or failure, every '
     'interleaving of other transactions',
     'tests run it once, alone, to the end',
     ['citrine/storage/container.py', 'citrine/storage/transaction.py'],
     [('one transaction per object', 'citrine/storage/container.py _condense'),
      ('conflict with concurrent changes',
       'citrine/storage/container.py __require_current, __copy')],
     ['every committed state (historical connections, file copies)',
      'reads of other connections'],
     'fault injection at each commit, audit of each committed state, '
     'deterministic interleavings at commit hooks, thread stress')

prop('C08', 'Sizing rules and placement of ids',
     'The number of collections chosen for a capacity and collection size is '
     'the smallest prime (1 included) whose total space reaches the '
     'capacity, growing plans for one and a half times the current maximum, '
     'and the prime generator yields exactly the primes within its bounds. A '
     'group created with custom sizes has exactly those at the given '
     'positions and the default size everywhere else, leaves the given '
     'mapping alone, passes strictness on, and rejects contradictory or '
     'non-positive sizes (KeyError for bad positions or a size below the highest '
     'position, ValueError otherwise). Every id is held by '
     'exactly one collection: the one at its UTF-8 bytes, as a big-endian number, '
     'modulo the number of collections.',
     ['inputs', 'configurations'],
     'every capacity, collection size, custom mapping and id',
     'tests try a handful of sizes; off-by-one errors sit at multiples, '
     'squares of primes and gaps in custom mappings, and placement must '
     'never change because stored databases depend on it',
     ['citrine/storage/utils.py', 'citrine/storage/group.py',
      'citrine/storage/container.py'],
     [('number of collections', 'citrine/storage/utils.py'),
      ('filling of gaps', 'citrine/storage/group.py Group.new'),
      ('placement', 'citrine/storage/group.py get_group_index')],
     ['collections of created groups'],
     'differential monitor against a sieve, exact arithmetic and the '
     'documented rules')

prop('C09', 'Connection operations follow the documented semantics',
     'Through a database connection, creating stores a new object and '
     'refuses an existing id with an overwrite error that changes nothing, '
     'updating stores and returns the previous object (or None), deleting '
     'returns a tuple of the removed objects (empty if none), and reading '
     'returns the object or the default. Indexing with one id returns the '
     'object or raises KeyError; indexing with several ids returns the '
     'objects in the order asked with None for missing ones, raises KeyError '
     'if none exists, and IndexError for anything that is no iterable of '
     'ids. Each operation is committed at once: other connections and a '
     'reopened database show exactly the same content.',
     ['histories', 'inputs'],
     'every history of operations, every id and storable object, falsy '
     'objects included',
     'tests call each method once or twice on fixed ids',
     ['citrine/connection/container_connection.py',
      'citrine/storage/transaction.py'],
     [('operations', 'citrine/connection/container_connection.py '
                     'ContainerConnection'),
      ('commit per operation', 'citrine/storage/transaction.py autocommit')],
     ['results and exceptions', 'content in other connections'],
     'reference-model monitor (dict) over random histories')

prop('C10', 'Transaction blocks are atomic and autocommit resumes',
     'Operations within a transaction block become visible to others '
     'together when the block ends normally, and not at all if it ends by '
     'an exception (which reaches the caller unchanged), a conflict, a '
     'storage failure or an object that cannot be stored; the connection '
     'itself sees its own changes meanwhile and the unchanged state after a '
     'failure. A single operation whose commit fails likewise has no effect. '
     'Afterwards, however the block or operation ended, or if it could not '
     'begin, the connection commits each operation at once again; with automatic commits switched '
     'off nothing is visible to others until a commit by hand. A manager made '
     'explicit refuses to begin a transaction within another one, whose '
     'changes stay, and to get or commit one outside.',
     ['fault_sequences', 'histories'],
     'every content of a block, every way and moment of failing, repeatedly',
     'tests commit one block and raise in one; failures of the commit itself '
     'and what the connection does afterwards are never exercised',
     ['citrine/storage/transaction.py',
      'citrine/connection/container_connection.py'],
     [('commit or abort at the end, autocommit restored',
       'citrine/storage/transaction.py __exit__')],
     ['own view, view of another connection, autocommit'],
     'fault injection in storage commit phases, rival commits and '
     'unstorable objects, with a model of both views')

prop('C11', 'Acknowledged operations survive a crash',
     'Once an operation or transaction block on a file database has '
     'returned, its effect survives a kill of the process or a data file '
     'that ends at any later byte. Opening the database afterwards shows '
     'exactly the acknowledged operations in order (at most plus the one in '
     'progress, entirely or not at all), never a part of a block, and the '
     'database works on normally. A file whose creation was interrupted opens '
     'as a new database.',
     ['crash_points', 'histories'],
     'every byte at which the file may end, every moment of a kill, every '
     'history before',
     'tests never interrupt a process nor reopen a damaged file',
     ['citrine/connection/container_connection.py',
      'citrine/storage/transaction.py', 'citrine/database/containerdb.py'],
     [('commit before return', 'citrine/storage/transaction.py autocommit'),
      ('opening of existing files', 'citrine/database/containerdb.py')],
     ['content after reopening'],
     'crash injection: files cut at every boundary and random bytes, '
     'SIGKILL, copies of live files; recovered content against the '
     'acknowledgement log')

prop('C12', 'Concurrent connections neither lose nor mix updates',
     'Each transaction of a connection reads one committed snapshot plus its '
     'own changes, and changes of others never show before they are '
     'committed. If two overlapping transactions change the same object, at '
     'most one of them commits and the other fails with a conflict without '
     'effect, so no update is lost; of several concurrent creations of one '
     'id at most one succeeds. Transactions that resize or condense the '
     'container neither lose nor bring back what others change meanwhile. Operations outside of blocks act on the '
     'latest committed state.',
     ['schedules', 'histories'],
     'every interleaving of the transactions of several connections and '
     'threads',
     'tests use one connection in one thread',
     ['citrine/connection/container_connection.py',
      'citrine/storage/transaction.py', 'citrine/storage/container.py',
      'citrine/database/containerdb.py'],
     [('transaction per operation', 'citrine/storage/transaction.py'),
      ('one manager per connection', 'citrine/database/containerdb.py open')],
     ['reads, conflicts, final content'],
     'random deterministic schedules against a snapshot model; thread stress '
     'with conservation laws (counters, races to create, transfers, chains '
     'of replaced values)')

prop('C13', 'Databases open, reopen and look back without surprises',
     'A database created or opened in any of the documented ways (by path, '
     'in memory, on a given storage, created and loaded) is immediately '
     'usable, has at least the capacity and exactly the strictness asked for '
     'when it was new, uses the options given (for connections, historical '
     'ones, and files: quota, packing, blobs, the transaction to stop at, read '
     'only) and refuses ones nothing takes, and shows on every later '
     'opening exactly its former content, capacity and strictness whatever '
     'is passed then; content is discarded only where creating anew is asked '
     'for. A database without a container is refused with an '
     'incompatibility error, left unchanged, not registered among the '
     'databases and its file released. Historical connections show exactly '
     'the state committed at (or before) the given time or transaction and '
     'refuse writes, read-only databases refuse writes, and connections to '
     'several registered databases that share a transaction commit or fail '
     'together. '
     'Creating, opening and using databases ends no transaction in progress '
     'elsewhere in the thread, and a database that could not be created or '
     'opened leaves its file free and its name unregistered.',
     ['histories', 'configurations'],
     'every sequence of creating, changing, closing and reopening with every '
     'option, every moment to look back at',
     'tests open each kind of database once',
     ['citrine/database/containerdb.py',
      'citrine/connection/container_connection.py'],
     [('creation of the container', 'citrine/database/containerdb.py '
                                    'ContainerDb.__init__, create'),
      ('incompatible databases', 'citrine/connection/container_connection.py '
                                 'ContainerConnection.__init__')],
     ['content, capacity, strictness after each opening', 'bytes of the file'],
     'reference-model monitor over random sequences of openings and changes')

prop('C14', 'A database as a context gives each block its own connection',
     'Entering a database as a context gives a connection of its own that '
     'stays open until exactly that block ends and is closed then, however '
     'blocks are nested in one thread and interleaved in several. Operations '
     'in it commit like those of any connection. An exception reaches the '
     'caller unchanged, drops what was not committed yet and still closes '
     'the connection of that block and of no other.',
     ['schedules', 'histories', 'fault_sequences'],
     'every nesting and interleaving of blocks, every way to leave them',
     'tests enter one block at a time',
     ['citrine/database/containerdb.py'],
     [('stack of connections per thread',
       'citrine/database/containerdb.py __enter__, __exit__')],
     ['which connections are open', 'committed content'],
     'online monitor of open connections and committed content under '
     'scheduled interleavings of threads; nested random blocks; stress')

prop('C15', 'Reading from a group of databases finds each object',
     'Reading an id from a group of databases returns the object if exactly '
     'one database holds it (falsy objects included), None if none does, '
     'and raises a duplicate error if several do; asked for multiple '
     'results it returns those of all databases that hold the id, each under its '
     'own connection. A time limit that is not exceeded makes no difference. '
     'Each connection uses the shared transaction manager and arguments '
     'unless other ones are given for its database.',
     ['inputs', 'configurations'],
     'every distribution of objects over databases, every combination of '
     'options',
     'tests read with mocked connections or one database',
     ['citrine/connection/group_connection.py'],
     [('collection of the results',
       'citrine/connection/group_connection.py GroupReadConnection.read')],
     ['results, errors, connections'],
     'reference-model monitor (one dict per database)')

prop('C16', 'Clients of a server share one database',
     'Several clients connected to one server see one database: every '
     'committed operation of any of them is what all of them read from their '
     'next transaction on, overlapping changes of one object fail for one '
     'side instead of being lost, and failed blocks leave nothing behind. '
     'The first client of a fresh storage makes its container with the '
     'strictness it asked for, also when several connect at once (one makes '
     'it, the others share it or fail with a conflict); later clients, '
     'restarts of the server and '
     'opening its file locally keep content, capacity and strictness. '
     'A client that is refused (the database is something else) does not stay '
     'connected. '
     'A client uses the storage of the server and the options it asked for, '
     'one that is read-only refuses writes, and '
     'creating a database file through a client is refused.',
     ['histories', 'schedules', 'configurations'],
     'every history of operations of several clients, with and without '
     'cache files, across server restarts; every moment at which the first '
     'clients connect',
     'tests mock the server; sharing shows only with several live clients',
     ['citrine/client/container_client.py'],
     [('opening a client database',
       'citrine/client/container_client.py ContainerClient.connect')],
     ['what each client reads', 'content of the file'],
     'reference-model monitor over real ZEO servers and clients')

prop('C17', 'Legacy containers keep every object findable',
     'A legacy container, whatever mappings it is made of, and the connection '
     'built on it behave as a map: a written object is what reading its id returns until it is replaced or '
     'deleted, also after the number of inner containers was expanded, after '
     'commits and aborts, and in other connections. Expanding to a number '
     'that is not larger is refused without effect, setting up an existing '
     'database again changes nothing, and a block of operations takes effect '
     'completely or, after an exception or a conflict, not at all: what one '
     'connection stored is never lost by what another one changes or expands '
     'meanwhile. Expanding and setting up belong to the block they are made '
     'in, and with automatic transactions switched off nothing is visible to '
     'others until a commit by hand.',
     ['inputs', 'histories'],
     'every history of operations, every id text, every number of containers',
     'the place of an object depends on its id and the number of containers; '
     'tests expand nothing that holds objects',
     ['citrine/persistence.py', 'citrine/connection/connection.py',
      'citrine/cluster_tools/clusterdb/container.py'],
     [('placement and expansion', 'citrine/persistence.py DbContainer')],
     ['results, sizes, content of each inner container'],
     'reference-model monitor (dict) over random histories')

prop('C18', 'Database modules never touch foreign files',
     'Creating a database module makes exactly one new directory with its '
     'init file below the given path, and an existing directory is refused '
     'untouched unless overwriting was asked for. Deleting or overwriting '
     'removes exactly the init file and the database files named after the '
     'module, in whatever way the path is spelled, the directory only if it '
     'is left empty and nothing outside it; only complete removal was asked '
     'to remove everything in it. Looking for modules finds exactly the '
     'directories whose init file declares one, whatever else lies there and '
     'however broken other init files are; the modules of a group open as '
     'databases with their own content and disappear when destroyed, and '
     'registry entries of them give their name, path and size; a module '
     'opens its database and stays where it is; where '
     'one of them cannot be opened the group is refused, and none of the '
     'others stays open. Looking for modules changes no file, and using one '
     'adds none but those of its database, also if Python keeps what it '
     'compiles.',
     ['inputs', 'histories', 'configurations'],
     'every content of the directories, every name and spelling of the path',
     'tests cover no file operations of modules',
     ['citrine/cluster_tools/dbmodule/dbmodule.py',
      'citrine/cluster_tools/dbmodule/consts.py',
      'citrine/cluster_tools/dbmodule/dbgroup.py'],
     [('choice of the files to delete',
       'citrine/cluster_tools/dbmodule/dbmodule.py delete_dbmodule')],
     ['the whole directory tree before and after'],
     'differential monitor of the whole file tree around each call, run '
     'without privileges')

prop('C19', 'Stored databases stay readable everywhere',
     'A database file keeps its meaning: files written by earlier versions '
     'and by other processes show the same objects, groups, sizes, capacity '
     'and strictness, independent of the hash seed of the process. All '
     'operations, resizing and condensing included, work on them and can be '
     'read back by every other process.',
     ['inputs', 'histories', 'configurations'],
     'every stored content, every process environment',
     'tests write and read within one process and one version',
     ['citrine/storage/group.py', 'citrine/storage/collection.py',
      'citrine/storage/container.py', 'citrine/database/containerdb.py'],
     [('placement of ids', 'citrine/storage/group.py groupfn'),
      ('pickled state', 'citrine/storage classes')],
     ['everything visible of the database in each process'],
     'differential monitor: recorded files of the pinned version and '
     'separate processes against the model')

AS2 = ['activitystreams/models.py', 'activitystreams/properties.py']

prop('C20', 'Documents load as the objects they describe',
     'A JSON document (text or data, one or a list, compact or expanded type '
     'spelling) of a known ActivityStreams type loads as an object of '
     'exactly that class, with every known property holding the value, '
     'nested object or link, or list in document order that the document '
     'gives, at every depth, and unknown properties ignored; items of '
     'collections are counted if the document does not give the total. '
     'Loading neither changes the given data nor reads anything from the web '
     'but contexts that are not known, whatever was loaded before. A '
     'document without type or of an unknown type is refused with a '
     'ValueError, as are values outside the range of a property.',
     ['inputs', 'histories', 'configurations'],
     'every document of the vocabulary, every nesting and property '
     'combination, every order of loading',
     'the packages for documents have no tests, and errors show only for '
     'particular types, properties and nestings',
     AS2 + ['jsonld/engine/json_input.py', 'jsonld/engine/jsonld_engine.py',
            'jsonld/base.py'],
     [('expansion and choice of classes', 'jsonld/engine/json_input.py'),
      ('constructors and setters', 'activitystreams/models.py')],
     ['the loaded object graph, given data, requests made'],
     'vocabulary written from the specification as oracle for generated '
     'documents, recorded network')

prop('C21', 'Objects are written as the documents that describe them',
     'An object of the vocabulary, built by a program, loaded or changed '
     'afterwards, is written as a document with its type, its context and '
     'exactly the properties that have a value, each as the value, nested '
     'document, link or list last set. All ways of writing (data, text, '
     'minified, indented) describe the same document, writing changes '
     'nothing and reads nothing from the web. Reading the written document '
     'gives an equal object again, and writing that gives the same document.',
     ['inputs', 'histories'],
     'every object graph without cycles, every history of changes',
     'no tests; special values (false, zero, empty, dates in lists, nested '
     'contexts) each take their own way through the writer',
     AS2 + ['jsonld/base.py', 'jsonld/jsonld.py', 'jsonld/utils.py'],
     [('collection of the data of an object', 'jsonld/jsonld.py data'),
      ('conversion of values', 'jsonld/utils.py')],
     ['written data and text', 'the object before and after'],
     'vocabulary written from the specification as oracle, round trips of '
     'generated object graphs and histories of changes')

prop('C22', 'Properties take values of their range only',
     'Setting a property of an object of the vocabulary (by constructor or '
     'assignment) accepts every value of its range: numbers within bounds, '
     'texts, dates, objects and links of the demanded kinds, lists of such '
     'for properties that may have several, and None to remove it. Any other '
     'value is refused with a ValueError, also if hidden in a list, and '
     'leaves the object exactly as it was. What is read back is what was '
     'set, and no two objects ever share their values.',
     ['inputs', 'histories'],
     'every class, every property, every value inside and outside its range',
     'no tests; each of some sixty properties validates on its own',
     AS2,
     [('setters of the properties', 'activitystreams/properties.py')],
     ['value read back, other properties, exception'],
     'online monitor over generated assignments, with ranges taken from the '
     'specification')

prop('C23', 'Dates and durations keep their meaning',
     'A date text is accepted exactly if it is a date of the grammar of '
     'ActivityStreams (seconds and fractions optional, Z or numeric offset; '
     'leap seconds and fractions of minutes aside) that exists, and denotes '
     'the same instant when it is read as a datetime, and when it is '
     'written. A datetime of any timezone is '
     'written as the instant it denotes, one without timezone as UTC, and '
     'reading the text gives the instant again. A timedelta is written as a '
     'duration text of the same length and sign (years of 365 and months of '
     '30 days).',
     ['inputs'],
     'every date text, datetime, timezone and timedelta',
     'no tests; offsets, fractions, extreme years, negative and zero '
     'durations each are written separately',
     ['jsonld/tools/datetime.py', 'activitystreams/properties.py'],
     [('parsing and formatting', 'jsonld/tools/datetime.py')],
     ['parsed and written values'],
     'independent reading of the grammar as oracle on generated and mutated '
     'texts and instants')

prop('C24', 'Links are opened when they are read, and only then',
     'A property holding a link (or an address, which becomes a link) makes '
     'no request when it is set, loaded or written; each time it is read as '
     'a single value the address is requested exactly once, asking for an '
     'ActivityStreams document, and the object of the document is returned. '
     'If the address cannot be reached, is refused or answers no document of '
     'a known object, the link itself is returned and nothing is raised. '
     'Lists, mentions and links without address are never opened, written '
     'documents keep the address, and circles of links never lead to more '
     'requests than reads.',
     ['inputs', 'histories', 'configurations'],
     'every web of documents and failures, every history of reading, setting '
     'and writing',
     'no tests; depends on the answers of other servers',
     AS2 + ['jsonld/engine/utils.py', 'jsonld/engine/jsonld_engine.py'],
     [('opening of links', 'activitystreams/properties.py, '
       'jsonld/engine/utils.py')],
     ['each request with its headers, values read'],
     'trace monitor of all requests on a generated web with failures')

prop('C25', 'Including, excluding and renaming what is written',
     'Writing an object with chosen properties gives exactly those of its '
     'properties that are included (all if none are named) and not excluded, '
     'that have a value or if missing values are asked for, and whose value '
     'is not among the rejected ones, under the names they are renamed to, '
     'with the values written without options and changed by the given '
     'transforms. The same holds for data, '
     'text, reading one property by its name and all together. The options '
     'and the context last for that call only, whatever fails in between, '
     'and do not apply to other objects.',
     ['inputs', 'histories'],
     'every object, every combination of options, every failing property',
     'no tests; combinations of options and restoring after failures need '
     'particular histories',
     ['jsonld/jsonld.py', 'jsonld/base.py', 'jsonld/utils.py'],
     [('options of writing', 'jsonld/jsonld.py ApplicationActivityJson'),
      ('contexts of an object', 'jsonld/base.py')],
     ['written data, context of the object before and after'],
     'differential monitor: data with options against data without')

prop('C26', 'Packages and engines combine without sharing',
     'An engine has exactly the classes of its packages, each with exactly '
     'its own, inherited and packaged properties, and makes objects of '
     'them, also after properties are linked to or removed from classes '
     'of a package. Adding a package gives the classes of both, the later replacing '
     'those of the same name, subtracting one removes its classes, and '
     'neither changes the packages, engines, classes or objects that existed '
     'before. Objects of plain model classes are taken over with all their '
     'values as objects of the engine, and anything that is no package, '
     'engine or known class is refused.',
     ['inputs', 'histories', 'configurations'],
     'every set of packages, every order of combining them',
     'no tests; sharing of classes shows only with several engines',
     ['jsonld/package.py', 'jsonld/kamino.py',
      'jsonld/engine/jsonld_engine.py', 'jsonld/base.py',
      'activitystreams/package.py'],
     [('cloning of classes', 'jsonld/kamino.py'),
      ('combination', 'jsonld/package.py, jsonld/engine/jsonld_engine.py')],
     ['classes and properties of every engine after every step'],
     'reference-model monitor of all engines and packages over generated '
     'histories of combining them')

prop('C27', 'Contexts are fetched by the rules and only once',
     'Loading a context document makes one request for its address, asking '
     'for JSON-LD, and gives the document, the final address and the linked '
     'context, as the JSON-LD rules say (link headers, alternates, several '
     'context links refused). Addresses that are not http or https, '
     'malformed or not secure though that is demanded are refused before any '
     'request, and every failure is reported as a JsonLdError. With the '
     'cache, a document is fetched only once by all loaders together, and '
     'failures are not kept: the next attempt asks again. Documents naming '
     'a context are read by it, however often it is named, and documents '
     'without context by that of ActivityStreams. The helper that gets a '
     'document asks for JSON-LD, with the headers given as well, and gives the '
     'document or the whole answer.',
     ['inputs', 'histories', 'configurations'],
     'every address, answer and failure, every history of requests',
     'no tests; depends on the answers of other servers',
     ['jsonld/docloader.py', 'jsonld/engine/jsonld_engine.py'],
     [('loaders', 'jsonld/docloader.py')],
     ['each request, result, exception'],
     'trace monitor of requests against a model of loader and cache')

prop('C28', 'Only valid addresses are accepted',
     'A text is taken for an address exactly if it is an http or https url '
     'with a host of letters, digits, underscores, dots and hyphens and an '
     'optional port (https only if security is demanded), for every '
     'spelling, and for an account exactly if it is a mail address, with or '
     'without acct: before it. No text, however malformed, makes the validation fail with an exception. '
     'Only texts that are addresses become links when given for objects; '
     'others are refused.',
     ['inputs'],
     'every text',
     'no tests; malformed texts are too many to list',
     ['jsonld/tools/url.py', 'jsonld/engine/utils.py'],
     [('validation', 'jsonld/tools/url.py, jsonld/engine/utils.py')],
     ['result or exception for every text'],
     'independent reading of the address grammar as oracle on generated and '
     'mutated texts')

prop('C29', 'Contextual properties act for the context of their object',
     'A property with several getters, setters and deleters uses the one '
     'registered for the current context of its object, the default one if '
     'there is none, and fails with an AttributeError if there is neither; '
     'contexts are entered and left in nested order, also after exceptions, '
     'and each object has its own. Registering a function for one context '
     'changes nothing for other contexts, and deriving a property with '
     'another default function leaves the former property as it was. A '
     'class has exactly the properties of its ancestors and its own, '
     'whatever classes and objects were made before.',
     ['inputs', 'histories'],
     'every class hierarchy, every history of contexts and accesses',
     'no tests; needs hierarchies and nested contexts',
     ['jsonld/base.py'],
     [('properties and context managers', 'jsonld/base.py')],
     ['which function was called with what, collected properties'],
     'reference-model monitor over generated class hierarchies and histories')

prop('C30', 'The log of the transactions tells what happened',
     'Every transaction block and every operation with a transaction of its '
     'own appears in the log of its transaction manager with a unique id: '
     'one start, then every create, update and delete attempted in it, in '
     'order, each with its name and the database identifier, then one end '
     'that says SUCCESSFUL exactly if it was committed and FAILED (as an '
     'error) otherwise, whatever made it fail: an exception in it, a '
     'conflict, a refusal at any step of the commit, a failing abort. When '
     'success is logged other connections can see all of its changes, '
     'and before that none. What belongs to one id comes from one thread and '
     'one transaction, also if threads share a manager; the manager shows the '
     'id during the block and none after it. A transaction that cannot begin '
     'leaves no start without end and the id of the current one as it is.',
     ['histories', 'inputs', 'schedules'],
     'every sequence of operations and blocks, every point of failure, every '
     'interleaving of threads',
     'no tests; needs failing commits and concurrent transactions',
     ['citrine/storage/transaction.py', 'citrine/persistence.py',
      'citrine/connection/container_connection.py',
      'citrine/connection/connection.py'],
     [('managers and autocommit', 'citrine/storage/transaction.py, '
                                  'citrine/persistence.py')],
     ['every record of the log with its thread, what another connection sees '
      'at that moment'],
     'trace monitor of the log against what was done, with the state of the '
     'database observed at every record')

prop('C31', 'Nothing stays behind',
     'Whatever is done again and again, whether it succeeds or fails, takes '
     'no more resources each time: blocks and connections of every kind '
     '(nested, in threads, with managers of their own, historical), '
     'conflicting, refused and failing transactions, databases, groups, '
     'modules and clients that are opened and closed or cannot be opened, '
     'packages, engines, links of properties, objects and documents. When it '
     'is over no connection is open that was opened for it, also if opening '
     'several stopped halfway, a database keeps no more connections than '
     'were open at once, and no files, sockets, threads, objects, classes or '
     'entries of containers are left. Objects that were deleted, replaced, '
     'or moved between collections and groups leave nothing in the storage '
     'once it is packed.',
     ['histories', 'configurations', 'fault_sequences'],
     'every operation, repeated any number of times, every way of failing',
     'a test does things once and looks at the result; leaks show in what is '
     'left after many repetitions',
     ['citrine/database/containerdb.py', 'citrine/storage/transaction.py',
      'citrine/persistence.py', 'citrine/connection/group_connection.py',
      'citrine/connection/container_connection.py',
      'citrine/cluster_tools/dbmodule/dbmodule.py',
      'citrine/cluster_tools/dbmodule/dbgroup.py',
      'citrine/client/container_client.py', 'citrine/storage/container.py',
      'citrine/storage/collection.py', 'jsonld/package.py',
      'jsonld/kamino.py', 'jsonld/base.py', 'jsonld/docloader.py',
      'jsonld/engine/jsonld_engine.py', 'jsonld/engine/json_input.py'],
     [('opening and closing', 'citrine/database/containerdb.py, '
                              'citrine/connection/group_connection.py'),
      ('cloning of classes', 'jsonld/kamino.py')],
     ['open connections, files, sockets and threads of the process, live '
      'objects by class, sizes of containers, objects in the storage'],
     'leak sanitizer: resources of the process counted before and after '
     'rounds of repetitions')

prop('C32', 'Threads with objects of their own do not notice each other',
     'Threads that work at the same time, each with objects, databases, '
     'containers or collections of its own, get the results they get '
     'without each other, wherever one is preempted: documents loaded, '
     'written and refused by one engine, objects made of the same classes '
     '(also when these are used for the first time), links opened, '
     'documents fetched by a common loader, engines made and packages built '
     'of the same classes, contexts switched for objects of one class, and '
     'maps, resizing, condensing, transaction blocks and readings of groups '
     'of databases. No operation fails because of another thread, and no '
     'value, context, property or setting of one thread shows up in '
     'another.',
     ['schedules', 'inputs'],
     'every interleaving of threads that share engines, loaders, packages, '
     'classes and modules but no objects',
     'the tests run in one thread; state kept in a class, a module or an '
     'engine instead of the object only matters when a thread is preempted '
     'at the right line',
     ['jsonld/base.py', 'jsonld/kamino.py', 'jsonld/package.py',
      'jsonld/docloader.py', 'jsonld/engine/json_input.py',
      'jsonld/engine/jsonld_engine.py', 'activitystreams/models.py',
      'activitystreams/properties.py', 'citrine/storage/container.py',
      'citrine/storage/group.py', 'citrine/storage/collection.py',
      'citrine/storage/transaction.py', 'citrine/persistence.py',
      'citrine/database/containerdb.py',
      'citrine/connection/group_connection.py'],
     [('classes used for the first time', 'jsonld/base.py: '
                                          'PropertyAwareObject'),
      ('loading of documents', 'jsonld/engine/json_input.py')],
     ['the result of each thread compared with the one without threads'],
     'threads preempted at random lines (sys.settrace), results compared '
     'with those of a run without threads')

NOT_APPLICABLE = []



def write():
    names = sorted(PROPERTIES, key=lambda entry: entry['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as writer:
        for entry in names:
            assert len(entry['title']) <= 80, entry['title']
            writer.write(json.dumps({
                'id': entry['id'], 'title': entry['title'],
                'statement': entry['statement'],
                'quantifier': {'over': entry['over'], 'text': entry['text']},
                'why_tests_cant': entry['why'],
                'anchors': {
                    'files': entry['files'],
                    'state': [{'name': name, 'meaning': meaning,
                               'where': where}
                              for name, meaning, where in entry['state']],
                    'mechanism': [{'name': name, 'where': where}
                                  for name, where in entry['mechanism']],
                    'observe_at': entry['observe'], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': entry['id'],
            'quick_cmd': f'./run.sh {entry["id"]} quick',
            'thorough_cmd': f'./run.sh {entry["id"]} thorough',
            'technique': 'runtime monitoring: ' + entry['technique'],
            'level': 'exploration',
            'level_note': entry['note'] or
            'no violation in the executions generated from the seed; '
            'see evidence for what was observed',
        } for entry in names],
        'not_applicable': NOT_APPLICABLE,
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as writer:
        json.dump(manifest, writer, indent=1)
        writer.write('\n')


if __name__ == '__main__':
    write()
