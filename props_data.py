p("C01", "No local operation takes effect without the permission it needs",
  "An operation on a local storage or database handle that is limited to a session's permissions reads or changes stored data (documents, views, key-value entries, transactions, subscriptions, published messages, databases, users, roles, groups, compactions) only if those permissions allow that operation's action on exactly the resource it touches, for each element of a batch; otherwise it fails with a permission error and nothing happens. A handle derived from a limited handle is limited by the same permissions or fewer.",
  ["programs", "inputs", "configurations"],
  "every public operation, every handle (sync or async, storage, database, derived), every set of granted permissions, every batch",
  "Tests try a few operations with a few permission sets; a missing or misaddressed check on one path of one operation leaves them all green.",
  [L + "database.rs", L + "storage.rs", L + "database/keyvalue.rs", L + "database/pubsub.rs", L + "async.rs", CO + "permissions/bonsai.rs", CO + "connection.rs"],
  [("check_permission on the handle before the protected call", L + "database.rs, storage.rs"), ("SessionPermissions of a Session", CO + "connection.rs"), ("resource names built by permissions::bonsai", CO + "permissions/bonsai.rs")],
  observe=["result of the operation", "stored state afterwards"])
p("C03", "The server performs the requested operation as the requester, and only that",
  "For every request type of the network protocol, the server performs exactly the operation that request stands for, on the database the request names, with the request's fields as the arguments in the right places, through a handle limited to the permissions of the session the request was sent under. An error of the operation is answered as an error. Logging in or out affects only the requester's connection and only the session concerned.",
  ["inputs", "programs", "configurations"],
  "all 50-odd request types, all field values, all session permissions",
  "Tests run one or two values per request, mostly as an unrestricted user, so swapped arguments, the wrong handle or a lost error of a rarely used request are not seen.",
  [S + "dispatch.rs", S + "server.rs", S + "server/connected_client.rs", "crates/bonsaidb-core/src/networking.rs"],
  [("one Handler per request type, registered by name", S + "dispatch.rs"), ("HandlerSession.as_client", S + "api.rs")],
  observe=["operation performed on storage", "response"])
p("C04", "Each client operation sends the request that carries its arguments",
  "Every operation of the asynchronous and of the blocking network client sends, on every successful path, exactly one request of the type the protocol defines for it, with each field holding the caller's argument of that meaning, the handle's database name, and the handle's own session. An error answer is never turned into a success.",
  ["inputs", "programs", "configurations"],
  "every client operation, all argument values, both client flavours",
  "Tests call each operation with one or two argument values, often defaults, against one flavour of client.",
  [CL + "client.rs", CL + "client/remote_database.rs", CL + "client/remote_database/keyvalue.rs", CL + "client/remote_database/pubsub.rs", CL + "client/sync.rs", "crates/bonsaidb-core/src/networking.rs"],
  [("send_api_request with the protocol's structs", CL + "client.rs and client/remote_database.rs")],
  observe=["bytes sent", "result of the operation"])
p("C06", "Every wrapping handle performs the same operation, arguments and outcome",
  "Each operation of the asynchronous local handles, the server's handles, the either-local-or-remote handles and the namespaced key-value handle performs the operation of the same name on what it wraps, exactly once on every path, with the caller's arguments in the same places. The result it returns is that operation's result; an error never becomes a success.",
  ["programs", "inputs", "schedules"],
  "every method of every wrapping handle type, all arguments, all outcomes of the wrapped operation",
  "Tests go through one or two of the layers for each operation, with fixed arguments; a swapped argument or dropped error in another layer is invisible.",
  [L + "async.rs", L + "storage.rs", S + "server.rs", S + "server/database.rs", "crates/bonsaidb/src/any_connection.rs", CO + "keyvalue/implementation/namespaced.rs"],
  [("forwarding implementations of the connection traits", L + "async.rs and siblings")],
  observe=["operation performed on the wrapped handle", "result"])
p("C02", "A session is issued only for proven credentials, with that identity's rights",
  "Authenticating with a password yields a session only if the given password matches the stored hash of the very user the session is for; authenticating with a token yields one only for the token's identity, after a fresh, recent, single-use challenge for that token was answered with its secret, and until then the challenge session allows nothing. A session's permissions are the union of those of the identity's own permission groups, of its roles' groups, and the configured ones for authenticated users; a handle obtained by authenticating or by assuming a session is never unlimited. Setting a password replaces the hash of exactly that user, and unauthenticated connections have exactly the configured default permissions.",
  ["inputs", "programs", "histories", "configurations"],
  "every user, role, token, group assignment, password, challenge and answer; every order of authentication steps",
  "Tests log in once or twice with one user, one token and one group; a wrong identity, an ignored comparison outcome or a reusable challenge on another path stays green.",
  [L + "storage.rs", L + "storage/token_authentication.rs", L + "storage/argon.rs", CO + "admin/authentication_token.rs", CO + "admin/user.rs", CO + "admin/role.rs", S + "server.rs"],
  [("authenticate_inner, begin/finish_token_authentication, assume_user/assume_role", L + "storage.rs"), ("hashing threads", L + "storage/argon.rs"), ("challenge arithmetic", CO + "admin/authentication_token.rs"), ("effective_permissions", CO + "admin/user.rs, role.rs")],
  observe=["session returned", "permissions of the returned handle"])
p("C05", "Every request gets exactly its own response, also when the connection ends",
  "A client's request is answered with the response the server sent for that very request, whatever order responses arrive in and however many requests are outstanding. When a connection ends, each outstanding request is answered with an error and the connection's subscribers end, so no caller waits forever. The server answers each request exactly once, under the request's own name, id and session, having executed it with that session.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of requests and responses, every point at which the connection can end",
  "Tests use a healthy connection and few concurrent requests; a lost registration or an answer under another id needs a particular interleaving or a disconnect at a particular moment.",
  [CL + "client/quic_worker.rs", CL + "client/tungstenite_worker.rs", CL + "client/wasm_websocket_worker.rs", CL + "client.rs", S + "server.rs"],
  [("table of outstanding requests", CL + "client.rs"), ("client workers", CL + "client/*_worker.rs"), ("request loop", S + "server.rs")],
  observe=["result of each client call", "end of each subscriber"])
p("C07", "A transaction is applied completely, in order, and once, or not at all",
  "Applying a transaction executes each of its operations once, in order, and returns one result per operation in the same order. Either every operation succeeds and all effects (document changes, entries of eagerly updated views, invalidation of other views, one log entry listing exactly the changed documents) are committed together, or an error is returned and nothing is changed.",
  ["inputs", "histories", "fault_sequences"],
  "every list of operations, every point at which an operation, view or storage access can fail",
  "Tests apply short transactions that succeed or fail in one place; an error swallowed after the first write, or a write outside the transaction, needs a failure at a particular step.",
  [L + "database.rs", L + "views/mapper.rs", CO + "transaction.rs"],
  [("apply_transaction_to_roots and execute_operation", L + "database.rs"), ("eager view mapping inside the transaction", L + "views/mapper.rs")],
  observe=["returned results or error", "documents, views and transaction log afterwards"])
p("C08", "Updates and deletes take effect only on the revision they were based on",
  "An update or delete takes effect only if the stored document's header (id and revision) equals the one given, otherwise it fails with a conflict or not-found error naming the document; a check operation fails unless the document exists and, if a revision is given, has it. Insert never replaces an existing document, overwrite replaces any. The header returned is the stored one, and a document's revision number grows by one exactly when its contents change.",
  ["inputs", "schedules", "histories"],
  "every document, revision and operation kind; every interleaving with other writers",
  "Tests cover one conflict of each kind; accepting a stale revision in one arm or under one interleaving loses updates silently.",
  [L + "database.rs", CO + "document/revision.rs", CO + "connection.rs"],
  [("execute_update, execute_insert, execute_delete, execute_check", L + "database.rs"), ("Revision::next_revision", CO + "document/revision.rs")],
  observe=["result of the operation", "stored document and header"])
p("C10", "Every document change reaches every view over its collection",
  "Each document change that a transaction commits reaches every view over the document's collection, in the same transaction: each view that is not eager gets the document's id on its list of documents to be mapped again, and each eager or unique view is mapped with that document before the operation succeeds. Every view a schema defines is on the list of its collection's views, and eager ones also on the list of eager views.",
  ["inputs", "programs", "histories"],
  "every transaction, document, collection and set of views with any update policies",
  "Tests use collections with one or two views and check the result of one query; a change that misses one view in one kind of operation shows only in that view, later.",
  [L + "database.rs", "crates/bonsaidb-core/src/schema/schematic.rs", "crates/bonsaidb-core/src/schema/view.rs"],
  [("invalidate_changed_documents, update_eager_views", L + "database.rs"), ("views_in_collection, eager_views_in_collection", CO + "schema/schematic.rs")],
  observe=["results of view queries after the transaction"])
p("C11", "Mapping replaces exactly the changed documents' entries, or fails as a whole",
  "A mapping run maps every document on the view's list, in its stored version, and then the view holds for each of them exactly the entries its map function emitted (none for a deleted document), while other documents' entries are kept and the reduced value of each touched key is recomputed. A document leaves the list only in the storage transaction that stores its entries. If any step fails, a map or reduce function included, the run stores nothing of that transaction, reports the failure and leaves no thread waiting.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every list of documents, every output of the map and reduce functions, every point of failure, every interleaving of the mapping threads",
  "Tests map few documents that emit one key each with functions that succeed; stale keys, lost siblings under a shared key or a hang after a failure need particular sequences of changes and faults.",
  [L + "views/mapper.rs", L + "views.rs"],
  [("Mapper, DocumentRequest::map and the threads it starts", L + "views/mapper.rs"), ("ViewEntryUpdater::compare_swap_view_entry", L + "views/mapper.rs")],
  observe=["entries and reduced values of the view", "result of the query that started the mapping"])
p("C12", "A view query that asks for it sees every transaction committed before it",
  "With the default access policy, querying, reducing or deleting by a view returns entries that cover every transaction committed before the call; with the policy to update afterwards an update is requested. Entries written by another version of the view are never read: before entries are read the version was checked, a changed version drops all entries and puts every document on the list to be mapped, and nothing recorded about a view outlives its database.",
  ["schedules", "histories", "configurations"],
  "every query of any view under each access policy, every interleaving of transactions, mapping jobs and version checks, every history of view versions and of database creation and deletion",
  "Tests query after a few quiet writes; staleness needs a transaction, a mapping job and a query in a particular order, or a database deleted and created anew.",
  [L + "database.rs", L + "tasks.rs", L + "views/integrity_scanner.rs", L + "views/mapper.rs", L + "views.rs", L + "storage.rs"],
  [("update_view_if_needed", L + "tasks.rs"), ("IntegrityScanner", L + "views/integrity_scanner.rs"), ("transaction id a mapping reports", L + "views/mapper.rs")],
  observe=["entries returned by a query"])
p("C13", "A unique view never holds entries of two documents under one key",
  "In a view declared unique no key ever holds entries of two different documents: a change that would bring that about fails with an error and changes nothing, while re-saving a document under its own key succeeds. Unique views are updated within the transaction that changes a document, and before such a transaction begins all eager views of the collections it touches have been brought up to their current version.",
  ["inputs", "histories", "schedules"],
  "every set of documents and emitted keys, every order of transactions, including the first one after a view's version changed",
  "Tests insert one conflicting document; conflicts within one batch, after a key moved, or against documents not mapped yet are not sampled.",
  [L + "views/mapper.rs", L + "database.rs", L + "tasks.rs", CO + "schema/view.rs"],
  [("unique check in compare_swap_view_entry", L + "views/mapper.rs"), ("ViewUpdatePolicy::is_eager", CO + "schema/view.rs"), ("checks awaited in apply_transaction", L + "database.rs")],
  observe=["result of the transaction", "entries of the view"])
p("C14", "Key-value operations act atomically on their own key and report what they did",
  "A key-value operation looks up and changes only its own namespace and key, sees the most recent change of it whether or not that change has been saved yet, and runs under one acquisition of the database's key-value lock. A set takes effect iff its check holds and stores its value with the given or, if asked, the existing expiration; increments and decrements store and return the existing number (or zero) plus or minus the amount in the amount's type, saturating iff asked; a get changes nothing unless it deletes. The status or value returned says what happened, and an operation that fails (including one that would store a value that is not a number) changes nothing.",
  ["inputs", "histories", "schedules"],
  "every command and combination of its options, every state a key can be in (unsaved, being saved, on disk, deleted but not saved, absent), every numeric type",
  "Tests run commands one after another with the default persistence; a key that is being saved at that moment, or was deleted and not saved yet, is a state they do not reach, and few combinations of options are tried.",
  [L + "database/keyvalue.rs", CO + "keyvalue.rs"],
  [("KeyValueState::perform_kv_operation and the execute_* functions", L + "database/keyvalue.rs"), ("Numeric conversions and validation", CO + "keyvalue.rs"), ("Context::perform_kv_operation", L + "database.rs")],
  observe=["output of the operation", "later reads of the key"])
p("C15", "Acknowledged key-value changes are saved, also on failure and shutdown",
  "Every acknowledged key-value change is kept until a transaction containing it, and a log entry naming its key, has been committed; an attempt to save that fails keeps the changes without replacing newer ones. Changes are saved in the order they were staged, whenever the configured persistence rules say so after an operation or when the worker wakes up. Dropping the last handle of a database waits until what is being saved and what remains unsaved has been saved (or a last attempt failed), and listing all entries includes both.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "every interleaving of operations, saving thread, worker and shutdown; every storage access failing or not",
  "Tests save without failures and shut down when nothing is in flight; the losses need a shutdown while a save is running, a failing storage access, or a change made during a save.",
  [L + "database/keyvalue.rs", L + "database.rs", L + "config.rs"],
  [("dirty_keys -> keys_being_persisted -> committed transaction", L + "database/keyvalue.rs"), ("ContextData::drop", L + "database.rs"), ("KeyValuePersistence", L + "config.rs")],
  observe=["entries after reopening the database", "executed transactions"])
p("C16", "Key-value entries expire on time, keep their expiration, and never come back",
  "An entry whose expiration has passed is never returned or counted as present, whether it is in memory or on disk and whether or not its expiration was loaded yet; an entry that has not expired is never treated as gone. Each successful operation leaves exactly the stored entry's expiration scheduled for its key (none for a deleted key), and an operation that fails or changes nothing leaves the schedule as it was. Opening a database schedules every stored expiration, without overriding an entry that was changed meanwhile; the worker is scheduled for the earliest one.",
  ["inputs", "histories", "schedules", "crash_points"],
  "every command and option, every order of expirations, every point in time an entry is read at, every interleaving of operations with the loading of stored expirations",
  "Tests set one or two short expirations and wait; reading between opening and loading, re-setting a key while it is loaded, failing operations and schedules with several keys are not reached.",
  [L + "database/keyvalue.rs", L + "database.rs", L + "tasks.rs"],
  [("update_key_expiration, remove_expired_keys, expiration_order", L + "database/keyvalue.rs"), ("ExpirationLoader", L + "database/keyvalue.rs"), ("retrieve_key_from_disk", L + "database/keyvalue.rs")],
  observe=["result of reads", "entries left after their expiration"])
p("C19", "Everything in a backup comes back under the identity it was stored under",
  "Backing up a storage stores every document of every collection of each available database's schema, and every key-value entry, under its own schema, database, collection and id; restoring recreates each stored database with its schema and puts every stored document and entry back under exactly that identity, with its contents (and expiration), whatever characters names and ids contain. An error while backing up or restoring is reported, never skipped over.",
  ["inputs", "fault_sequences"],
  "every set of databases, collections, ids, keys and namespaces; every location access that can fail",
  "Tests back up one database with one or two documents with tame names to a healthy directory; other ids, names, collections and failures are not tried.",
  [L + "storage/backup.rs", CO + "document/id.rs"],
  [("backup_database, restore_database", L + "storage/backup.rs"), ("directory location, escape_path", L + "storage/backup.rs"), ("textual form of ids", CO + "document/id.rs")],
  note="That a namespace containing the marker \"._key._\" is split elsewhere on restore is outside the rule (see DESIGN.md).",
  observe=["files of the backup", "documents and entries after restoring"])
p("C20", "Databases are created, opened, listed and deleted by name, consistently",
  "A database is created only under a valid name that no other file of the storage uses, with a registered schema, and at most once however many callers race; an existing one is an error unless creation was asked for only if needed. Opening succeeds exactly for a listed database with the schema it was created with, and all handles of one name share one set of files and state; listing reports exactly the databases that exist, also after reopening the storage. Deleting removes the database's handle, files, remembered state, listing and record, and those of no other database.",
  ["inputs", "schedules", "histories"],
  "every name, schema and order or interleaving of create, open, list and delete, across restarts",
  "Tests create and delete a few databases sequentially with simple names; racing creations, names that collide with the storage's own files and re-opening after a deletion are not reached.",
  [L + "storage.rs", L + "database.rs"],
  [("create_database_with_schema, delete_database, database_without_schema, open_roots, validate_name, cache_available_databases", L + "storage.rs")],
  observe=["result of the operation", "list_databases", "files in the storage's directory"])
p("C22", "Published messages reach the subscribers of their database and topic only",
  "A message published through a database handle reaches, with its topic and payload unchanged, subscribers of exactly that topic of that database, however names and topics are spelled; local and remote subscribers receive the topic as it was published. Each subscriber has an identity of its own: subscribing, unsubscribing and dropping affect that subscriber only. A client acts only on subscribers of its own session, messages of a subscriber are forwarded to it until receiving or sending fails, and the client hands them to that subscriber alone.",
  ["inputs", "histories", "schedules"],
  "every topic, payload and database name, every set of subscribers and sessions, every order of subscribing, publishing and dropping",
  "Tests use a handful of topics in one database and well-behaved clients; colliding names, another session's subscriber ids and several subscribers dropped in different orders are not tried.",
  [CO + "pubsub.rs", L + "database/pubsub.rs", L + "storage/pubsub.rs", S + "server.rs", S + "server/connected_client.rs", CL + "client.rs"],
  [("database_topic, Receiver::remove_database_prefix", CO + "pubsub.rs"), ("Subscriber and its registration", L + "database/pubsub.rs"), ("subscribers per session", S + "server/connected_client.rs"), ("table of subscribers", CL + "client.rs")],
  observe=["messages a subscriber receives"])
p("C27", "Typed handles perform the operation they name, with the caller's arguments",
  "Every method of the typed handles (collections, lists, views, documents, entries, key-value builders; blocking and asynchronous) performs on its connection exactly the operation it is named after, once, with the caller's arguments unchanged: collection or view, ids, ranges with both bounds, order, limit, access policy, contents. It succeeds only if that operation did, hands on the whole result, and stores in the document the header that was reported. Modifying a document reloads it after a conflict and re-applies the change before saving again; options set before executing are all honoured.",
  ["inputs", "programs"],
  "every method, argument and combination of options, for both forms of the interface",
  "Some 300 generic methods exist twice; tests call each a few times, rarely with every option or with a failing connection.",
  [CO + "connection.rs", CO + "connection/lowlevel.rs", CO + "schema/collection.rs", CO + "document/collection.rs", CO + "keyvalue/implementation/set.rs", CO + "transaction.rs"],
  [("Collection, View, List, Range, QueryKey", CO + "connection.rs"), ("LowLevelConnection", CO + "connection/lowlevel.rs"), ("SerializedCollection, Entry", CO + "schema/collection.rs"), ("CollectionDocument::modify", CO + "document/collection.rs")],
  observe=["result of the operation", "the stored document"])
p("C29", "Administering users, groups and roles changes exactly what was named",
  "Adding a user to or removing one from a permission group or role changes only the membership of that user in that group or role: it is there exactly once afterwards, or not at all, and success is reported only when the user and the group or role were found and the change was saved. Creating, deleting and setting the password of a user affects that user only. Looking something up by name asks for exactly that name, by id for exactly that id, in blocking and asynchronous form alike.",
  ["inputs", "histories"],
  "every user, group and role, referenced by name, id or document, every set of memberships before",
  "Tests add one membership to one user; removing one of several, adding twice, unknown names and references by id are not tried.",
  [L + "storage.rs", CO + "schema/collection.rs", CO + "admin/user.rs", CO + "admin/group.rs", CO + "admin/role.rs"],
  [("update_user_with_*_id and its callers", L + "storage.rs"), ("NamedCollection, NamedReference", CO + "schema/collection.rs"), ("ByName views", CO + "admin/user.rs")],
  observe=["the stored user", "result of the operation"])
p("C26", "A stored file gives back the bytes appended to it, in order",
  "Appending to a file stores the data, cut into blocks, in one transaction that also requires the file to exist; creating a file appends its contents to that file. A file's blocks are its own, in the order appended, each at the sum of the lengths before it. Reading - by bytes or by blocks, blocking or asynchronous, after any seek - hands out each byte from the current position on exactly once and in order; a missing block or a failure is an error, never a shorter file; nothing read is lost while waiting for more. A seek goes to the block and offset that hold the position asked for, and an impossible one is refused. Truncating removes only whole blocks that fit, from the end named. Deleting removes the file's document before its blocks, and only its own. A handle renamed or moved keeps its name unless the database took the new one, and names that are empty or contain a slash are refused. A buffered writer reports as written exactly what it keeps, and forgets it only once it was appended.",
  ["inputs", "histories", "faults"],
  "every sequence of appends, reads, seeks and truncations; every block size and buffer size; every failure of the database and every point at which an asynchronous read has to wait",
  "Tests write a few blocks and read them back in one piece; buffers that end inside a block, seeks while a request is outstanding, blocks that vanish and failing connections are not tried.",
  [FI + "direct.rs", FI + "schema/block.rs", FI + "schema/file.rs"],
  [("Block::append, load, for_file", FI + "schema/block.rs"), ("Contents: reading and seeking", FI + "direct.rs"), ("create_truncate_transaction, create_file", FI + "schema/file.rs"), ("BufferedAppend", FI + "direct.rs")],
  observe=["bytes read", "stored blocks", "result of the operation"])
p("C17", "What an encrypted collection stores reaches the disk only encrypted",
  "With encryption compiled in, every tree a collection keeps its documents in is opened with the key the collection asks for, or the storage's default key if it names none, also when it is compacted; its views are kept under the storage's default key or the view's own. With a key present, every block that is written passes through the cipher under a fresh random nonce and carries the key's id, and every block read is opened with the key it names; a block that fails authentication is an error, never data. Compression, if any, happens before encryption and is undone after decryption.",
  ["inputs", "configurations", "histories"],
  "every collection, view and key-value tree; every combination of default key, collection key and compression; every block",
  "Tests open one encrypted collection and look for one string in its files; other trees of the same collection, compaction, and combinations of key and compression are not tried.",
  [L + "database.rs", L + "storage.rs", L + "vault.rs", L + "open_trees.rs", L + "tasks/compactor.rs", L + "views/mapper.rs"],
  [("TreeVault, tree_vault", L + "storage.rs"), ("collection_tree, collection_encryption_key", L + "database.rs"), ("EncryptionKey::encrypt_payload", L + "vault.rs")],
  observe=["bytes of the stored files", "result of opening with another key"])
p("C18", "The vault's master keys are sealed once and open only with their own key",
  "A storage whose master keys exist is always unsealed: neither they nor its stored vault key are replaced, and a missing, wrong or unreadable vault key is an error, not a panic and not a fresh start. Initializing goes on only if the vault key that was stored is retrieved again and the same; the master keys in use are those sealed, for that key, and get their name only when complete. Each key storage looks for a storage's key where it put it, and reports one as missing only if it is.",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "every step of initializing and unsealing failing or being interrupted, every outcome of the key storage",
  "Tests initialize and reopen a storage on a healthy disk; failing key storages, wrong keys and interruptions between the steps are not tried, and the S3 storage is not run.",
  [L + "vault.rs", "crates/bonsaidb-keystorage-s3/src/lib.rs"],
  [("Vault::initialize, initialize_vault_key_storage, unseal", L + "vault.rs"), ("LocalVaultKeyStorage", L + "vault.rs"), ("S3VaultKeyStorage", "crates/bonsaidb-keystorage-s3/src/lib.rs")],
  observe=["result of opening the storage", "files of the vault"])
p("C21", "A storage is open in one place at a time, under one identity",
  "Opening a storage locks its id file exclusively before reading or writing it, and fails if it cannot; the lock is held until every handle on the storage and its databases, and every background thread that writes for them, is gone. The identity is written once, when there is none, and from then on is what was read; the one configured is used without overwriting the file.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of openings by several processes, every order in which handles and threads go away",
  "Tests open a storage once at a time in one process; concurrent first openings and a handle closed while a background thread still writes are not tried.",
  [L + "storage.rs", L + "database.rs", L + "database/keyvalue.rs"],
  [("lookup_or_create_id, StorageLock", L + "storage.rs"), ("background worker", L + "database/keyvalue.rs")],
  observe=["result of opening twice", "storage id"])
p("C30", "Reading returns everything that was asked for, in order, up to the limit",
  "Getting, listing, counting and querying return exactly what exists for the ids, keys or range asked for: every live document or view mapping in it, decoded, once, in the order asked for, and no more than the limit, which deleted documents do not use up. Reducing reduces every entry of the keys asked for, and deleting through a view deletes each document the query finds once. If anything cannot be read or decoded, the operation fails instead of returning part of it.",
  ["inputs", "histories"],
  "every range with every kind of bound, every list of keys, order and limit, every mixture of live and deleted documents, every failure while reading",
  "Tests read a few documents in ascending order, seldom with a limit, and never with deleted documents inside a limited range, a view entry holding many mappings, or several keys given out of order.",
  [L + "database.rs", L + "views.rs"],
  [("LowLevelConnection for Database: list, get, count, query, reduce, delete_docs", L + "database.rs"), ("create_view_iterator, for_each_in_view", L + "database.rs")],
  observe=["documents and mappings returned"])

p("C09", "The transaction log lists what was executed, in order, from where asked",
  "Listing executed transactions returns the entries of the database's own log from the id asked for onwards: every one that changed something, each with its own id and its own changes, up to the limit asked for (or the default) and never more than the maximum. The id of the last transaction is the log's own. An entry reads back as the changes that were written, also one written in the legacy format, and one that cannot be read is an error.",
  ["histories", "inputs"],
  "every log, every starting id and limit, entries with and without data, current and legacy entries",
  "Tests list a handful of freshly written transactions with small limits, and read one legacy log.",
  [L + "database.rs", L + "database/compat.rs", CO + "transaction.rs"],
  [("list_executed_transactions, last_transaction_id", L + "database.rs"), ("legacy and current entry formats", L + "database/compat.rs")],
  observe=["list_executed_transactions, last_transaction_id"])

p("C40", "A crash at any point leaves every database in a committed state",
  "After a crash or power failure at any point, opening the storage again finds every transaction that was acknowledged, and no part of one that was not.",
  ["crash points", "histories"], "every prefix and reordering of the writes the storage engine issues",
  "Tests do not crash the process, let alone the machine.",
  [L + "database.rs", L + "storage.rs"], [("storage of nebari, through Database and Storage", L + "database.rs")],
  na="The on-disk format, its recovery and syncing are nebari's (a third-party crate, not in /repo). What BonsaiDb itself contributes (one storage transaction, success only after its commit, files renamed into place after syncing) is decided by C07, C15, C18 and C21; the rest is about the contents of files at run time.")
p("C41", "Concurrent transactions behave as if executed one after the other",
  "Whatever operations run concurrently on a database, results and final state are those of some sequential order consistent with real time.",
  ["schedules"], "every interleaving of operations on any number of threads and connections",
  "Tests run few threads for a short time.",
  [L + "database.rs", L + "open_trees.rs"], [("apply_transaction on shared trees", L + "database.rs")],
  na="Mutual exclusion comes from nebari's locked trees and its order of acquiring them at run time; linearizability of histories is not a property of any path of BonsaiDb's source. The per-path part (every write goes through one transaction that holds the trees, comparison and write in one step) is C07, C08 and C14.")
p("C42", "Every key type's encoding orders byte-wise like its values and decodes to them",
  "For every supported key type, composites included, encoding preserves the order of values, decoding an encoded key gives the value back, and different values have different encodings.",
  ["inputs"], "every pair of values of every supported key type",
  "Tests compare selected values.",
  [CO + "key.rs", CO + "key/time.rs", CO + "key/varint.rs"], [("KeyEncoding::as_ord_bytes, Key::from_ord_bytes", CO + "key.rs")],
  na="It relates the run-time bytes of two arbitrary values; deciding it needs a theorem about arithmetic on values (order of sign-flipped, variable-length and composite encodings), not about paths or dataflow.")
p("C43", "Network traffic is confidential, authentic and reaches the server it names",
  "Nobody on the network can read or alter what a client and a server exchange, and a client talks only to a server holding the key it pinned or a valid certificate.",
  ["schedules", "inputs"], "every attacker on the network",
  "Tests connect over loopback without an attacker.",
  [CL + "builder.rs", S + "server.rs"], [("fabruic endpoints, TLS configuration", S + "server.rs")],
  na="The guarantee is that of TLS/QUIC in rustls, quinn and fabruic and of key material given at run time; BonsaiDb's source only passes configuration through.")
p("C44", "Data written by earlier versions stays readable",
  "A storage, backup or message written by any released version opens and reads as what was stored.",
  ["histories"], "every file and message any released version could have written",
  "Tests keep a few sample files of some versions.",
  [L + "database/compat.rs", CO + "networking.rs"], [("serialized types and legacy formats", L + "database/compat.rs")],
  na="The formats of earlier versions are not in the source, and the self-describing format (pot) decides at run time what can be read. The legacy transaction log, whose decoder is in the source, is decided by C09.")
p("C45", "Operations, queries and shutdown complete in bounded time and memory",
  "No sequence of requests makes the server or a local database hang, grow without bound or starve other users.",
  ["schedules", "inputs"], "every load and sequence of requests",
  "Tests apply little load.",
  [L + "tasks.rs", S + "server.rs"], [("task manager, connection limits", L + "tasks.rs")],
  na="Termination, fairness and memory depend on run-time quantities (sizes of data, thread scheduling, channel occupancy) no static bound in reach covers.")
