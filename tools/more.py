IO = ["io/mem.go", "io/bolt.go", "io/io.go"]
prop("S01", "Provided storages create, replace, read and remove exactly as documented",
 "In every storage of the io package: Put stores exactly the given data if and only if no record exists under the ID and data type, and answers ErrAlreadyExists otherwise; Update replaces an existing record and answers ErrNotFound otherwise; Get returns exactly what is stored and ErrNotFound exactly when there is nothing; Delete removes the record and is no error when there is none; success is only reported after the effect. The forwarding Proxy passes every call, argument and result through unchanged.",
 ["inputs", "histories", "fault_sequences"], "every ID, data type, content, history of calls and database failure",
 "Tests store a few records; an overwritten record, a swallowed database error or an error value confused with another shows only for particular states.",
 IO + ["io/proxy.go"], [("in-memory storage", "io/mem.go"), ("database storage", "io/bolt.go"), ("forwarding", "io/proxy.go")])
prop("S02", "Records of different ID or data type never share a storage key",
 "In every storage of the io package the key of a record is the same function of ID and data type in all four operations, and both can be read off it, so records of different IDs or types never overwrite, replace or shadow one another. The data types used by the library have pairwise different values.",
 ["inputs"], "all IDs and data types",
 "Tests use a few IDs and types; a collision needs two particular keys.",
 IO, [("keys", "io/mem.go, io/bolt.go key construction"), ("data types", "io/io.go, id/standalone_user.go, id/standalone_group.go")], "val")
prop("S03", "Creating or replacing a stored record is one atomic step",
 "In every storage of the io package, looking whether a record exists and writing it happen in one step: of two concurrent Puts of the same record at most one succeeds, and an Update never brings back a record that a concurrent Delete removed. Locks taken are released on every way out.",
 ["schedules"], "all interleavings of concurrent calls on one storage",
 "Tests do not run storage calls concurrently, and a lost check needs one particular interleaving.",
 IO, [("lock", "io/mem.go"), ("write transaction", "io/bolt.go")], "type",
 "Decides that check and write lie in one critical section of one lock held by everything that writes, or in one write transaction of the database, whose own isolation is trusted.")
prop("S04", "Stored data is isolated from the memory of callers",
 "The storages of the io package keep and hand out copies: changing a slice after storing it, or changing a slice that was returned, never changes what is stored or what others read, and returned data stays valid after the call.",
 ["inputs", "histories", "schedules"], "every later change of a stored or returned slice by the caller",
 "Tests do not modify slices after handing them over.",
 IO, [("copies", "io/mem.go, io/bolt.go")], "own")
prop("S05", "The database storage acknowledges only what is committed to disk",
 "The Bolt storage opens the given file for writing with synchronisation on and never switches it off, keeps the records already in the file, and reports success of a Put, Update or Delete only after the change it was asked for was made in a transaction that was committed without error. So what was acknowledged survives a crash.",
 ["crash_points", "fault_sequences"], "every point at which the process stops and every failure of the database",
 "Tests do not crash the process.",
 ["io/bolt.go"], [("transactions", "io/bolt.go")], "type", "Durability of a committed bbolt transaction itself is trusted.")

ALL = ["d1.go", "utility.go", "id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "index/index.go", "data/object.go", "data/access.go", "data/node.go", "data/token.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/random.go", "crypto/tagger.go", "crypto/kwp.go", "io/mem.go", "io/bolt.go", "io/proxy.go", "key/static.go"]
prop("G01", "A failed step never becomes success or partial output",
 "An exported operation of the library reports success only if every fallible step it took (storage, identity and key providers, random numbers, encryption, decryption, key wrapping, encoding, decoding, database) succeeded; the only failures it may go on after are that Delete found no access list and that the end of an index list was reached. Whenever it returns an error, every other result is its zero value.",
 ["fault_sequences", "inputs"], "every exported function and method, and every combination of steps that fail",
 "A test has to make one particular step fail, at one particular call, to see that its error is dropped; most steps never fail under test.",
 ALL, [("error checks", "every call that returns an error, in all packages"), ("results on error paths", "every return of an error")])
prop("G02", "An error tells which step failed and is never blamed on something else",
 "When an operation of D1, the standalone identity provider or the secure index fails because a step failed, the error it returns is that step's own error (possibly wrapped so that errors.Is finds it), ErrNotAuthenticated for an identity that was rejected, or, exactly when storage answered that a record is missing or exists already, the operation's own error value for that kind of record. Such a not-found or already-exists value is never returned for any other reason, and storage's own values for these two outcomes never reach the caller instead of it.",
 ["fault_sequences", "inputs"], "every operation, every failing step and every error value a provider can return",
 "Tests provoke one failure per operation; mistaking a storage outage for a missing record, or hiding it, needs a particular error from a particular step.",
 D1 + ID + ["index/index.go"], [("translation of storage errors", "utility.go, id/standalone.go, index/index.go: the put and get helpers")])
prop("G03", "Concurrent calls on one service share no mutable state",
 "No method of D1, the standalone identity provider, the secure index, the cryptor, tagger, key wrapper, password hasher, random source, static key provider or storage proxy writes to its receiver, to package variables or to memory made before the call that other calls can reach. The logger in the caller's context is left as it was: an operation adds its fields only to a copy with a buffer of its own, and changes no global setting of the logging library.",
 ["schedules", "histories"], "all interleavings of calls on one value, and all histories of calls",
 "Tests make one call at a time; a shared scratch buffer or cached cipher goes wrong only under a particular interleaving or order of calls.",
 ALL[:15] + ["log/log.go", "io/proxy.go", "key/static.go"], [("receivers", "all methods of the service types"), ("loggers", "log/log.go CopyCtxLogger, called first by every operation")], "own")
prop("G04", "Operations leave the memory of callers and providers alone",
 "No exported function or method changes memory that belongs to its arguments (plaintexts, associated data, tokens, group lists, keys, objects) or that it got from an identity, key or storage provider, except where its documentation says so: the destination of Cryptor.Decrypt, and the in-place encryption and decryption of AES256GCM.",
 ["inputs", "histories", "schedules"], "every argument and every provider, including those that hand out the same slice or map each time",
 "Tests do not look at their arguments afterwards, and use providers that copy.",
 ALL, [("writes through parameters", "all exported functions"), ("provider data", "id.Identity.GetIDs, GetIDScope; utility.go authorizeAccess")], "own")
prop("G05", "Secrets never appear in logs",
 "No operation writes a token, password, password hash, key, plaintext, keyword, index identifier or the content of a decrypted record other than IDs, groups and scopes to the log, at any level and on any path, including error paths.",
 ["inputs", "fault_sequences"], "every input and every path of every operation",
 "Tests do not read the log, and error paths are not exercised at all log levels.",
 D1 + ID + ["index/index.go", "log/log.go"], [("log statements", "all calls of zerolog in d1.go, utility.go, id, index and log")])
prop("G06", "The caller's context reaches every provider",
 "Every call an operation makes to a storage, identity or key provider is given the context of the operation's caller, or one derived from it, so that cancellation, deadlines and values reach the provider.",
 ["inputs", "schedules"], "every operation and every provider call in it",
 "Tests use background contexts, for which a dropped context makes no difference.",
 D1 + ["id/standalone.go", "index/index.go", "io/proxy.go"], [("context passing", "d1.go, utility.go, id/standalone.go, index/index.go, io/proxy.go")])
prop("R01", "No input crashes the library",
 "No exported function or method of the library panics, whatever bytes, strings and records it is given: ciphertexts, tokens, packets, wrapped keys, password hashes and stored records may be truncated, oversized or altered in any way and are answered with an error. On every path indices and slice bounds are in range, fixed-size integers are read from and written to enough bytes, nonces and cipher blocks have the length the cipher demands, no type assertion fails, nothing nil is written to or read through, and there is no division by zero. The only exception is the documented one that keyed hashing refuses keys and tag sizes below the minimum by panicking.",
 ["inputs"], "every input of every exported function, as long as provider interfaces given to it are not nil",
 "Tests try a few malformed inputs; a length that is off by one at one place needs that very length.",
 ["crypto/aes.go", "crypto/cryptor.go", "crypto/kwp.go", "crypto/kmac.go", "crypto/kdf.go", "crypto/password.go", "crypto/tagger.go", "data/object.go", "data/access.go", "data/node.go", "data/token.go", "d1.go", "utility.go", "id/standalone.go", "id/scope.go", "id/id.go", "index/index.go", "io/mem.go", "io/bolt.go"],
 [("length checks", "crypto/aes.go Decrypt, crypto/kwp.go, crypto/password.go, crypto/cryptor.go"), ("explicit panics", "crypto/kmac.go")], "bound")
prop("G07", "Nothing is refused without a documented reason",
 "An exported function or method returns an error only if a step it depends on (a storage, identity or key provider, random numbers, encryption, decryption, key wrapping, encoding, decoding or the database) failed, the caller's context had ended, or the documented reason for a refusal holds: a key of the wrong length, a ciphertext too short to contain nonce and tag, an expired token, a wrong password, a missing or already existing record, or a caller without the required rights. There is no limit on the size, number or content of plaintexts, associated data, groups, scopes, IDs, keywords or identifiers.",
 ["inputs", "configurations"], "every argument, stored record and answer of a provider",
 "Tests use small, well-formed arguments; an input that is refused although it is valid (too long, empty, one too many, an unusual character) has to be guessed.",
 ALL, [("returns of errors", "every return of an error in all packages"), ("documented refusals", "crypto/aes.go, crypto/cryptor.go, crypto/tagger.go, crypto/kwp.go, data/token.go, id/standalone.go, utility.go")], "flow",
 "Which lengths a wrapped key may have is decided with B04 and B05, and when rights are missing with A03, I02 and X04.")

prop("B12", "What was sealed opens to itself, at every layer",
 "Opening undoes sealing, without an error, for every value, key and associated data: a sealed object, access list or index node, a token (through its text form, until it expires) and plain bytes through Cryptor or AES256GCM open to exactly what was put in, including empty values. Key unwrapping inverts key wrapping for every permitted length.",
 ["inputs", "histories"], "all objects, access lists, nodes, tokens and byte strings (empty and of every length), all keys, labels, identifiers and associated data",
 "Tests round-trip a few small values; a part that is cut, trimmed, normalised or left out on one of the two sides shows only for particular lengths, bytes, times or keys.",
 ["crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go", "data/object.go", "data/access.go", "data/node.go", "data/token.go"],
 [("sealing and opening", "data/*.go Seal and Unseal, SealedToken.String, TokenFromString"), ("encryption", "crypto/cryptor.go, crypto/aes.go, crypto/kwp.go")], "comp",
 "Sealing composed with opening is reduced, on every path, by the laws of the operations at the boundary (decryption after encryption with the same key and data, decoding after encoding). Those laws are assumed of the Go library's AES-GCM and, for valid UTF-8 strings, of JSON (see B09).")
prop("E01", "An object lives through its operations as its users expect",
 "With a storage that keeps its contract: what was encrypted or last updated is what the creator gets back from Decrypt, whatever happened to other objects; the access list is the creator, the groups given and the groups added since, less those removed; members of a listed group can decrypt, and everybody else is refused by every operation, which then changes nothing; after Delete every operation reports that there is nothing, and deleting again succeeds; a token made by CreateToken gives back its contents until it expires.",
 ["histories", "inputs"], "all objects, callers with all groups and memberships, all keys, and the histories given in the statement (create, change, share, unshare, delete, by the owner, a member or a stranger)",
 "Tests run such histories with a few fixed values; an operation that leaves the next one in trouble for particular groups, identifiers or contents passes them.",
 D1 + ["data/object.go", "data/access.go", "data/token.go", "crypto/cryptor.go"], [("operations", "d1.go, utility.go"), ("records", "data/object.go, data/access.go")], "comp",
 "Histories are fixed sequences of exported operations over all values; longer histories follow from the single-operation properties A01-A08. Not decided: the one run in 2^122 in which two random identifiers coincide.")
prop("E02", "An account works as it was set up",
 "With a storage that keeps its contract: a new user logs in with the password given and is that user, with exactly the scopes given and no groups; after a change of password only the new one works; a user who makes a group is a member of it with the scopes given and keeps their own scopes; a user who is added to a group is a member, with its scopes, until removed; a deleted user can neither log in nor use a token, and other users are not affected.",
 ["histories", "inputs"], "all scopes, keys, generated identifiers and passwords, and the histories given in the statement",
 "Tests run such histories with a few fixed scopes; a scope bit that is lost or a membership that stays passes them.",
 ID + ["data/token.go", "crypto/password.go", "crypto/cryptor.go"], [("operations", "id/standalone.go"), ("records", "id/standalone_user.go, id/standalone_group.go")], "comp",
 "Histories are fixed sequences of exported operations over all values; longer histories follow from the single-operation properties I01-I05.")

prop("G08", "Every call ends: nothing is retried or waited for without limit",
"No exported function or method repeats a step that failed, an attempt to take a lock, or a check of something that does not change, without a limit on how often: a loop goes around again only for the next element, a counter with a limit, or a record it found or changed. A storage never begins a transaction that waits for one it holds open itself, never takes a lock it holds, and leaves no lock or transaction behind on any way out. Opening a database that another process has open fails after a limited wait.",
["inputs", "histories", "fault_sequences"], "every loop and every way out of every exported function, for every answer of a provider, including ones that fail for ever",
"Tests use storages that answer; a call that hangs on one that keeps failing, or on a lock left behind by an earlier error, shows only then.",
ALL, [("loops", "every loop reachable from an exported function, e.g. index/index.go Search, Delete, getLastNode"), ("locks and transactions", "io/mem.go, io/bolt.go"), ("opening", "io/bolt.go NewBolt")], "flow",
"That a list of index entries ends is decided with X03 (counters increase). Waiting inside a provider or in the Go library is not followed; calls are assumed to return.")
prop("S06", "The database file is its owner's alone",
"The file that NewBolt creates gives no rights to accounts other than its owner's, and nothing in the library widens them.",
["configurations"], "every path and process-wide permission mask",
"Whether a too permissive mode shows depends on the permission mask of the process that runs the tests.",
["io/bolt.go"], [("creation", "io/bolt.go NewBolt")], "val")
