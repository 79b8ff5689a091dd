#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Plain keys behave exactly as a map",
"For any sequence of set, get, contains and remove on any keys and values within the documented limits, the store answers exactly as an in-memory byte-string map would: get returns the bytes of the last successful set (or nothing after a remove), and set and remove report the true previous value. An operation on one key never changes what is stored under any other key, and a failed operation changes nothing.",
["inputs","histories"],"all keys, values, operation sequences and shard/row fill states, including ones that overwrite in place, reuse freed slots or trigger splits",
"Tests use a few hundred short ASCII keys with fixed patterns and never compare the whole store against a model after every step.",
["src/shard.rs","src/store.rs","src/router.rs"],
[("ShardRow::lookup + Shard::get","src/shard.rs"),("Shard::try_replace / Shard::insert","src/shard.rs"),("Shard::remove","src/shard.rs"),("MmapFile::read_kv/write_kv","src/shard.rs"),("CandyStore::set_raw/get_raw/remove_raw","src/store.rs")],
[("signatures/offsets_and_sizes","which slots of a row are live and where their bytes are","src/shard.rs ShardRow"),("write_offset","end of the append-only data area","src/shard.rs ShardHeader")],
["CandyStore::get/set/remove/contains return values"])

p("C02","Conditional updates change the value only when their condition holds",
"replace writes the new value only if the key exists and, when an expected value is given, the current value equals it; otherwise it reports DoesNotExist or WrongValue with the current value and changes nothing. get_or_create creates the key only if it was absent and otherwise returns the current value unchanged. Both report the true previous or current value.",
["inputs","histories"],"all keys, current values, expected values (absent, equal, different, prefix, empty) and new values, including new value equal to the old one",
"Three hand-written cases exist in test_atomics; equal-value, prefix and collision cases are not sampled.",
["src/shard.rs","src/store.rs"],
[("Shard::try_replace match on InsertMode","src/shard.rs"),("replace_raw / get_or_create_raw status mapping","src/store.rs")],None,
["ReplaceStatus, GetOrCreateStatus, get"])

p("C03","Keys whose hashes collide stay distinct",
"Two different keys never share or overwrite each other's value, whatever their hashes: even when they fall in the same shard and row with the same signature, each keeps its own value through set, replace, remove, iteration, split, merge and compaction. Every key hashes to a signature that cannot be mistaken for an empty slot.",
["inputs","histories"],"all sets of keys, including ones with equal signature/row/shard, and all hash outputs, including all-zero words",
"Collisions of a 64-bit hash practically never occur in the tests except in one test_list_collisions run with a single mask; zero signatures are never reached.",
["src/hashing.rs","src/shard.rs"],
[("PartedHash::from_hash replaces a zero signature","src/hashing.rs"),("key comparison after signature match","src/shard.rs get/try_replace/remove")],None,
["CandyStore::get after sets of colliding keys"],"whitebox_testing feature (HASH_BITS_TO_KEEP), already in the crate")

p("C04","Size limits are enforced and every accepted entry round-trips",
"Every key up to MAX_KEY_SIZE bytes and value up to MAX_VALUE_SIZE bytes (including empty ones) that fits in a shard is accepted and read back byte for byte through every API. A plain key or value beyond these limits, or an entry too large for a shard, is rejected with KeyTooLong, ValueTooLong or EntryCannotFitInShard. A call rejected for its size, through any API, leaves the store, including the contents and reported lengths of lists and queues, unchanged.",
["inputs","configurations"],"all key and value lengths around and beyond the limits, all max_shard_size settings, all mutating APIs",
"Tests use only short keys and values; no test touches the limits or checks state after a rejected call.",
["src/store.rs","src/lib.rs","src/shard.rs","src/lists.rs","src/queues.rs"],
[("ensure_sizes, insert_internal checks","src/store.rs"),("packing of key/value sizes with the file offset","src/shard.rs write_kv/read_kv"),("MAX_* constants","src/lib.rs")],
[("offsets_and_sizes","klen:16 | vlen:16 | offset:32","src/shard.rs")],
["Result of set/replace/get_or_create and list/queue calls; get; list_len; queue_len"])

p("C05","Splitting a shard preserves every key",
"When a shard splits because it or one of its rows is full, every key it held is afterwards found with the same value, exactly once, in the half that lookups for it are routed to, and the insert that triggered the split takes effect exactly once. Splits never lose, duplicate or resurrect a key and end in success or in an error that loses nothing.",
["inputs","histories"],"all shard contents (any distribution of hashes, full rows, removed slots), any span down to the smallest",
"Tests split shards with evenly spread hashes and check a handful of keys; spans of length one and full rows are not reached.",
["src/shard.rs","src/router.rs"],
[("Shard::split copy loop and mid computation","src/shard.rs"),("ShardRouter::insert split-and-retry loop","src/router.rs")],None,
["get/iter after splits; directory contents"])

p("C06","Compaction preserves every key and concurrent updates to it",
"Background compaction of a shard changes no key's value: each key present when a row is copied is present with the same value afterwards, removed or overwritten data does not come back, and reads, writes and removals that happen while it is running see and affect the current value of each key.",
["histories","schedules"],"all shard contents and all interleavings of operations with the row-by-row copy",
"Tests trigger a few compactions and then read; they do not control which rows are already copied when an operation runs.",
["src/shard.rs"],
[("Shard::do_compaction","src/shard.rs"),("choice of file by compacted_up_to under the row lock","src/shard.rs operate_on_row(_mut)"),("begin_compaction/background_compact file swap","src/shard.rs")],
[("compacted_up_to","rows below it live in the target file","src/shard.rs ShardHeader")],
["get/iter during and after compaction"])

p("C07","Merging small shards terminates and preserves every key",
"merge_small_shards always terminates, whatever the shape of the shard tree, and afterwards the store holds exactly the same keys and values as before, before and after a reopen. A merge that cannot fit is abandoned with nothing changed, and the store never ends with fewer shards than the configured number of keys requires.",
["inputs","histories","configurations"],"all shard trees (balanced or not), fill levels, and row distributions",
"Tests merge a balanced, nearly empty tree only.",
["src/router.rs","src/shard.rs"],
[("ShardRouter::_merge recursion and lock order","src/router.rs"),("Shard::merge copy and row-overflow bail-out","src/shard.rs"),("reload after merge","src/router.rs merge_small_shards")],None,
["merge_small_shards result; get/iter afterwards; directory contents"])

p("C08","Shards partition the hash space and every operation on a key reaches its shard",
"At every moment the shards' spans are disjoint and cover the whole selector space 0..65536, and each key is stored in and looked up from the one shard whose span contains its selector. This holds for every expected_number_of_keys, after any splits and merges, and for any set of complete and left-over shard files found when opening.",
["configurations","inputs","histories"],"all expected key counts, all split/merge histories, all sets of ranges found on disk",
"test_pre_split and test_consolidate_ranges sample a few numbers and a few ranges.",
["src/router.rs","src/shard.rs"],
[("calc_step / create_initial_shards","src/router.rs"),("consolidate_ranges, treeify","src/router.rs"),("shared_op / insert routing by bottom.span.end","src/router.rs")],
[("ShardRouter.span/node","span tree","src/router.rs")],
["Stats::num_shards; get after reopen; names of shard files"])

p("C09","A crash never tears a single-key operation",
"If the process is killed at any point during set, replace, get_or_create or remove of a key, then after reopening the key has either its complete old value or its complete new value (or absence), never a mixture, an empty or foreign value, or a panic. All other keys are unaffected.",
["crash_points"],"every point between two effects on the shard file (data write, offset store, signature store, counters) of every single-key operation",
"test crash tools kill at random times and rarely land between the few memory stores of an insert.",
["src/shard.rs"],
[("data written before offset, offset before signature","src/shard.rs insert / write_kv"),("in-place update swaps one 64-bit word","src/shard.rs try_replace"),("remove clears only the signature","src/shard.rs remove")],None,
["get after kill and reopen"])

p("C10","A crash during open, split, compaction, merge or clear loses nothing",
"If the process is killed at any point while opening a store, or during a shard split, a background compaction, a merge or a clear, then reopening succeeds and the store holds exactly the keys and values that completed operations left there (after an interrupted clear, possibly fewer). Temporary files of the interrupted maintenance are cleaned up or completed, and they never hide or replace newer data.",
["crash_points","histories"],"every point between two file-system or memory effects of open, split, compaction, merge, clear and the recovery that follows, including a crash during recovery",
"No test interrupts maintenance; the crash tool only kills at random times.",
["src/shard.rs","src/router.rs"],
[("rename of complete halves before removing the original","src/shard.rs split"),("rename of combined before removing the parts","src/shard.rs merge"),("load: removal of temporaries, consolidate_ranges","src/router.rs"),("resumption of compaction in open","src/shard.rs open")],None,
["contents after kill and reopen; directory listing"])

p("C11","Reopening restores the store, and only a compatible, unlocked one",
"Opening a directory with the same configuration gives back exactly the contents the store had when last used, and a second open of a directory already in use fails without touching it. A shard file with a foreign magic or version or a truncated header makes open fail without modifying it, unless clear_on_unsupported_version is set, in which case that shard starts empty and usable.",
["histories","configurations","inputs"],"all stores and all corruptions of the file header (every byte of magic and version, every length below the header size)",
"test_loading tries one bad header; reopening is tested with one small store.",
["src/shard.rs","src/store.rs","src/router.rs"],
[("Shard::open header validation","src/shard.rs"),("fslock in CandyStore::open","src/store.rs"),("ShardRouter::load","src/router.rs")],None,
["Result of CandyStore::open; contents after reopen"])

p("C12","Iteration returns exactly the plain entries, once, and cookies resume it",
"Over a store at rest (no changes and no compaction in progress), iter yields every plain key with its current value exactly once and nothing that belongs to lists, queues, big items or typed wrappers. Stopping at any point and resuming from the cookie yields exactly the rest, and a cookie taken at the end yields nothing.",
["inputs","histories"],"all store contents, all stop positions, any number of shards and rows",
"Tests iterate a store of a few shards once and use one cookie.",
["src/store.rs","src/shard.rs"],
[("CandyStoreIterator::next, cookie, from_cookie","src/store.rs"),("Shard::read_at","src/shard.rs"),("namespace byte at the end of each internal key","src/store.rs")],None,
["CandyStore::iter, iter_from_cookie, cookie"])

p("C13","Lists behave as insertion-ordered maps",
"For any history of list operations, each list behaves as an insertion-ordered map: set keeps an existing item's place and appends a new one, promoting moves it to the end, get/replace/get_or_create/remove act on the named item with their plain-key meaning, iteration (both ways), peek and pop follow the order, and list_len is the number of items. No list operation affects another list or any plain key, queue or typed entry.",
["inputs","histories"],"all list and item keys (including empty, and ones colliding by item hash), values, and operation sequences, with holes at any place",
"Tests follow fixed scripts on one or two lists; removing in arbitrary orders and expected-value replace are not covered.",
["src/lists.rs","src/store.rs"],
[("_insert_to_list, owned_remove_from_list","src/lists.rs"),("ListIterator, get_from_list_at_index","src/lists.rs"),("owned_pop_list_*/owned_peek_list_*","src/lists.rs")],
[("List{head_idx,tail_idx,num_items}, ChainKey -> item hash, item value + index suffix","persistent list representation","src/lists.rs")],
["list API return values and iteration order"])

p("C14","Compacting or discarding a list keeps or drops exactly its items",
"compact_list_if_needed never changes the items of a list, their values or their order, compacts exactly when the length and hole ratio call for it, and afterwards the list has no holes. discard_list removes every item of that list and nothing else, so that the list is then empty and can be reused.",
["inputs","histories"],"all lists with any pattern of holes and any compaction parameters",
"Two scripted cases.",
["src/lists.rs"],
[("compact_list_if_needed","src/lists.rs"),("owned_discard_list","src/lists.rs")],None,
["iter_list, list_len, get_from_list, iter_raw"])

p("C15","Queues are double-ended queues with stable indices",
"For any history, a queue behaves as a double-ended queue: push at either end, pop and peek at either end, iteration both ways and queue_len agree with the sequence of elements, and the index returned by a push identifies that element for later removal until it is popped. Removing by index removes exactly that element, discarding removes all of them, and no queue operation affects another queue or any other kind of key.",
["inputs","histories"],"all queue keys, values, and sequences of push/pop/extend/remove-by-index/discard, including removing the only element and holes at either end",
"Scripted tests never remove by index from a queue of one element or interleave holes with pops.",
["src/queues.rs"],
[("_push_to_queue, _pop_queue, remove_from_queue, extend_queue, discard_queue","src/queues.rs"),("QueueIterator","src/queues.rs")],
[("Queue{head_idx,tail_idx,num_items}","persistent queue header","src/queues.rs")],
["queue API return values"])

p("C16","Big values of any length are returned exactly",
"set_big stores a value of any length, including empty and exact multiples of the chunk size, replacing any previous value entirely; get_big returns exactly those bytes, and nothing for a key never set or removed; set_big and remove_big report whether it existed.",
["inputs","histories"],"all value lengths and sequences of set_big/get_big/remove_big",
"One test with one value length.",
["src/store.rs","src/queues.rs"],
[("set_big/get_big/remove_big over queue operations","src/store.rs"),("extend_queue/discard_queue","src/queues.rs")],None,
["get_big"])

p("C17","Typed wrappers are faithful and isolated by type",
"Each typed store, list and deque operation has the effect of the corresponding untyped operation on the encoded key and value, and returns the decoded result. Keys of different key types never see or overwrite each other, and typed store entries never mix with plain keys.",
["inputs"],"all key and value types with a correct encoder, all keys and values, all operations",
"Tests use a few types and values per wrapper and not every operation.",
["src/typed.rs"],
[("make_key/make_list_key append TYPE_ID and namespace","src/typed.rs"),("operation forwarding","src/typed.rs")],None,
["CandyTypedStore/List/Deque return values"])

p("C18","Concurrent operations are atomic and never block forever",
"Modifying operations issued by any number of threads on keys, lists and queues take effect as if executed one at a time: no update is lost, conditional updates are atomic, operations on the same list or queue never interleave, and an element is popped by at most one thread. A lookup of one key returns a value the key had during the call. All of this also holds while splits and compactions run, and no combination of operations deadlocks.",
["schedules"],"all interleavings of any number of threads",
"Multithreaded tests run one schedule per run with disjoint or idempotent work.",
["src/shard.rs","src/router.rs","src/lists.rs","src/queues.rs","src/store.rs"],
[("row locks and file lock in operate_on_row(_mut)","src/shard.rs"),("atomic region allocation in write_kv","src/shard.rs"),("lock_list keyed locks","src/lists.rs"),("node lock and retry in ShardRouter::insert","src/router.rs")],None,
["linearizability of results; progress"])

p("C19","Statistics account for every entry and byte",
"Without crashes, the number of entries reported (inserts minus removals) always equals the number of entries in the store, and occupied bytes minus wasted bytes equals the total size of the live entries. Update, lookup and collision counters advance exactly once per corresponding event, and the size histogram counts every entry written in its size class. clear() leaves an empty store with zeroed counters.",
["histories","inputs"],"all histories, including splits, compactions, merges, reopen and clear",
"Tests assert a couple of counters after one short script.",
["src/stats.rs","src/shard.rs","src/store.rs"],
[("header counters updated with each insert/remove/update","src/shard.rs"),("InternalStats::add_entry/fill_stats/clear","src/stats.rs"),("CandyStore::stats","src/store.rs")],None,
["CandyStore::stats"])

p("C20","flush makes all completed operations durable",
"When flush returns success, every shard file that holds live data at that moment has been synced to disk, including the target of a compaction that is still running, so every operation completed before the call survives a power loss. A failed sync is reported.",
["schedules","histories"],"all sets of shards, at any stage of compaction",
"No test observes which files are synced.",
["src/store.rs","src/shard.rs"],
[("CandyStore::flush over all shards","src/store.rs"),("Shard::flush","src/shard.rs")],None,
["fdatasync calls (by file)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
