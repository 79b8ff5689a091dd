"""What each check runs: the layers (contracts/*.vt) with the functions whose obligations it needs, and the bounded stand-in."""
LAYERS = {
    "queues": {"proved_in": {}},
    "shard": {"proved_in": {"begin_compaction": "layer maint"}},
    "store": {"proved_in": dict({k: "layer shard" for k in ["insert", "get", "remove", "get_by_hash", "read_at"]}, split="layer maint")},
    "maint": {"rlimit": 60, "timeout": 500, "proved_in": {k: "layer shard" for k in ["read_kv", "write_kv"]}},
}
TRUSTED = [
    "verus 0.2026.09.13 and z3",
    "extract/ (vx): the mechanical translation of /repo/src into Verus text; drops: generics over AsRef<[u8]>, log/debug formatting, error contexts",
    "contracts/prelude.vt: contracts of the standard library, bytemuck and anyhow functions used",
]
Q = "(Queue|QueueIterator|GetOrCreateStatus|PartedHash|CandyStore)::.*"
ROWS = "(InternalStats|MmapFile|ShardRow|PartedHash)::.*"
OPS = "Shard::(operate_on_row|operate_on_row_mut|get|get_row|insert|insert_row|try_replace|remove|remove_row)"
MODS = "Shard::(operate_on_row_mut|insert|insert_row|try_replace|remove|remove_row)"
RAW = "(ShardRouter::(shared_op|insert)|CandyStore::(get_raw|remove_raw|set_raw|replace_raw|get_or_create_raw|insert_internal|ensure_entry_fits))"
API = "CandyStore::(make_user_key|ensure_sizes|owned_.*|get|contains|remove|set|replace|get_or_create)"
COND = "CandyStore::(owned_replace|replace|owned_get_or_create|get_or_create|replace_raw|get_or_create_raw|insert_internal|ensure_entry_fits|ensure_sizes|make_user_key)"
ITER = "CandyStoreIterator::.*|CandyStore::(iter|iter_raw|iter_from_cookie)"
A_ATOMIC = "sequentially consistent memory: atomics, locks and the mapped headers behave as the contracts in contracts/disk.vt say"
A_SIZE = "shard files are smaller than 4 GiB"
A_LOCK = "parking_lot locks exclude; a guard that is not released explicitly is released where its scope ends"
A_CLOSURE = "closures given to shared_op and operate_on_row(_mut) run between the two halves of those functions (they are verified with an arbitrary closure, the callers with the closure in place)"
A_DIR = "directory: renames and removals are atomic and visible to a later load in order; the spans of the shard files are nodes of one binary tree (kept by split; what a load leaves is covered by the bounded stand-in)"
A_POOL = "the compaction pool runs each request once, and TPHandle::wait returns after it ended"
SPLIT = "Shard::(split|new_shard)"
COMPACT = "Shard::(do_compaction|background_compact|wait_for_compaction|begin_compaction|new_shard)"
MAINT = "Shard::(do_compaction|background_compact|wait_for_compaction|begin_compaction|new_shard|split|merge|get_stats)"
A_ALL = [A_ATOMIC, A_SIZE, A_LOCK, A_CLOSURE]
PROPS = {}
def p(id, level, secs, layers=None, **k):
    PROPS[id] = dict(level=level, secs=secs, layers=layers or {}, **k)
p("C01", "proof", 15, {"shard": [ROWS, OPS], "store": [RAW, API]}, wb=True, assumptions=A_ALL)
p("C02", "proof", 12, {"shard": [ROWS, "Shard::(operate_on_row_mut|insert|insert_row|try_replace)"], "store": [COND, "ShardRouter::(shared_op|insert)"]}, assumptions=A_ALL)
p("C03", "proof", 15, {"shard": [ROWS, OPS, "Shard::(get_by_hash|get_by_hash_row|read_at|read_at_row)"], "store": ["PartedHash::.*", "CandyStore::get_by_hash"]}, wb=True, assumptions=A_ALL)
p("C04", "proof", 12, {"shard": ["MmapFile::.*"], "store": [RAW, API], "queues": ["CandyStore::(ensure_queue_item_fits|ensure_entry_fits)"]}, assumptions=A_ALL)
p("C05", "proof", 15, {"maint": [SPLIT], "store": [RAW], "shard": ["Shard::(operate_on_row_mut|insert|insert_row|try_replace)"]}, wb=True, assumptions=A_ALL + [A_DIR, A_POOL])
p("C06", "proof", 15, {"maint": [COMPACT], "shard": [ROWS, OPS]}, wb=True, assumptions=A_ALL + [A_DIR, A_POOL])
p("C07", "exploration", 15, wb=True)
p("C08", "exploration", 15)
p("C09", "exploration", 15, {"shard": [ROWS, MODS], "maint": [MAINT]}, only_tagged=True)
p("C10", "exploration", 25, {"maint": [MAINT]}, only_tagged=True, assumptions=[A_DIR, A_POOL])
p("C11", "exploration", 12)
p("C12", "proof", 12, {"shard": ["Shard::(read_at|read_at_row|operate_on_row)", "MmapFile::.*"], "store": [ITER, "ShardRouter::shared_op"]}, assumptions=A_ALL)
p("C13", "exploration", 15)
p("C14", "exploration", 15)
p("C15", "proof", 12, {"queues": [Q]})
p("C16", "proof", 12, {"queues": [Q]})
p("C17", "exploration", 15)
p("C18", "exploration", 20, {"maint": [MAINT]}, only_tagged=True, wb=True, assumptions=[A_DIR, A_POOL])
p("C19", "exploration", 15, {"shard": [ROWS, OPS], "maint": [MAINT, "ShardStats::.*"]}, only_tagged=True)
p("C20", "exploration", 15, {"maint": ["Shard::flush"]}, assumptions=[A_DIR])
