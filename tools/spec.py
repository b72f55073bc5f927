"""What each check runs. A run is one harness entry point with bounds; `must` are the coverage
witnesses it has to reach, or the run is vacuous."""


def run(entry, must, quick=(), thorough=None, wall=(120, 600), timeout=20, opts=(), natives=12):
    return dict(entry=entry, must=list(must), quick=list(quick), thorough=list(thorough if thorough is not None else quick),
                wall=wall, timeout=timeout, opts=list(opts), natives=natives)


SPEC = {}


def check(pid, crate, runs, bounds, assumptions=()):
    SPEC[pid] = dict(crate=crate, runs=runs, bounds=bounds, assumptions=list(assumptions))


check("N01", "core",
      [run("n01_block", ["sum fits", "sum overflows"]), run("n01_slot", ["sum fits", "sum overflows"]), run("n01_index", ["sum fits", "sum overflows"])],
      "every pair of 64-bit counter values; one operation each")

check("V01", "core",
      [run("v01_ada", ["converted"]), run("v01_eth", ["converted"]), run("v01_algo", ["converted"]), run("v01_regulated", ["converted"])],
      "amounts of either sign below 2^67 units of 10^2, 1, 10^-1, 10^-3 or 10^-7, mainchain precisions 0..18, sidechain precisions 0, 6, 12, 18")

check("N02", "core",
      [run(f"n02_read_{x}", ["accepted", "rejected", "string", "number"]) for x in ("block", "slot")] + [run("n02_read_index", ["accepted", "rejected", "number"])]
      + [run(f"n02_show_{x}", ["shown"], wall=(200, 600)) for x in ("block", "slot", "index", "time")],
      "reading: every text of up to 4 bytes from digits, sign and letters, JSON strings and numbers; printing: every 64-bit value")

check("V02", "core",
      [run("v02_addsub", ["done"], [63]), run("v02_mul", ["done"], [40], [63], wall=(200, 600)), run("v02_ord", ["done"], [40], [63], wall=(200, 600)),
       run("v02_hash", ["done"]), run("v02_div", ["done"])],
      "operands of either sign at scales 0, 3, 6: addition and subtraction below 2^63, multiplication and ordering below 2^40 (thorough: 2^63); hashing up to 999; division of multiples up to 396 by 1..4")

check("V03", "core",
      [run(f"v03_{x}", ["accepted", "refused"]) for x in ("ada", "lovelace", "ether", "wei", "algo", "microalgo", "regulated", "normalized")],
      "texts: optional minus sign, up to 2 whole digits and decimals up to one more than the unit has")

check("V04", "core",
      [run("v04_truncate", ["done"]), run("v04_units", ["done"])],
      "values of either sign up to 99999 at scales 0..3; Ether amounts up to 99999 at scales 0..2")

check("B01", "core", [run("b01_balance", ["value", "balance"])],
      "every kind of balance, amounts below 2^62")

check("J01", "core",
      [run("j01_ids", ["equal", "different"], [2], [3]), run("j01_prefix", ["prefix", "no prefix"]), run("j01_pointer", ["reread"], [2], [3]), run("j01_output", ["reread"]),
       run("j01_builder", ["reread"]), run("j01_transaction", ["reread"]), run("j01_rule", ["reread"])],
      "texts of up to 2 arbitrary ASCII characters (thorough: 3; in outputs and transactions 1), amounts up to 99 with up to 2 decimals, indices up to 99 and the largest, up to 2 inputs, outputs and tokens, metadata of every kind but fractions")

H = ["inserted", "removed", "absent", "duplicate"]
HB = "histories of 3 insertions and removals (thorough: 4) over 3 pointers, 2 tokens, symbolic amounts"
check("U01", "core", [run("u01_balances", H, [3], [4])], HB)
check("U02", "core", [run("u02_lists", H, [3], [4])], HB)
check("U03", "core", [run("u03_entries", H, [3], [4]), run("u03_snapshots", H + ["snapshot"], [3], [4], wall=(200, 1200))], HB)

FS = ["files and mappings behave as Linux's do (open, ftruncate, mmap, msync, munmap, stat, mkdir modelled in symex/src/env.rs): what is stored through a shared mapping is in the file at once"]
check("F01", "fraos",
      [run("f01_memory", ["put", "batch", "empty batch", "refused"], [3, 2], [4, 3]), run("f01_file", ["put", "batch", "empty batch", "refused"], [3, 2], [4, 3]),
       run("f01_growth", ["put", "batch"], [3, 5], [4, 6], wall=(200, 1200)), run("f01_index", ["done"]), run("f01_maps", ["done"])],
      "every history of 3 operations (thorough: 4) with records of 1 or 2 symbolic bytes; 3 appends (thorough: 4) of sizes around those at which a file grows by a mapping; an index crossing into its second mapping; 2050 mappings merged into one", FS)
check("F02", "fraos",
      [run("f02_reopen", ["put", "batch", "empty batch", "refused", "closed and reopened", "abandoned and reopened", "read by another", "closed and read"], [3], [4], wall=(200, 1200)),
       run("f02_growth", ["put", "batch", "reopened"], [2, 5], [3, 6], wall=(200, 1200)), run("f01_index", ["done"])],
      "every history of 3 steps (thorough: 4) of appending, closing, abandoning, reopening, reading from a second handle; 2 appends (thorough: 3) of sizes around those at which a file grows, with and without reopening", FS)
check("F03", "fraos",
      [run("f03_fresh", ["crashed", "not crashed", "unacknowledged record survived"], [2], [3]), run("f03_existing", ["crashed", "not crashed", "unacknowledged record survived"], [2], [3], wall=(200, 1200))],
      "a new or an existing database (closed or abandoned), 2 appended batches (thorough: 3) of 1 or 2 records of symbolic content, a crash at every change of a file, copies cut off at every byte; the crash is that of the process, not of the machine", FS)
check("F04", "fraos",
      [run("f04_memory", ["appended", "failed"], [3], [4], wall=(200, 1200)), run("f04_file", ["appended", "failed", "reopened"], [3], [4], wall=(200, 1800)), run("f04_merge", ["done", "failed"], natives=2)],
      "3 appends (thorough: 4), each hit by at most one failing system call (ftruncate, mmap, msync, mprotect), small and 512 KiB records", FS)
check("F05", "fraos",
      [run("f05_clones", ["put", "copied", "a copy dropped"], [4], [5]),
       run("f05_writers", ["in one order", "in the other order"], [1], [2], wall=(200, 1200)), run("f05_writers_memory", ["in one order", "in the other order"], [2], [2], wall=(200, 1200)),
       run("f05_reader", ["a reader came first", "a reader saw the append"], [2], [3], wall=(200, 1200)), run("f05_reader_memory", ["a reader came first", "a reader saw the append"], [2], [3], wall=(200, 1200))],
      "every history of 4 steps (thorough: 5) of copying, dropping and writing through any copy; two threads, with up to 2 preemptions (f05_writers: 1 when quick; readers 3 when thorough) at atomic operations, sequentially consistent", FS)
check("F06", "fraos",
      [run("f06_memory", ["past", "within"]), run("f06_file", ["past", "within"])],
      "up to 3 records, every 64-bit record number", FS)

check("T01", "chain", [run("t01_time", ["time"]), run("t01_custom", ["time"])], "the five networks and any era with slot lengths 1, 2, 20, 21600; the first 2^40 slots of the era")
check("T02", "chain", [run("t02_epochs", ["in the era", "before the era"]), run("t02_byron", ["byron"])], "the five networks, every 64-bit slot; Byron epochs below 2^32")
check("P01", "chain", [run("p01_to_node", ["accepted", "refused"]), run("p01_from_node", ["there and back"]), run("p01_origin", ["origin"]), run("p01_json", ["reread"])],
      "block ids of 0, 62 to 66 characters with 2 arbitrary ones at 4 positions, hashes with 3 arbitrary bytes, every 64-bit slot; as JSON: block ids of up to 2 arbitrary ASCII characters, slots up to 99 and the largest")
check("A01", "chain", [run("a01_fingerprint", ["fingerprint", "refused"], [1, 0], [1, 1], wall=(200, 1200))],
      "policy ids of 0, 54 to 58 characters, names of 0 to 4 and 64, one arbitrary character in the policy (thorough: and one in the name)")

US = ["amounts are whole numbers below 2^40; bigdecimal is replaced by exact fractions of 128-bit integers (harness/models/bigdecimal) whose range is checked on every path; the concrete replays use the real one",
      "the tokens of one output are different (a token listed twice makes the store's sums wrong)",
      "fees are a base plus a fee per input and per output, each any number below 2^40 (the real estimators wrap cardano-multiplatform-lib, which is not part of the build here)"]
UR = US + ["rand gives any sequence of numbers whatever: every draw is a symbolic choice"]
check("S01", "utxo",
      [run("s01_largest", ["none needed", "chosen", "insufficient"], [2, 2], [2, 2], wall=(300, 1200)), run("s01_largest", ["none needed", "chosen", "insufficient"], [3, 0], [4, 0], wall=(200, 1200))],
      "2 available inputs holding any of 2 tokens each, or 3 (thorough: 4) without; 0 or 1 fixed input, one output", US)
check("S02", "utxo",
      [run("s02_random", ["chosen", "insufficient"], [2, 1, 1], [3, 1, 1], wall=(200, 1200)), run("s02_random", ["chosen", "insufficient"], [2, 1, 1, 1], [3, 1, 1, 1], wall=(200, 1200)),
       run("s02_random", ["chosen", "insufficient"], [3, 0, 2], [3, 0, 2], wall=(240, 1200))],
      "2 inputs and 1 output holding 0 or 1 token each, with or without a fixed input; 3 inputs and 2 outputs without tokens (thorough: 3 inputs and 1 output with a token); every random draw", UR)
check("S03", "utxo", [run("s03_again", ["chosen again", "insufficient"], wall=(300, 1200)), run("s03_thermostat", ["chosen again", "insufficient"], [2], [3], wall=(300, 2400))],
      "all three algorithms, two selections of one output each from 2 inputs, with 3 inputs (thermostat: 2, as a list or as a store) offered in between or not; every random draw", UR)
check("S04", "utxo",
      [run("s04_thermostat", ["no change", "one change", "several changes", "refused"], [1, 2], [1, 2], wall=(120, 1200)),
       run("s04_thermostat", ["no change", "one change", "several changes", "refused"], [3, 0, 2], [4, 0, 2], wall=(240, 2400)),
       run("s04_thermostat", ["no change", "one change", "refused"], [2, 0, 1, 1], [3, 0, 2, 1], wall=(120, 1200)),
       run("s04_thermostat", ["one change", "several changes", "refused"], [2, 1, 20, 1, 1000, 3], [3, 1, 20, 1, 1000, 3], wall=(120, 1200)),
       run("s04_thermostat", ["one change", "several changes", "refused"], [2, 1, 2, 1, 1000, 3], [3, 1, 2, 1, 1000, 3], wall=(120, 1200)),
       run("s04_thermostat", ["no change", "one change", "several changes", "refused"], [1, 1, 20, 1, 1000, 2], [2, 1, 2, 1, 1000, 2], wall=(200, 2400))],
      "1 input with up to 2 tokens, 3 inputs (thorough: 4) without; with a fixed input: 2 inputs (thorough: 3) without tokens, 1 input (thorough: 2) with a token, and with given fees 2 inputs (thorough: 3) of which one has a token; accumulators never, rarely or readily split", US)
check("S05", "utxo", [run("s05_balanced", ["balanced", "not balanced"], [1, 2], [2, 2], wall=(200, 1200)), run("s05_totals", ["both balanced", "totals balanced", "not balanced"])],
      "one fixed and one chosen input, one output and one change (thorough: 2), up to 2 tokens in each; totals that belong to other inputs and outputs", US)
check("X01", "utxo", [run("x01_fee", ["balanced", "refused"], [1], [2], wall=(200, 1200))], "0 to 2 inputs, one output, 1 token (thorough: 2)", US)
check("X02", "utxo", [run("x02_change", ["balanced", "refused"], [2], [2], wall=(200, 1200))], "0 to 2 inputs, one output, 2 tokens, with or without a change address", US)

MS = ["sled is replaced by ordered maps that keep what is written (harness/models/sled), as sled is documented to be; the concrete replays use the real sled 0.34"]
MB = ["a block is inserted after its parent and has a higher number; an id always names the same block", "blocks are stored by a format of the harness's own (the caller's type decides it)"]
check("K01", "maps",
      [run("k01_memory", ["appended"], [4], [6], wall=(120, 1200)), run("k01_file", ["appended", "reopened"], [4], [6], wall=(120, 1800)), run("k01_readonly", ["read only"], [4], [6]), run("k01_unindexed", ["done"])],
      "histories of 4 appends (thorough: 6) under 2 keys of symbolic values, on file with reopening, also for reading only", MS + FS)
check("M01", "maps", [run("m01_tree", ["inserted", "inserted again", "removed", "absent", "cleared"], [4], [5], wall=(200, 2400))],
      "histories of 4 insertions, repeated insertions and removals (thorough: 5), with or without references held by the caller, then clearing or not; symbolic block numbers below 2^16", MS + MB)
check("M02", "maps", [run("m02_best", ["selected", "discarded", "none selected"], [2, 1], [2, 2], wall=(300, 1800)), run("m02_best", ["selected", "discarded", "none selected"], [3, 0], [3, 1], wall=(300, 1800))],
      "3 blocks, or 2 blocks and one more insertion or removal (thorough: one operation more each), any depth and age gap, symbolic block numbers below 2^16", MS + MB)
check("M03", "maps", [run("m03_order", ["several"], [4, 0], [5, 0], wall=(120, 1200)), run("m03_order", ["several"], [3, 1], [3, 2], wall=(120, 1200))],
      "4 blocks (thorough: 5), or 3 and one more insertion or removal (thorough: two); symbolic block numbers below 2^16", MS + MB)
ME = ["reopened", "reopened after clearing", "reopened after destroying", "several"]
check("M04", "maps", [run("m04_reload", ME, [2, 1], [3, 1], wall=(200, 2400)), run("m04_reload", ME, [3, 0], [3, 0], wall=(200, 1200))],
      "3 blocks, or 2 and one more insertion or removal (thorough: 3 and one more), any number to store from; then dropped, cleared or destroyed, reopened, and one operation more", MS + MB)
KS = ["in one order", "in the other order"]
KR = ["a reader came first", "a reader saw the append"]
check("K02", "maps",
      [run("k02_writers", KS + ["the same key", "different keys"], [2], [3], wall=(200, 1800)), run("k02_writers_file", KS + ["the same key", "different keys"], [2], [3], wall=(200, 1800)),
       run("k02_reader", KR, [3], [4], wall=(120, 1200)), run("k02_reader_file", KR, [3], [4], wall=(120, 1200))],
      "one append or one lookup by each of two threads, with up to 2 preemptions (readers 3, thorough one more) at atomic operations, sequentially consistent; each operation of sled is atomic", MS + FS)

RB = MS + MB + ["blocks are numbered one after the other along a chain; forks start at a block received before, no deeper than the confirmation depth (and, for confirming, not below what is confirmed)",
                "the part of the crate that stops a CardanoSource is left out: its type needs cardano-multiplatform-lib, which is not available here; restarting is from a multiverse that stores every block"]
check("R01", "source",
      [run("r01_forks", ["received", "rolled back", "started", "again", "tip", "asked"], [6], [7], wall=(200, 2400)),
       run("r01_beginning", ["received", "rolled back", "again", "tip", "asked"], [5], [6], wall=(120, 1200)),
       run("r01_restarts", ["received", "rolled back", "started", "again", "tip", "asked", "restarted"], [5], [6], wall=(200, 2400))],
      "6 pulls (thorough: 7) of new blocks on any branch, known blocks, tip marks or nothing, depths 0 to 3; 5 (thorough: 6) with restarts in between, each when the last block is the highest; 5 (thorough: 6) from the beginning, that is from no block", RB)
check("R02", "source",
      [run("r02_confirmed", ["confirmed", "not confirmed", "again", "tip", "asked"], [6], [7], wall=(200, 2400)),
       run("r02_restarts", ["confirmed", "not confirmed", "again", "tip", "asked", "restarted"], [5], [6], wall=(200, 2400))],
      "6 pulls (thorough: 7) of new blocks on any branch, tip marks or nothing, depths 0 to 3; 5 (thorough: 6) with restarts in between", RB)
