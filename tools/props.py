"""The properties; gen.py writes properties.jsonl and MANIFEST.json from this and spec.py."""
PROPS = []
NOT = {}


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if na:
        NOT[id] = na


C = "core/src/"
prop("N01", "Counters never wrap",
     "Adding to or stepping a block number, slot number or output index never wraps around: the checked operations return the exact result or nothing when it does not fit in 64 bits, the saturating ones return the exact result or the nearest end of the range, for every pair of operands. Ordering and equality of these counters are those of the numbers they hold.",
     ["inputs"], "every pair of 64-bit operands, every operation",
     "The tests draw 100 random pairs per operation and check a few fixed boundary values; a wrong boundary between two sampled points goes unseen.",
     [C + "block_number.rs", C + "slot_number.rs", C + "output_index.rs"],
     [("checked_add, checked_next, saturating_*", C + "block_number.rs:38"), ("same for slots", C + "slot_number.rs"), ("same for output indices", C + "output_index.rs:32")])
prop("N02", "Counters read and print as plain decimal numbers",
     "A block number, slot number, output index or timestamp prints as the decimal number it holds, and reading that text, or its serialised form, gives the same counter back. Every decimal text of at most 64 bits is accepted as the number it spells (block and slot numbers also as a quoted JSON string, all as a bare JSON number) and every other text is refused.",
     ["inputs"], "every text of up to 4 characters, every 20 and 21 digit text around the 64-bit limit, and every number near the ends of the range",
     "The tests read one number and one string per type; they do not try the limits, signs, empty text or stray characters.",
     [C + "number_visitor.rs", C + "block_number.rs", C + "slot_number.rs", C + "output_index.rs", C + "timestamp.rs"],
     [("visitor accepting numbers and strings", C + "number_visitor.rs:22"), ("FromStr and Display", C + "block_number.rs:79")])
prop("J01", "Identifiers and transactions are the same after a trip through JSON",
     "A transaction, output, pointer, token amount, conversion rule or identifier written as JSON is read back equal, field by field, whatever characters its texts hold and whether its optional parts are there or not. An identifier is its text: it prints, compares and matches prefixes as the text it was made of.",
     ["inputs"], "every text of up to 2 ASCII characters, presence or absence of every optional part, every kind of metadata",
     "The tests read single handwritten documents; escapes, absent parts and the two directions together are not tried.",
     [C + "tx/transaction.rs", C + "tx/utxo.rs", C + "tx/transaction_asset.rs", C + "tx/transaction_id.rs", C + "block_id.rs", C + "address.rs", C + "token_id.rs", C + "policy_id.rs", C + "asset_name.rs", C + "value.rs"],
     [("Serialize and Deserialize derivations", C + "tx/utxo.rs:12"), ("same", C + "tx/transaction.rs:8"), ("identifier texts", C + "block_id.rs:10")])
prop("V01", "Unit conversions neither create nor lose value",
     "Converting an amount between a chain's small and large unit (lovelace and ADA, wei and ether, microalgo and algo), to and from the normalised form, and between mainchain and sidechain precision under a rule, changes only the unit: the represented amount is exactly the same and converting back gives the original. This holds for amounts of either sign and for every precision the rule states.",
     ["inputs", "configurations"], "every amount below 2^67 units of either sign with more or fewer decimals than the unit, mainchain precision 0 to 18, sidechain precision 0, 6, 12 and 18",
     "The tests convert a dozen fixed amounts at precision 6 and 18.",
     [C + "value.rs"], [("conversion methods and From impls", C + "value.rs:75"), ("decimal scaling", C + "value.rs (scale)")])
prop("V02", "Value arithmetic is exact and consistent with equality, order and hash",
     "Adding, subtracting and summing values, in every by-value, by-reference and in-place form, gives the exact decimal result, multiplication by an integer is exact and dividing an exact multiple gives the quotient. Two values are equal exactly when they represent the same number whatever their number of decimals, their ordering is that of the numbers, and equal values hash alike.",
     ["inputs"], "operands of either sign at different decimal scales",
     "The tests use small positive constants and only some of the operator forms.",
     [C + "value.rs"], [("operator impls", C + "value.rs (Add, Sub, Mul, Div, Sum)"), ("PartialEq, Ord, Hash", C + "value.rs")])
prop("V03", "Amounts are read and printed faithfully",
     "Reading the text of an amount succeeds exactly when it is a non-negative decimal number with no more decimals than the unit has (none for lovelace, wei and microalgo, 6 for ADA and algo, 18 for ether), and the result is the number the text spells. Printing it and reading the print back, or serialising and deserialising it, gives an equal amount.",
     ["inputs"], "decimal texts of up to 2 whole digits and up to one decimal more than the unit allows, with or without a minus sign",
     "The tests read about ten fixed texts.",
     [C + "value.rs"], [("FromStr per unit", C + "value.rs:490"), ("BigDecimalVisitor", C + "number_visitor.rs:50"), ("Display, Serialize", C + "value.rs")])
prop("V04", "Truncation keeps exactly the integer part",
     "Truncating an amount drops its decimals and nothing else: the result is the integer part of the number, towards zero for either sign, and a whole amount truncates to itself.",
     ["inputs"], "values of either sign up to 99999 with up to 3 decimals; whole amounts in wei up to 10^23",
     "The tests truncate a dozen small positive values; the code was in fact wrong for every value of -1 or less until repaired here.",
     [C + "value.rs"], [("truncate", C + "value.rs:162")])
prop("B01", "A transaction balance is the signed net of what was added and subtracted",
     "However a balance is built up by adding and subtracting values and other balances, it reports debt, balanced or excess exactly according to the sign of the exact net amount, and carries exactly its magnitude. Two balances are equal exactly when their net amounts are.",
     ["inputs", "histories"], "every starting balance and every operand below 2^62, every operation form",
     "The tests cover a handful of small constants, in particular few crossings from debt to excess.",
     [C + "balance.rs"], [("Add, Sub and assigning forms", C + "balance.rs:62"), ("PartialEq", C + "balance.rs:52")])
U = [C + "utxo_store.rs"]
UH = "every history of 3 (thorough: 4) insertions and removals over 3 outputs, 2 tokens and the main token, with arbitrary amounts, looked at after every operation"
prop("U01", "The UTxO store's balances are the sums of what it holds",
     "After any sequence of insertions and removals of unspent outputs, the balance the store reports for the main token and for every other token is exactly the sum of the amounts of that token in the outputs it currently holds, in the mutable and in the frozen view. A token held by no output has no balance.",
     ["histories", "inputs"], UH, "The tests run one insertion scenario and one ordering scenario with fixed amounts; equal amounts, re-insertion after removal and removal of the last holder are not combined.",
     U, [("running balance on insertion and removal", C + "utxo_store.rs:67"), ("per-token sets", C + "utxo_store.rs:263")], [("by_policy_id", "per-token set with balance", C + "utxo_store.rs:20")])
prop("U02", "The UTxO store lists every output once, in the order of its amounts",
     "After any sequence of insertions and removals, listing the store or the outputs of one token yields each held output exactly once and no other; the listings ordered by amount are in ascending (reversed: descending) order of the amount of that token. Outputs with equal amounts are all listed.",
     ["histories", "inputs"], UH, "The ordering test uses one set of distinct values, with no removals.",
     U, [("ordered_by_value index", C + "utxo_store.rs:67"), ("finish_remove", C + "utxo_store.rs:121")])
prop("U03", "The UTxO store refuses inconsistent changes and its snapshots never change",
     "Inserting an output whose pointer is already held and removing one that is not held are refused and leave the store as it was; an accepted insertion can be looked up with exactly its amounts until it is removed. A frozen snapshot keeps its contents whatever happens to stores derived from it later.",
     ["histories", "inputs"], UH + "; a snapshot taken after any of the operations", "The tests never take a snapshot and mutate further, and do not follow refusals.",
     U, [("insert, remove", C + "utxo_store.rs:284"), ("thaw, freeze over persistent maps", C + "utxo_store.rs:193")])

FR = "fraos/src/"
prop("F01", "An append-only database returns exactly what was appended, in order",
     "Records read back byte for byte as they were appended and are numbered without gaps from 0 in the order of the appends, whatever their sizes, through batches and single puts, and however often the files have to grow. The number of records, the last record, reading by number and iterating from any number all agree. An empty batch changes nothing and an empty record is refused, leaving everything as it was.",
     ["histories", "inputs"], "every short history of appends of any content, sizes around every boundary at which the storage grows or reorganises itself",
     "The tests append random records of small sizes; the boundaries at which mappings are switched, split and merged (one byte more or less) are hit by none or by chance.",
     [FR + "database.rs", FR + "flatfile.rs", FR + "seqno.rs", FR + "growable_mmap.rs", FR + "index_on_mmaps.rs", FR + "appender.rs"],
     [("append_get_seqno", FR + "database.rs:78"), ("grow_and_apply switches mappings", FR + "growable_mmap.rs:98"), ("address lookup", FR + "index_on_mmaps.rs:140"), ("merging of mappings", FR + "growable_mmap.rs (rearrange_mmaps)")])
prop("F02", "Reopening a database gives the same records",
     "Closing a database and opening it again, opening it after a process that never closed it, and opening it read-only next to its writer give exactly the records acknowledged so far, in order. New records can be appended afterwards with the next numbers.",
     ["histories", "inputs"], "every short history of appends, closes, abandonments and reopenings",
     "The tests reopen only properly closed databases with records of one size.",
     [FR + "database.rs", FR + "seqno.rs", FR + "growable_mmap.rs"],
     [("opening, existing length from the index", FR + "database.rs:57"), ("find_actual_end of an index that was not shrunk", FR + "seqno.rs:150"), ("shrink_to_size on close", FR + "growable_mmap.rs (shrink_to_size)")])
prop("F03", "No acknowledged record is lost or altered by a crash",
     "If the process dies at any moment while appending, the database opens again and every record acknowledged before is there, unaltered and in order. Beyond these there is at most a beginning of the batch being appended, complete record by complete record, and further records can be appended.",
     ["crash-points", "inputs"], "every moment at which a file changes during opening, appending and closing",
     "No test crashes a process; a wrong order of two writes shows only when it dies between them.",
     [FR + "database.rs", FR + "seqno.rs", FR + "growable_mmap.rs"],
     [("data is written before its index entry", FR + "database.rs:97"), ("find_actual_end", FR + "seqno.rs:150")], observe=["a fresh process opening the files"])
prop("F04", "A failing append changes nothing",
     "When the operating system refuses to extend, map or flush a file during an append, the append reports an error and every record acknowledged before stays readable; the failed records are not counted and do not appear, now or after reopening. Later appends work and are numbered as if the failed one had not been tried.",
     ["faults", "histories"], "every system call of up to 3 appends failing",
     "No test injects a failure. The storage used to record the new size before the data was flushed, so a failed append corrupted what followed; repaired here.",
     [FR + "growable_mmap.rs", FR + "appender.rs", FR + "database.rs"],
     [("grow_and_apply", FR + "growable_mmap.rs:98"), ("actual_size is stored last", FR + "appender.rs:75")])
prop("F05", "Copies of a database can be used together from any thread",
     "Copies of a database handle all see the same records, and dropping one does not disturb the others. When several threads append at the same time every batch stays together and gets its own numbers; a thread reading meanwhile sees some beginning of the sequence, with every record complete.",
     ["schedules", "histories"], "every interleaving of two threads within the preemption bound; every short history of copying and dropping",
     "Tests run one writer and one reader on random data under whatever schedule happens, and never drop a copy while others write. Dropping one used to cut the files under the others; repaired here.",
     [FR + "database.rs", FR + "appender.rs", FR + "growable_mmap.rs"],
     [("write_lock", FR + "database.rs:85"), ("actual_size published after the write", FR + "appender.rs:75"), ("Drop", FR + "database.rs (Drop)"), ("storage RwLock", FR + "growable_mmap.rs:40")])
prop("F06", "Any record number is answered",
     "Reading any record number at all, in memory or on file, gives the record of that number or nothing when there is none; it never fails and never gives another record.",
     ["inputs"], "every 64-bit number", "Tests read existing numbers only. Numbers of 2^60 and more used to panic or to return a wrong record; repaired here.",
     [FR + "seqno.rs", FR + "database.rs", FR + "index_on_mmaps.rs"], [("get_offset_and_length", FR + "seqno.rs:86")])

BS = "blockchain-source/src/cardano/"
prop("T01", "Slots translate to times by the era's slot length",
     "The timestamp of a slot is the known time of the era's first slot plus the length of the slots in between, for the Shelley eras of every supported network and for any other era parameters: consecutive slots are exactly one slot length apart.",
     ["inputs", "configurations"], "every slot of the first 2^40 of an era, every supported network, arbitrary era parameters",
     "The tests compare fewer than ten slots of two networks.",
     [BS + "time.rs"], [("compute_timestamp", BS + "time.rs"), ("era constants", BS + "time.rs (Era::SHELLEY_*)")])
prop("T02", "Epoch and slot within the epoch identify the slot",
     "A slot of the era has an epoch and a relative slot within it, below the epoch's length, from which the absolute slot can be recomposed; epochs count from the era's first. A slot before the era has neither. Byron epoch and slot pairs number the Byron slots consecutively, 21600 to an epoch.",
     ["inputs", "configurations"], "every 64-bit slot, every supported network",
     "The tests check a few slots; the first and last slot of an epoch and slots before the era are not covered for each network.",
     [BS + "time.rs"], [("absolute_slot_to_epoch, absolute_slot_to_relative", BS + "time.rs"), ("epoch_slot_to_absolute_byron", BS + "time.rs")])
prop("P01", "Chain points survive the translation to and from the node's",
     "A point naming a block by slot and block id translates to the node protocol's point with the same slot and the hash the id spells, and back to the same point; the origin stays the origin. A point written as JSON is read back as it was. A block id that is not exactly 64 hexadecimal digits is refused rather than cut or padded.",
     ["inputs"], "every slot, block ids around the right length with arbitrary characters",
     "No test converts a point.",
     [BS + "point.rs"], [("TryFrom<Point> for the protocol's Point", BS + "point.rs:10"), ("From<protocol Point>", BS + "point.rs")])
CU = "cardano-utils/src/cip14.rs"
prop("A01", "Asset fingerprints identify exactly the asset",
     "The fingerprint of an asset is the zero-padded hexadecimal 160-bit blake2b hash of the 28 bytes of its policy id followed by the bytes of its asset name, as CIP-14 defines. Ids that are not hexadecimal, or a policy id of another length, are refused.",
     ["inputs"], "policy ids and names around the right lengths with arbitrary characters in them",
     "The tests compare the fixed vectors of CIP-14 and refuse nothing.",
     [CU], [("fingerprint", CU)])

SU = "utxo-selection/src/"
SA = SU + "algorithms/"
SH = "every amount, quantity and fee; every way the tokens are spread over a few inputs and outputs"
prop("S01", "Largest-first selection covers the outputs and the fee whenever the inputs can",
     "When largest-first selection succeeds, the fixed and chosen inputs together cover the outputs and the fee the estimator requires for them, and every token of the outputs. The reported totals are exactly the sums of what they describe, every chosen input is one that was offered and is chosen once, and those not chosen stay available. It fails only when all available inputs together would not suffice, and then leaves them available.",
     ["inputs"], SH, "The tests select from one or two fixed sets of inputs; ties, exact amounts and inputs worth less than their own fee are not tried.",
     [SA + "largest_first.rs", SU + "common.rs", SA + "utils.rs"], [("select_inputs", SA + "largest_first.rs"), ("running totals", SU + "common.rs (InputOutputSetup)")])
prop("S02", "Random-improve selection covers the outputs and the fee, whatever is drawn",
     "Whatever the random draws, a successful random-improve selection covers the outputs, the fee the estimator requires for its inputs, and every token of the outputs. Its totals are exactly the sums of what they describe, every chosen input was offered and is chosen once, and those not chosen stay available. A failed selection leaves the available inputs as they were.",
     ["inputs", "schedules"], SH + "; every sequence of random draws", "The tests run with whatever is drawn and do not check the fee. The algorithm ignored fees and tokens, and dropped inputs chosen for equal outputs, until repaired here.",
     [SA + "random_improve.rs", SU + "common.rs"], [("select_inputs, improvement phase", SA + "random_improve.rs")])
prop("S03", "One selector used again never offers an input twice",
     "After a selection the chosen inputs are no longer available, so a later selection with the same selector never chooses one of them again. Offering a new set of inputs makes exactly these available.",
     ["histories", "inputs"], "two selections in a row, with new inputs offered in between or not, for any amounts and draws", "The tests use every selector once. Newly offered inputs used to be added to stale indices; repaired here.",
     [SA + "largest_first.rs", SA + "random_improve.rs", SA + "thermostat.rs"], [("set_available_inputs, available_inputs", SA + "largest_first.rs"), ("available indices", SA + "random_improve.rs")])
prop("S04", "The thermostat balances what it accepts",
     "When the thermostat algorithm succeeds, the transaction is balanced in the main token and every other token: inputs equal outputs plus change plus fee, and the fee is at least what the estimator requires. No change is negative, all of it goes to the change address, every chosen input was offered and is chosen once, and fixed inputs and outputs are kept. A failed selection leaves the available inputs as they were.",
     ["inputs", "configurations"], SH + "; configurations that split change never, rarely or readily", "The tests run a few scenarios with fixed amounts. Splitting lost tokens, free inputs crashed, and tokens of fixed inputs could crash it, until repaired here.",
     [SA + "thermostat.rs"], [("balance_excess_of_asset", SA + "thermostat.rs:247"), ("split_accumulators", SA + "thermostat.rs:413"), ("remaining_number_inputs_allowed", SA + "thermostat.rs:71")])
prop("S05", "The balance tests of a selection are exact",
     "A setup's totals are the sums of its inputs and outputs. A selection reports its totals as balanced exactly when in the main token and every other token inputs equal outputs plus fee, and its outputs as balanced exactly when, in addition, the same holds for the inputs and outputs it lists.",
     ["inputs"], SH, "The tests check one balanced and one unbalanced example; a token that occurs on one side only is not among them.",
     [SU + "common.rs"], [("is_balanced", SU + "common.rs"), ("are_utxos_balanced", SU + "common.rs"), ("calculate_main_token_balance, calculate_asset_balance", SU + "common.rs")])
prop("X01", "What is left over becomes the fee only when it can",
     "Balancing by fee succeeds exactly when no token is left over and what is left of the main token covers the required fee; the whole remainder is then the fee, nothing else changes and the result is balanced.",
     ["inputs"], SH, "The tests try one accepted and one refused example.",
     [SA + "balance_change_fee.rs"], [("select_inputs", SA + "balance_change_fee.rs")])
prop("X02", "Single-output change is exactly what is left over",
     "Balancing by one change output succeeds exactly when there is a change address, the inputs cover every token of the outputs, and the remainder covers the fee including that of the change. The change then holds exactly the remainder of every token less that fee, goes to the change address, and the result is balanced.",
     ["inputs"], SH, "The tests try one example. A remainder that did not cover the change's own fee was accepted until repaired here.",
     [SA + "balance_change_single_output.rs"], [("select_inputs", SA + "balance_change_single_output.rs")])

MV = "multiverse/src/"
MH = "every short history of insertions, repeated insertions and removals, any block numbers"
prop("M01", "A multiverse holds exactly the blocks inserted and not removed",
     "After any history of insertions, repeated insertions, removals and clearing, the multiverse contains and returns exactly the blocks that were inserted and not removed since, each as it was inserted, and counts them. Its tips are exactly the blocks held that have no child held, whatever references the caller still holds; removing a block that is not there reports that and changes nothing.",
     ["histories", "inputs"], MH + ", with or without references held", "The tests build one fixed tree and remove little from it; tips after removals and reinsertions are hardly tried.",
     [MV + "lib.rs", MV + "entry.rs"], [("insert, remove", MV + "lib.rs"), ("tips and references", MV + "lib.rs, entry.rs")])
prop("M02", "The best block lies the asked depth below the end of a longest chain",
     "Selecting the best block by the longest chain gives the block exactly the asked number of steps above a block of the highest number, and none only if such a chain is not that long. The discarded blocks are exactly those held whose number is further below the selected one's than the age gap; the preferred tip is a block of the highest number.",
     ["histories", "inputs"], MH + ", any depth and age gap", "The tests select from one fixed tree. With an ancestor removed while a reference to it was held the selection panicked or gave the removed block; repaired here.",
     [MV + "lib.rs"], [("select_best_block", MV + "lib.rs"), ("preferred_fork_tip", MV + "lib.rs")])
prop("M03", "Iterating a multiverse gives every block once, by number",
     "Iterating gives every block held exactly once, in the order of the block numbers.",
     ["histories", "inputs"], MH, "The tests iterate over one chain. Of several blocks of the same number only one was given; repaired here.",
     [MV + "visitor/depth_ordered.rs", MV + "lib.rs"], [("iteration", MV + "visitor/depth_ordered.rs")])
prop("M04", "A multiverse reopened holds the blocks it was to store",
     "Opening a stored multiverse again gives the blocks it held whose number is at least the one to store from, with their parents' and children's relations, tips and order, and nothing else; one that was cleared or destroyed reopens empty. Multiverses of other names in the same place are not affected.",
     ["histories", "inputs"], "every short history, any block numbers and any number to store from", "The tests reopen one fixed chain, and do not vary the number to store from.",
     [MV + "lib.rs"], [("open, load", MV + "lib.rs"), ("db_insert, db_remove", MV + "lib.rs")])
KL = "indexed-log-map/src/"
prop("K01", "An indexed log returns the latest value of a key and the whole history",
     "After any history of appends, and of reopening when on file, a key gives the value last appended under it, iterating gives every value in order, iterating from a key gives its latest value and all that follow, and the last value is that of the last append. A log opened without its key index refuses appends and lookups by key and still iterates.",
     ["histories", "inputs"], "every short history of appends under a few keys, with reopening", "The tests append a fixed list once under distinct keys.",
     [KL + "storage.rs"], [("append, get, iter_from", KL + "storage.rs"), ("get_next", KL + "storage.rs")])
prop("K02", "An indexed log can be appended to and read from several threads",
     "When several threads append at the same time, every append is in the log once and each key gives the value that is last in the log of those appended under it. A thread looking a key up during an append finds the value before or after it, which is in the log.",
     ["schedules"], "every interleaving of two threads within the preemption bound, with the same key or different ones", "The test appends distinct keys from several threads and reads the log only at the end. Two appends under one key could leave the key at the older value; repaired here.",
     [KL + "storage.rs", FR + "database.rs"], [("append: log, then key index", KL + "storage.rs (append)")])
BM = "blockchain-source/src/multiverse/"
prop("R01", "Fork handling reports every change of branch as a rollback and a chain",
     "The events of a fork handling source lead from block to block: a block reported is the child of where the events have led, and a rollback goes back to the block where the new branch left the chain reported before. When no event is pending the last block received has been reached. Blocks received again are not reported again, and the source below is asked to go on from every tip known.",
     ["histories", "inputs"], "every order of receiving the blocks of a few branches, every confirmation depth, with restarts", "The test follows one source with three branches of fixed length.",
     [BM + "rollback.rs", BM + "mod.rs", MV + "lib.rs"], [("common ancestor and pending events", BM + "rollback.rs (pull)"), ("multiverse_insert_and_gc", BM + "mod.rs")])
prop("R02", "Confirmed blocks come in order, each once as many blocks follow as asked",
     "A confirming source reports a block as soon as as many blocks follow it on a chain received as the confirmation depth asks, never earlier, and each block reported is the child of the one before, whatever branches are received meanwhile. It reports the same block again to a caller who asks from before it, and goes on in order after a restart.",
     ["histories", "inputs"], "every order of receiving the blocks of a few branches above the confirmed block, every confirmation depth, with restarts", "The tests follow one chain without branches.",
     [BM + "mod.rs", MV + "lib.rs"], [("pull", BM + "mod.rs"), ("multiverse_insert_and_gc", BM + "mod.rs"), ("select_best_block", MV + "lib.rs")])
