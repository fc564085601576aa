"""The properties: text for properties.jsonl and MANIFEST.json."""

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def NA(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                               mech=mech, reason=reason))


P("C01", "Every written model value reads back as the same value",
  "For every type that can both be stored into a cell and loaded from one, loading what was stored yields an equal value, field by field, "
  "and consumes exactly the bits and references that were stored. This holds on every form the encoding can take (each enum variant, each "
  "optional part, each version tag), for every value the type's fields can hold.",
  ["inputs"],
  "every value of every storable and loadable type, every branch of its writer, every branch of its reader",
  "tests store a handful of real blocks, messages and config parameters; most variants, flag combinations and boundary field values are "
  "never stored, and a test that only decodes real data cannot see a writer that drifts from its reader",
  ["src/models", "src/cell/cell_impl.rs", "src/num", "src/dict", "src/boc", "proc/src"],
  [("Store / Load implementations (derived and hand written)", "src/models, src/num, src/dict, src/cell, proc/src/derive_store.rs, proc/src/derive_load.rs")],
  "symbolic layout extraction from MIR (abstract interpretation with path partitioning) and writer/reader alignment",
  "Decides the agreement for every path of every writer and reader over a symbolic value; dictionaries and message bodies are nonterminals. "
  "Trusts rustc's MIR, the model of the bit-level primitives, and the type-domain table in lib/codec.py.")

CODEC_FILES = ["src/models", "src/cell/cell_impl.rs", "src/num", "src/dict", "proc/src"]

P("C02", "Writers emit exactly the layout of the network's format",
  "Everything stored into a cell is laid out bit for bit as the network's TL-B schemas say: constructor tags, flag bits, reserved zero bits, "
  "field order, field widths, and which parts go to references. No writer emits a layout that is not one of the format's, and every layout "
  "the format has for a writable value is still produced.",
  ["inputs"],
  "every storable type, every path of its writer",
  "round-trip tests pass when writer and reader drift together; only a comparison with the format sees it, and tests compare only the few "
  "values of which a real serialization is embedded",
  CODEC_FILES,
  [("Store implementations (derived and hand written)", "src/models, src/num, src/dict, proc/src/derive_store.rs"),
   ("format tables", "TL-B comments on the model types; frozen as /verif/spec/wire.json")],
  "symbolic layout extraction from MIR compared as a language with a frozen layout grammar",
  "All writer paths of all types, with and without the tycho feature. The table was frozen from the reviewed tree, so it cannot show that "
  "the tree itself agrees with the network beyond the review; conditions that select a layout are decided by C01, not here.")

P("C03", "Readers accept exactly the forms of the network's format",
  "Loading a model value from a cell succeeds only on the forms of its TL-B schema: every constructor tag and every reserved bit that the "
  "schema fixes is checked, each bit read ends up in the field it belongs to, and every older form that the network still contains stays readable. "
  "Input with a wrong tag is an error, never another value.",
  ["inputs"],
  "every loadable type, every successful path of its reader",
  "tests read well-formed data; a tag that is no longer compared, or a legacy variant that is no longer understood, passes all of them",
  CODEC_FILES,
  [("Load implementations (derived and hand written)", "src/models, src/num, src/dict, proc/src/derive_load.rs")],
  "symbolic form extraction from MIR compared as a language with a frozen form grammar",
  "All successful reader paths of all types, with and without the tycho feature; loops over a slice are followed for four rounds. Conditions "
  "between several fields are the subject of C07.")

P("C04", "Declared sizes and key lengths are what is written",
  "The exact size a value reports is the number of bits and references it occupies when stored, on every form it can take, so a layout "
  "decision taken from it (inline or in a reference) always fits. A dictionary key always occupies exactly its declared number of bits, and "
  "reading those bits back rebuilds the same key; no key that was stored is refused when it is read.",
  ["inputs"],
  "every type that reports its exact size, every dictionary key type, every path of their writers and readers",
  "a size that is off by one bit only matters for messages that fill a cell exactly; tests contain none (one such defect was found and fixed)",
  ["src/models/message", "src/models/currency.rs", "src/models/account", "src/dict/mod.rs", "src/num/mod.rs", "src/cell/slice.rs"],
  [("ExactSize implementations", "src/models/message/mod.rs, src/models/currency.rs, src/models/account/mod.rs, src/num/mod.rs"),
   ("dictionary key codecs", "src/dict/mod.rs, src/models/message/address.rs, src/models/block/block_extra.rs, src/num/mod.rs")],
  "symbolic size accounting over MIR writer paths; known-bits comparison of key writers and readers",
  "The sum over each writer path is compared as a linear expression with the declared size under that path's conditions.")

P("C05", "Builders append exactly the given bits and references",
  "Appending to a cell builder stores exactly the requested bits (integers most significant bit first, byte strings from their first bit, other "
  "builders and slices bit for bit) right after what was there, at any alignment, keeps everything stored before, counts exactly what was added "
  "and leaves zeros behind the end; references are kept in order. It succeeds whenever the result fits 1023 bits and 4 references, otherwise it "
  "fails and changes nothing. It never touches memory outside its buffers and never panics.",
  ["inputs"],
  "every current length and content of a builder, every value, every append operation with widths from the listed ones, every path",
  "the result depends on the alignment, on the width, and on how close the builder is to its limits; tests cover a few alignments and no limit "
  "(three defects were found and fixed)",
  ["src/cell/builder.rs", "src/util.rs"],
  [("bit appending primitives", "src/cell/builder.rs: CellDataBuilder, store_raw"), ("references", "src/cell/builder.rs, src/util.rs: ArrayVec")],
  "abstract interpretation of MIR: bit provenance x affine offsets (polyhedra), case split on alignment and width",
  "The builder's length and contents, the values and the length of byte strings are symbolic; alignment (8) and width are enumerated "
  "(all widths up to 67, then selected ones up to 1023). num-bigint based writers are outside. Trusts rustc's MIR and the std models.")

P("C06", "Slices read exactly the bits and references of their window",
  "Reading from a slice yields exactly the bits and references at the requested position of the underlying cell, at any alignment; a load moves "
  "the window by exactly what it read, a get or peek leaves it. A read succeeds exactly when it lies inside the window, otherwise it fails and "
  "changes nothing. Splitting and limiting operations yield exactly the named parts. Comparisons, prefix tests, common prefixes and run lengths "
  "agree with a bit-by-bit reading. No read leaves the cell's data, overflows or panics, for any window, offset or length.",
  ["inputs"],
  "every window of every cell, every offset and count argument, every reading operation, every path",
  "results depend on alignment, window, length and even the address of the data; tests sample a few (three defects in the window checks were found and fixed)",
  ["src/cell/slice.rs"],
  [("reading primitives", "src/cell/slice.rs: CellSlice::get_*, load_*"), ("windows", "src/cell/slice.rs: CellSliceRange"),
   ("comparisons and scans", "src/cell/slice.rs: lex_cmp, longest_common_data_prefix, bits_memscan")],
  "abstract interpretation of MIR: bit provenance x affine offsets (polyhedra), case split on alignment and width",
  "Window, data, offsets and counts of range operations are symbolic; alignment and read width are enumerated; comparisons and scans are decided "
  "for slices of selected lengths (up to 73 bits, thorough 200). num-bigint based readers are outside.")

P("C07", "A cell's descriptor, level, hashes and depths follow from its content",
  "A cell that is built has the descriptor bytes, level mask and completion tag that its type, bit length, references and children define. "
  "Finalising parts succeeds exactly when they form a valid cell (known exotic type, exact size and reference count of that type, level mask "
  "equal to the one the content implies, depth at most 65535). Its hash at every level covers exactly the descriptor for that level, the data or the "
  "previous hash, and the children's depths and hashes at the level it refers to; its depth is one more than the greatest. Every representation of "
  "a cell, including pruned branches and virtualised views, answers hash, depth, data and references for any level and index accordingly.",
  ["inputs"],
  "every level mask, both exotic flags, every number of children with arbitrary masks, depths and hashes, every data length, every level argument",
  "levels above one, pruned branches under nested Merkle cells, depths near the limit and malformed exotic cells are combinations of inputs "
  "that tests hardly ever contain, and a wrong hash is only noticed by other implementations",
  ["src/cell/mod.rs", "src/cell/cell_context.rs", "src/cell/cell_impl/mod.rs", "src/cell/cell_impl/sync.rs", "src/cell/cell_impl/rc.rs", "src/cell/builder.rs"],
  [("descriptor and level functions", "src/cell/mod.rs: LevelMask, CellDescriptor, CellType"),
   ("finalisation", "src/cell/builder.rs: CellBuilder::build_ext"), ("hashes and depths", "src/cell/cell_context.rs: CellParts::compute_hashes"),
   ("representations", "src/cell/cell_impl/mod.rs: CellImpl; sync.rs, rc.rs: make_cell")],
  "abstract interpretation of MIR with truth-table comparison of boolean functions and symbolic hash inputs",
  "Children are opaque values with symbolic level masks, depths and hashes; masks, exotic flag and child count are enumerated (80 combinations). "
  "SHA-256 itself is trusted; the memory layout of cells is not part of it. The hashed descriptor of level l carries the mask of level l as in "
  "the code's own definition.")

P("C08", "A bag of cells decodes only if it is well formed, and to what it says",
  "Decoding a byte string as a bag of cells succeeds exactly when it is a well formed bag: a known tag, sizes that fit the data, at least one root, "
  "no absent cells, root and child indices below the number of cells, children after their parents, valid cell descriptors and completion tags, cells that "
  "fill the announced space, and a correct checksum when there is one. The cells it yields have exactly the data, references and stored order of "
  "the bytes, and the roots are the cells of the root list in order. No input makes it read outside the data, overflow, panic, or reserve memory out "
  "of proportion to its length.",
  ["inputs"],
  "every byte string of every length, every flag byte, reference and offset size, every cell descriptor, every root and cell count limit",
  "malformed input has unboundedly many shapes; tests decode some well formed bags and a few truncated ones (two defects were found and fixed)",
  ["src/boc/de.rs", "src/boc/mod.rs", "src/cell/mod.rs"],
  [("header", "src/boc/de.rs: BocHeader::decode"), ("cells", "src/boc/de.rs: read_raw_cell, from_raw_cell, BocHeader::finalize"),
   ("entry points", "src/boc/mod.rs: Boc::decode_ext, Boc::decode_pair_ext; src/boc/de.rs: ProcessedCells::get")],
  "abstract interpretation of MIR with inferred loop invariants: bit provenance x polyhedra over symbolic offsets",
  "Counts, sizes and data are symbolic; the flag byte, offset size, reference size and first cell descriptor are enumerated (all 256). Loops are passed "
  "under invariants that every path preserves. crc32c is a named function of its input; validity of the finalised cell itself is C07.")

P("C09", "Encoding lists every cell once, children after parents, with true sizes",
  "Encoding a set of roots produces a well formed bag of cells: tag, flags, counts, total size of the cells, root indices, then each distinct cell "
  "exactly once, every parent before its children, with its descriptor, its stored hashes and depths (unless they are left out), its data and the indices "
  "of its children, then the checksum when it is asked for. The sizes that it announces are those of what it writes, the statistics say the same, and writing "
  "in chunks or in parallel gives the same bytes. A header that is cleared or reused starts empty.",
  ["inputs"],
  "every set of cells, counts and sizes, every reference and offset size, every setting, every path of collecting and writing",
  "sizes change the width of every index, chunked and parallel writing start at thousands of cells, and deep trees use another collector; tests "
  "encode small bags with one setting (one defect was found and fixed)",
  ["src/boc/ser.rs", "src/boc/mod.rs"],
  [("writing", "src/boc/ser.rs: BocHeader::encode, encode_to_writer, encode_rayon, compute_stats"),
   ("collecting", "src/boc/ser.rs: BocHeader::fill, fill_recursive, fill_deep, add_root, clear")],
  "abstract interpretation of MIR with inferred loop invariants: position-wise comparison of the output with the format",
  "Numbers of cells, roots, references and bytes are symbolic; reference and offset size and settings are enumerated, as are cell descriptors. The hash map is "
  "a set of hashes. Checksum is a named function. Equal roots make more roots than cells: recorded as a known finding.")

P("C10", "Shard identifiers form a tree of prefixes",
  "A shard identifier is a workchain and a prefix of at most 60 bits, the masterchain having only the empty one; no other value can be created from parts, and "
  "reading one refuses longer prefixes and yields the prefix that was written. Splitting gives the two identifiers with one bit more, left with zero and right with one, "
  "and is refused exactly at 60 bits; merging gives the identifier with one bit less; the opposite flips the last bit; all keep the workchain. One identifier is an ancestor of "
  "another iff it has the same workchain and its prefix begins the other's, its parent iff in addition it is one bit shorter; two intersect iff one is an ancestor of the other. An "
  "account belongs to a shard iff its address begins with the prefix. Block numbers next to a block saturate at the ends and keep the shard.",
  ["inputs"],
  "every workchain, every prefix of every length, every pair of identifiers, every account, every tag position for construction and reading",
  "2^64 prefixes in each of 61 lengths; tests try a few children of the full shard (a defect was found and fixed: is_ancestor_of compared only some of the bits)",
  ["src/models/block/block_id.rs"],
  [("identifiers", "src/models/block/block_id.rs: ShardIdent"), ("block numbers", "src/models/block/block_id.rs: BlockIdShort")],
  "abstract interpretation of MIR over vectors of unknown bits, case split on the tag positions and the first difference",
  "The cases cover every pair of identifiers in the thorough run; quick takes a part of the pairs of lengths and of the positions of the first difference. "
  "Text forms are not part of it.")

P("C11", "Bounded integers never leave their range or give a wrong result",
  "For the integer types of the format (Uint9, Uint12, Uint15, VarUint24, VarUint56, Tokens, VarUint248, SplitDepth): checked and saturating operations and in-place try operations give "
  "the exact sum, difference, product or quotient when it is in the range of the type, and none, the bound or an unchanged operand with an error when it is not; they never panic. "
  "The plain operators give the exact result wherever it fits the word. Shifts move every bit. Comparisons of VarUint248 are those of the numbers. The declared "
  "constants are the bounds; the length in bits and bytes is that of the shortest form, storing writes the shortest form and refuses values outside the range, loading refuses "
  "nothing that was stored and yields the same number.",
  ["inputs"],
  "every pair of operands (unknown words), every shift amount, every position of the highest bit for encodings, every length prefix for reading",
  "the interesting operands lie next to 2^24, 2^56, 2^120, 2^128 and 2^248; tests use small numbers (four defects were found)",
  ["src/num/mod.rs", "src/num/varuint248.rs"],
  [("operations", "src/num/mod.rs: impl_var_uints!, impl_small_uints!"), ("large integers", "src/num/varuint248.rs: VarUint248"), ("depth of a split", "src/num/mod.rs: SplitDepth")],
  "abstract interpretation of MIR over affine forms and vectors of unknown bits, case by case against the mathematical result",
  "Products of two unknown words are variables, compared by name. Division of VarUint248 only where both high words are zero (long division is iterative). Text forms are not part "
  "of it. checked_mul and saturating_mul of VarUint248 above the range are recorded as known findings because a test pins the result.")

P("C12", "Labels of dictionary edges are written shortest and read back exactly",
  "For a remaining key of m bits and a label of l bits, the writer emits the shortest of the three forms of the format that the contents allow, with the prescribed "
  "choice when lengths are equal, the length field as wide as m needs, and exactly the bits of the label; both ways of building (from one slice, from a bit and a slice) agree with "
  "that and refuse a label that does not fit the cell. Every reader of labels accepts each of the three forms, for every m, takes exactly the label's length and bits from it and leaves the slice right "
  "behind it; a truncated label is an error; the readers agree with each other. The longest common prefix of key and label has the length of the first difference.",
  ["inputs"],
  "every remaining key length 0..=1023, every label length, every content, every form, every position of the first difference",
  "the width of the length field and the form change at powers of two and small lengths; a label in another form changes the hash of the whole dictionary although it still reads back",
  ["src/dict/mod.rs", "src/dict/raw.rs"],
  [("labels", "src/dict/mod.rs: write_label, write_label_parts, read_label, write_hml_*"), ("comparison", "src/cell/slice.rs: longest_common_data_prefix")],
  "abstract interpretation of MIR: labels as vectors of unknown bits over symbolic lengths, against the three forms",
  "Key lengths are split into classes by the width of the length field and label lengths into ranges, both symbolic inside a class. Readers that accept a label longer than the "
  "remaining key are left as they are (the callers refuse it, C13).")

P("C13", "Dictionary operations change exactly the entry under the key",
  "Looking up a key in a dictionary returns the value that stands behind the edges that spell it, or nothing. Inserting with set, replace or add puts the value there when its mode allows it, and "
  "returns whether it did; the new tree spells all other keys and values as before, its edges carry the longest possible labels and every fork has two branches. Removing returns the "
  "value, joins the remaining branch with the fork above, and changes nothing if the key is absent. A key of another length than the dictionary's is refused. A malformed "
  "or unloadable node on the path is an error that is passed on, and the root is unchanged then. Each cell on the path is loaded exactly once, in the caller's context. The methods of RawDict and "
  "Dict hand on their own root, key length and context, the key they were given and the mode they are named for, and keep the new root.",
  ["inputs", "histories"],
  "every key length, every label and key content, every position where key and label part, at every node of the path up to three levels; every failing step",
  "where key and label part decides which of six shapes a tree gets; tests insert some hundred keys of fixed length and look the values up; a non canonical tree "
  "answers lookups correctly",
  ["src/dict/mod.rs", "src/dict/ops", "src/dict/raw.rs", "src/dict/typed.rs"],
  [("operations", "src/dict/ops: dict_get, dict_get_owned, dict_insert, dict_insert_owned, dict_remove_owned"),
   ("wrappers", "src/dict/raw.rs: RawDict; src/dict/typed.rs: Dict")],
  "abstract interpretation of MIR over symbolic trees: rebuilt cells compared piece by piece with the canonical tree",
  "Trees are unfolded lazily along the path, to three levels (loops over levels repeat the same state). Labels read and written are C12's. A remaining label is at least "
  "two bits in its cell. dict_get_subdict is not part of it.")

P("C14", "Ordered queries and iteration follow the order of keys",
  "The least and greatest key, the next key above or below a given one (or equal to it where asked for), with unsigned or signed order of the first bit, are the ones that an ordered list of the "
  "keys would give; removing the least or greatest entry removes that entry. Iteration, forwards or backwards, signed or not, over keys, values, entries, borrowed or owned, yields every entry once, in "
  "that order, with its whole key and its value, then ends; after an error it ends as well. The methods of RawDict and Dict ask for the bound, direction, order and context they are named for.",
  ["inputs", "histories"],
  "every key length, every label content, each position where key and label part, each direction, bound and signedness, each node up to three levels",
  "neighbours depend on where key and label part and on which side; iteration keeps a stack over forks; signed order concerns one bit only (two defects were found and fixed)",
  ["src/dict/mod.rs", "src/dict/raw.rs"],
  [("queries", "src/dict/ops/find.rs, remove.rs: dict_find_bound, dict_find_bound_owned, dict_find_owned, dict_remove_bound_owned"),
   ("iteration", "src/dict/raw.rs: RawIter, RawOwnedIter, RawKeys, RawValues, RawOwnedValues")],
  "abstract interpretation of MIR over symbolic trees; iterators stepped from every reachable stack",
  "Trees are unfolded lazily to three levels. The iterator over two dictionaries is C16's.")

P("C15", "Augmented dictionaries: every node carries the extra of all it covers",
  "After inserting into an augmented dictionary or removing from it, each leaf on the path holds its extra before its value, each fork holds the combination of the extras of its left and its "
  "right branch, in that order, and the dictionary's root extra is the one of the root node (the default if it is empty); extras off the path are unchanged. The combination is the sum, maximum or union that "
  "the type stands for: a sum that overflows is an error. Reading a dictionary gives back the root extra that stands before its root. Searching by extra descends into the branch that the predicate chooses. "
  "Iteration yields key, extra and value of each entry.",
  ["inputs", "histories"],
  "every key length, every label, every position where key and label part, every pair of extras, every failing step, nodes up to three levels",
  "the extra of a fork is recomputed in some places and copied in others; lookups never read it, so a stale or swapped one shows only in block validation",
  ["src/dict/aug.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/find.rs", "src/models/currency.rs", "src/models/block/block_extra.rs", "src/models/shard/shard_accounts.rs", "src/models/shard/shard_extra.rs", "src/models/message/in_message.rs"],
  [("operations", "aug_dict_insert, aug_dict_remove_owned, aug_dict_find_by_extra"),
   ("dictionary", "src/dict/aug.rs: AugDict"), ("extras", "comp_add of CurrencyCollection, DepthBalanceInfo, ShardFeeCreated, KeyMaxLt, ImportFees")],
  "abstract interpretation of MIR over symbolic trees whose nodes have extras of unknown length; combinations as uninterpreted terms",
  "Trees are unfolded lazily to three levels. comp_add of an unknown type is a function that may fail. When reading the new root's extra fails, the root has already been replaced: what the dictionary holds after "
  "that error is not specified.")

P("C16", "Splitting, merging and uniting dictionaries keeps every entry once",
  "Splitting a dictionary by a prefix or by its first bit gives the dictionaries of exactly the entries on either side, with canonical labels, or an error for a prefix that no key has. Merging two "
  "dictionaries that share no key gives the canonical dictionary of all their entries, and fails, with the left one unchanged, when a key is in both or an entry cannot be read. Merging "
  "sibling branches gives their parent. Iterating over two dictionaries yields each key of either once, in the order asked for, with the value or values it has, passes errors on and ends after one.",
  ["inputs", "histories"],
  "every key length, every pair of labels and the position where they part, every failing step, every state of the two iterators",
  "two trees meet in nine relations of their labels; the same bits below different prefixes; an error of the inner iterator at any entry (two defects were found and fixed)",
  ["src/dict/mod.rs", "src/dict/raw.rs", "src/dict/typed.rs", "src/dict/ops"],
  [("operations", "dict_split_by_prefix, dict_split_raw, dict_merge, dict_merge_siblings"),
   ("iterators", "UnionRawIter, UnionIter"), ("fronts", "RawDict, Dict: split, merge, iter_union")],
  "abstract interpretation of MIR over pairs of symbolic trees; inner iterators as contracts of C14",
  "Trees are unfolded lazily to two or three levels. A prefix that is the whole key, or that no key has, is an error by the code's own convention.")

P("C17", "Adding, subtracting and clamping amounts is right for every currency",
  "Adding or subtracting two collections of currencies (native tokens and the dictionary of extra currencies), in place or not, gives for each currency the sum or the difference of the two amounts, and a currency "
  "whose amount becomes zero has no entry; a result that does not fit, or would be negative, is an overflow or underflow error, as is asked for; clamping gives the lesser amount of each. Errors of the dictionaries are passed on. The "
  "operands are unchanged, and an operation in place that fails leaves its collection as it was. A collection is zero iff it has no tokens and no entries.",
  ["inputs", "histories"],
  "every pair of amounts and every pattern of presence of a currency in the two collections (up to three iterated entries), every failing step",
  "presence on one side, on both or on neither, zero results and failing dictionaries multiply; balances are lost or made without any other symptom",
  ["src/models/currency.rs"],
  [("extra currencies", "src/models/currency.rs: ExtraCurrencyCollection checked_add, checked_sub, checked_clamp, try_add_assign, try_sub_assign"),
   ("collections", "CurrencyCollection: the same operations with native tokens, is_zero")],
  "abstract interpretation of MIR with dictionaries as operation logs and amounts as terms",
  "Dictionaries are contracts (C13, C14), amounts too (C11). Loops over entries are followed for three rounds. Building a collection from an iterator or a map is not part of it.")

P("C18", "A Merkle proof or update stands for the cells it was made from",
  "A Merkle proof contains every cell that the filter includes, whole subtrees where it says so, and a pruned branch in place of each other cell with references (and of large ones if asked for), with the level of the "
  "number of Merkle cells above it, and it is labelled with the root's hash and depth; all pruned cells are reported when tracked; the parallel builder gives the same. A pruned branch has the type, level mask, hashes and depths of "
  "its cell below its level. Reading a Merkle cell requires type, size and the hashes and depths of the cells inside. An update keeps of the old tree the cells above those that the new one refers to; applying it to the cell with "
  "the old hash replaces each pruned branch of its own level by the old cell, and gives a cell with the new hash or an error. Removed cells are counted once per lost reference.",
  ["inputs", "histories", "schedules"],
  "every tree of up to five cells, depth three, two references each, with every pattern of sharing, Merkle cells, pruned branches, filter answers and failing steps; tasks of the parallel builders run at once or at the end",
  "sharing across levels, nested Merkle cells, filters that include subtrees and the parallel builder multiply; a wrong pruned branch still has a hash (four defects were found and fixed)",
  ["src/merkle"],
  [("proofs", "src/merkle/proof.rs: BuilderImpl::build, ParBuilderImpl::build, MerkleProofBuilder, MerkleProofExtBuilder, create_for_cell, load_from_cell"),
   ("pruned branches", "src/merkle/pruned_branch.rs: make_pruned_branch"),
   ("updates", "src/merkle/update.rs: apply_ext, find_old_cells, compute_removed_cells, MerkleUpdateBuilder, Resolver"), ("filters", "src/merkle/mod.rs: MerkleFilter")],
  "abstract interpretation of MIR over lazily unfolded trees of cells with sharing; built cells compared with the specified tree",
  "Trees are bounded to five cells (six in the thorough tier for some parts); representation hashes are injective names of cells. Real thread interleavings inside a task are not explored: tasks share only concurrent maps. "
  "More than 255 nested Merkle cells are not considered.")

P("C19", "An ABI value is read back as it was written, for every type and version",
  "Every ABI value is written as the layout of its type: integers of their width, variable integers with their length, bytes as a chain of cells, arrays and maps as dictionaries with their values in place or in a cell "
  "of their own, and so on for tuples, optional values, references and headers. The reader reads the same pieces in the same order, makes the value of them, goes on to the next cell only from an exhausted one, refuses bytes, strings and arrays of "
  "another length, and an unread rest unless that is asked for. A value that its type cannot hold is an error. The space reserved for values, demanded while writing and allowed by the type agree with each other and with "
  "what is written, so that values are packed into cells as their ABI version says; errors of nested parts are passed on.",
  ["inputs"],
  "every kind of value, every width of integers, ABI versions 1.0 to 3.0, every fill of the open cell, up to three fields or entries, bytes of up to 520",
  "reservation, demand and writing are three separate formulas that meet only in the packing of cells, which a test sees for one type at a time (three defects were found and fixed)",
  ["src/abi/value", "src/abi/ty.rs"],
  [("writer", "src/abi/value/ser.rs: AbiSerializer, AbiValue::compute_*; AbiValue and NamedAbiValue make_builder, make_cell, tuple_to_*"),
   ("reader", "src/abi/value/de.rs: AbiValue::load*, NamedAbiValue::load*, PlainAbiValue::load, AbiHeader::load, skip"), ("sizes", "src/abi/ty.rs: AbiType::max_size")],
  "abstract interpretation of MIR to logs of pieces with linear widths, compared with the layout of each kind",
  "Nested values by induction over their size; the bytes of big integers are num-bigint's; dictionaries and addresses are contracts. Loops over fields and entries are followed for three rounds. "
  "Zero width integers, which no ABI has, are read in the middle of tuples only.")
P("C20", "ABI message bodies are read as they are written, and signed as they are checked",
  "The body of a message is, for every ABI version, the place of the signature, the headers the function declares in their order, the id and the arguments (ABI 1: the id before the headers), and is read in this order, as "
  "input, output or event; another id is an error, an unread rest is one unless allowed, and so is any error of a part. The types of the arguments are checked before anything is written, space is reserved "
  "for all that is written, and that left for the signature is the space the signature then takes. What is signed is the hash of the payload, from ABI 2.3 on together with the address, which is then required; "
  "with a signature id its bytes come first. A signature goes where the reader skips it, the payload follows, and every way to sign gives the body the signature it was asked for. "
  "Ids of functions and events are the given ones or computed of the whole signature, with the top bit clear for inputs and set for outputs.",
  ["inputs"],
  "every ABI version from 1.0 to 3.0, up to three arguments, headers in several orders and numbers, with and without public key, time, expiration, address, signature and signature id",
  "writer, signer and reader are separate functions that agree only through the layout; tests pin a few calls of ABI 2 (three defects of ABI 1 were found and fixed)",
  ["src/abi/contract.rs", "src/abi/signature.rs"],
  [("bodies written", "src/abi/contract.rs: Function::encode_*, EventBuilder, ExternalInput::build_*"), ("bodies read", "src/abi/contract.rs: Function::decode_*, Event::decode_*"),
   ("signing", "src/abi/contract.rs: UnsignedBody, UnsignedExternalMessage; src/abi/signature.rs")],
  "abstract interpretation of MIR to logs of what is reserved, written, read and signed, compared with the layout of each ABI version",
  "Values and headers by C19, cells and builders by C05 and C06; SHA-256, ed25519 and the clock are opaque. The text an id is the hash of is not decided.")
P("C21", "Sizes of cell trees are of distinct cells, and fees follow the formulas",
  "The size of a cell tree counts every distinct cell below the root, and the root if it is a cell, once, with its bits; a slice counts with its own bits only and not as a cell; trees added one after another share their cells. The count fails "
  "iff more distinct cells than the limit are there. Storage, gas and forwarding fees and the parts of them are the products of sizes, times and prices divided by 65536 and rounded up (parts: down), above the flat part, with the "
  "prices of the masterchain or the others, and stop at the bounds of 128 bits instead of wrapping. Sums and differences of sizes stop at their bounds. The storage of an account is "
  "the size of its logical time, balance and state, and an error if it does not fit 56 bits or the limit.",
  ["inputs"],
  "every tree of up to five cells with every pattern of sharing, any limit, every pair of trees and slices; every size, time and price",
  "sharing across trees, limits that are reached in the middle and prices near the bounds are not in the tests (two defects were found and fixed)",
  ["src/cell/mod.rs", "src/cell/slice.rs", "src/models/config/params.rs", "src/models/account/mod.rs"],
  [("sizes", "src/cell/mod.rs: StorageStat, CellTreeStats, Size; src/cell/slice.rs: CellSlice::compute_unique_stats"),
   ("fees", "src/models/config/params.rs: StoragePrices::compute_storage_fee, GasLimitsPrices::compute_gas_fee, MsgForwardPrices"),
   ("accounts", "src/models/account/mod.rs: StorageUsed::compute")],
  "abstract interpretation of MIR over lazily unfolded trees with sharing; fees as terms over uninterpreted products",
  "Cells with the same representation hash are the same cell. Trees are bounded to five cells (six in the thorough tier), which reaches every branch of the traversal. Which sizes and times a fee is asked for is not part of it.")
P("C22", "Each configuration parameter is read and written under its number and type",
  "Every parameter of the configuration has the number and the type that the specification of the chain gives it, dictionaries that must not be empty are their root in place. Each accessor reads the parameter it is named for, that of "
  "the masterchain or of the other workchains as asked for, temporary validator sets before the others, the minter and the fee collector with their fallbacks; a missing parameter is an error or None as documented, and an "
  "unreadable one is an error and never a missing one. Each setter writes what the accessor reads, whole lists under their keys, and changes nothing if it fails; an empty dictionary is refused where none is allowed. "
  "Parameter 0 cannot be removed. The configuration is written as a reference to its dictionary and read back so.",
  ["inputs"],
  "every accessor and every parameter type, in the TON and Tycho variants, every pattern of parameters that are there, every failing step, lists of up to three elements",
  "forty parameters share two generic functions; a wrong number reads another parameter of the same type without any error, and tests have one configuration",
  ["src/models/config/mod.rs"],
  [("accessors", "src/models/config/mod.rs: BlockchainConfigParams get_*, set_*, contains_*, get, set, contains, get_raw*, set_raw, remove"),
   ("table", "define_config_params!, KnownConfigParam, ParamIdentity, NonEmptyDict"), ("whole", "Store and Load of BlockchainConfigParams, BlockchainConfig::new_empty")],
  "abstract interpretation of MIR with the configuration as a partial map; the trait table of numbers and types against block.tlb",
  "The serialization of each type is C02's, dictionaries are contracts (C13, C14). The JSON form of a configuration is not part of it.")
P("C23", "What an input declares never sizes an allocation on its own",
  "No allocation of the crate takes its size from a number of more than 16 bits that was read from cells, from bytes or from a parsed text, unless it is limited by a minimum with, or a comparison with, something that is bounded: a constant, "
  "a number of at most 16 bits, or the length of something that is in memory already. This holds through functions, structures and closures that the number passes on its way. So memory is taken in proportion to what "
  "an input holds and not to what it announces, and a few bytes cannot make the process run out of memory or fail with a capacity overflow.",
  ["inputs"],
  "every call of the crate that allocates for a run-time number of elements, every way in which that number is computed, every caller",
  "tests have inputs whose declared length is right; a length of 2^32-1 in front of an empty array aborted the process (found and fixed)",
  ["src/abi/value/de.rs", "src/models/config/params.rs", "src/merkle/proof.rs", "src/models/message/address.rs"],
  [("lengths", "src/abi/value/de.rs: load_array_raw, load_varuint; src/models/config/params.rs: ValidatorSet"), ("proofs", "src/merkle/proof.rs"), ("messages", "src/models/message: address.rs, mod.rs")],
  "backward slice over MIR from every allocation size, interprocedural, field-based, with dominating comparisons",
  "The counts in the header of a bag of cells are decided with C08's interpretation. Sizes that a caller of a public function passes are the caller's. The array of an AbiType's own length that make_default_value returns is excepted; so is growth by one element at a time.")
