import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({"observe_at":observe} if observe else {}))))
B="pkg/btrfs/"; I="pkg/btrfs/index/"
p("C01","On-disk fields decode exactly as the BTRFS format lays them out",
 "For every on-disk structure the library exposes (block header, item, device item/extent, chunk, stripe, inode, inode reference, directory item, block group, file extent, checksum, root item, root reference, extent item), reading a field of a structure long enough to hold it returns the little-endian value stored at the offset and width the BTRFS disk format defines for that field. The published structure lengths, object ids, item types, flag bits and superblock offsets equal those of the format.",
 ["inputs"],"every byte content of every structure, every field",
 "No test reads any field of a byte image it did not write with the same offsets; recover_test touches about ten of ~120 fields with one value each.",
 [B+"btrfs.go",B+"leaf.go",B+"slice.go"],[("field accessors",B+"btrfs.go"),("little-endian slice readers",B+"slice.go")])
p("C02","Stored index keys are invertible and sort like the tuples they encode",
 "The byte key under which an object is stored determines its owner, type, object id, offset and generation uniquely and they are read back unchanged, and byte-wise comparison of two stored keys agrees with lexicographic comparison of (owner, type, object id, offset, generation). Converting a key from the legacy key format preserves all five components.",
 ["inputs"],"all owners, keys and generations over their full 64/8-bit ranges","No test looks at stored keys; the ordering must hold for every pair of tuples.",
 [I+"key_format.go"],[("newIndexKey and keyV2 readers",I+"key_format.go"),("big-endian encoding",I+"key_format.go")])
p("C03","Filesystem key comparison is a total order",
 "Comparing two filesystem keys returns 0 exactly when all components are equal, -1 when the first sorts before and +1 when it sorts after by (type, object id, offset), so the comparison is antisymmetric, transitive and total and agrees with the order in which the index stores keys of one owner.",
 ["inputs"],"all pairs and triples of keys","TestKeyCompare samples three pairs of keys and only looks at signs.",
 [B+"btrfs.go"],[("KeyCompare",B+"btrfs.go")])
p("C04","Enumerating a leaf never crashes and never leaves the block",
 "For every block of at least header size, whatever its bytes, asking for the number of items and then for each item, its key and its data never crashes. Every item returned is the item header stored at its slot inside the block, and its data are exactly the bytes of the block that the item's offset and size designate, cut off at the end of the block.",
 ["inputs"],"every block size and content, in particular damaged item counts, offsets and sizes","The only leaf-like inputs in tests are headers without items; damaged blocks are never parsed.",
 [B+"leaf.go"],[("Leaf.Len, Item, Key, Data, Items",B+"leaf.go"),("clamping of counts and extents",B+"leaf.go")])
p("C05","Names, attribute values and inline data are read within the item",
 "For every directory, xattr, inode-reference, root-reference or inline file extent item whose fixed part is present, whatever length fields it carries, reading its name or data never crashes and yields exactly the declared bytes, limited to 255 bytes for names, to one default-size block for inline data, and to the bytes the item actually has. Reading the payload of a stored item yields the declared number of bytes limited to those stored.",
 ["inputs"],"every item length and every value of the length fields","Tests only build items whose length fields are consistent.",
 [B+"btrfs.go",B+"leaf.go"],[("Name/Data readers",B+"btrfs.go"),("Item.Data",B+"leaf.go")])
p("C06","Point lookup returns the newest version not newer than the view",
 "Looking up an object by owner and key returns the payload stored at the greatest generation not exceeding the generation the index is viewed at; if every stored generation is newer, the oldest one is returned; if the object is not stored under exactly that owner and key, nothing is returned.",
 ["inputs","histories"],"every index content, owner, key and view generation","recover_test stores one generation per object; lookups with several generations or an older view are never exercised.",
 [I+"index_store.go"],[("find, FindItem",I+"index_store.go"),("typed finders",I+"index_store.go")])
p("C07","Iterating a key range visits every key once, in order, at its newest version",
 "Iterating the objects of an owner between a first and a last key (inclusive) yields every stored key in that interval exactly once in ascending order and nothing outside it, each with the payload of the greatest generation not exceeding the view (or the oldest if all are newer), and then ends. This holds whatever mixture of generations the keys were stored at, and so the subvolume, directory, xattr, extent, chunk and device listings are complete.",
 ["inputs","histories"],"every index content, interval and view generation","The single test that iterates uses one entry per range, all of one generation.",
 [I+"index_store.go"],[("Range, Next, HasNext",I+"index_store.go"),("lowerBound, findNext",I+"index_store.go"),("typed ranges",I+"index_store.go")])
p("C08","Dumping the index yields every stored entry exactly once",
 "Walking the whole index yields every stored object version exactly once in key order, never yields the index's own metadata record as an object, and ends; on an index without objects it yields nothing and does not crash.",
 ["inputs"],"every index content","No test dumps an index.",
 [I+"index_store.go","cmd/dump_index.go"],[("FullRange",I+"index_store.go"),("doDumpIndex","cmd/dump_index.go")])
p("C09","Inserting stores exactly the item under its key and touches nothing else",
 "Inserting an item stores its 25-byte item header followed by its data under exactly its owner, key and generation; every other stored entry keeps its value; and a batch limit reached on the way commits without losing the insert or making later inserts fail. After a commit or close the transaction state is such that the next insert opens a new writable transaction.",
 ["inputs","histories"],"every item, data and number of preceding inserts","recover_test inserts six items in one transaction; the batch boundary of 10000 inserts is never reached.",
 [I+"index_store.go"],[("InsertItem, ensureTx, Commit, Close",I+"index_store.go")])
p("C10","Opening an index refuses a mismatch and never alters what it holds",
 "Opening for writing an index recorded with another filesystem id, another block size, a newer format version, or (unless allowed) an older format version fails; opening read-only fails on a missing index or unsupported version; an existing metadata record is never modified by opening; and a fresh index records version, block size, filesystem id and generation so that they read back unchanged. A read-only open never starts a writable transaction.",
 ["inputs","configurations"],"every combination of options and recorded metadata","TestCreation covers one fresh creation and one read-only open.",
 [I+"index_store.go"],[("openIndex, checkUpdateMetadata, newIndexMetadata",I+"index_store.go")])
p("C11","Logical addresses map through the chunk that starts at or before them",
 "Translating a logical address uses the chunk item with the greatest start not above the address and returns its first stripe's device and the stripe offset plus the distance from the chunk start; an address below the first chunk uses the first chunk; chunks without stripes are ignored. The answer is the same on the first and on every later call, and translating with no usable chunk does not crash.",
 ["inputs","histories"],"every chunk set and address, first and later calls","recover_test maps one address equal to the start of the only chunk.",
 [I+"index_store.go"],[("Physical and the cached stripe map",I+"index_store.go")])
p("C12","Path lookup follows names component by component, across subvolumes",
 "Looking up a cleaned path succeeds exactly when each component names an entry of the directory reached so far (with subvolume entries continuing at the root directory of that subvolume) and returns the entry named by the last component; otherwise it returns nothing. The hash-based fast path and the directory scan give entries with the same name.",
 ["inputs"],"every directory tree and path","No test looks up a path.",
 [I+"index_store.go","cmd/ls.go"],[("FindDirItemForPath",I+"index_store.go")])
p("C13","Name hash and search keys are those of the format",
 "The name hash of every name is the CRC-32C of its bytes with initial value 0xFFFFFFFE and no final inversion, as BTRFS uses for directory entries. A lower search key has exactly the given type, object id and offset with the unspecified parts minimal, and an upper search key has them maximal (all ones, except that an unspecified object id becomes the last regular object id, -256).",
 ["inputs"],"all names and all argument tuples","Tests only use the hash for writing keys which the tool under test then never compares.",
 [I+"index_store.go"],[("NameHash",I+"index_store.go"),("KF, KL, keyFirst",I+"index_store.go")])
p("C14","UUID text form round-trips and malformed text is refused",
 "Formatting any UUID gives 36 characters, lowercase hexadecimal with dashes after bytes 4, 6, 8 and 10, and parsing that text gives the UUID back. Parsing any text succeeds exactly when removing all dashes leaves 32 hexadecimal digits, yields those bytes, and on failure leaves the previous value unchanged.",
 ["inputs"],"all 2^128 UUIDs and all strings","Tests sample two UUIDs and seven strings.",
 ["pkg/uuid/uuid.go"],[("String, Set, New","pkg/uuid/uuid.go")])
p("C15","Identify counts leaf blocks per filesystem id and reports them ranked",
 "While sampling, exactly the leaf blocks whose filesystem id is neither all zero nor all ones are counted, each once under its own id. The report contains exactly the ids seen at least the requested number of times, with their exact count and with a block size that is the average first-item offset over the counted leaf blocks with items, taken to the next multiple of 4 KiB above it (4 KiB if none of them has items), ordered by descending count.",
 ["inputs","histories"],"every sequence of blocks and every threshold","TestCollecter feeds one fixed sequence and inspects only the first entry.",
 ["internal/identify/collector.go"],[("CollectBlock, Entries","internal/identify/collector.go")])
p("C16","Sample offsets are distinct, sorted and inside the device",
 "For every device of acceptable size, block size and number of samples not above the number of blocks, the sampling plan returns exactly the requested number of strictly increasing offsets, each with a whole block inside the device, without crashing. When the request allows, the first hundred positions after each superblock copy that fit on the device are included.",
 ["inputs","configurations"],"every device size, block size and sample count","The one test uses one size and one seed and is known to be flaky.",
 ["internal/identify/identify.go"],[("MakeSampleOffsets","internal/identify/identify.go")])
p("C17","Block reads are all-or-error and undersized devices are refused",
 "Reading a block either fills the whole buffer from the given offset and reports success, or reports an error; a reader that delivers the full block together with an end-of-file indication is a success. The device size check reports the exact size and fails exactly when seeking fails, the device is smaller than a block, or smaller than 64 MiB plus 100 blocks.",
 ["inputs","fault_sequences"],"every reader behaviour allowed by the reader interface, every size","The test uses one in-memory reader that never combines data with an error.",
 ["pkg/ioutil/ioutil.go","pkg/btrfs/util.go"],[("ReadBlockAt","pkg/ioutil/ioutil.go"),("CheckDeviceSize","pkg/btrfs/util.go")])
p("C18","Metadata scan records every item of every matching leaf and nothing else",
 "A completed metadata scan has examined every whole block from the one after the first superblock to the end of the device, and for each block that carries the requested filesystem id, is a leaf and has items, every item has been recorded under the block's owner and generation with its header and data. No item of any other block is recorded, and read errors other than end of file or failing inserts stop the scan with an error instead of being ignored.",
 ["inputs","fault_sequences"],"every device content, block size and filesystem id","No test runs a scan.",
 ["cmd/recon.go"],[("doScanFS loop and filters","cmd/recon.go")])
p("C19","A recovered file has exactly the bytes its extents describe",
 "When recovering a regular file reports success, the file at the target has the size recorded in its inode and, at every position below that size, the byte its extents designate: the inline data, the device byte at the mapped physical address, or zero for holes and unmapped positions. If the inode is missing, everything the extents describe is written; any failing device read or file write is reported as a failure of that file.",
 ["inputs","fault_sequences"],"every well-formed list of non-overlapping extents, inode size, device content and I/O failure","recover_test recovers two files with a single small extent each and no failure.",
 ["cmd/recover.go"],[("recoverFile extent loop","cmd/recover.go")])
p("C20","Recovery writes only below the destination directory",
 "Whatever names, types and links the recovered metadata contain, every file, directory or link that recovery creates, truncates, writes or removes has a path that is the destination directory or lies below it through components that are single plain names, and recovery never writes through a symbolic link it restored or found there.",
 ["inputs"],"every directory tree in the metadata, including hostile names and duplicate names","recover_test uses two harmless names.",
 ["cmd/recover.go"],[("name filter in recoverDir","cmd/recover.go"),("target path construction","cmd/recover.go")])
p("C21","Without the clobber option existing files and links are left untouched",
 "If overwriting was not requested, recovering a file or symbolic link whose target path already exists (as anything, including a dangling link) neither modifies nor removes what is there and is not an error.",
 ["inputs","configurations"],"every pre-existing destination state","recover_test always runs with clobber on an empty destination.",
 ["cmd/recover.go"],[("existence checks in recoverFile and recoverSymlink","cmd/recover.go")])
p("C22","Recovery handles every directory entry, and every directory once",
 "Recovering a directory attempts every entry the index lists for it: sub-directories and subvolumes are descended into with the right owner and root, regular files and symbolic links are recovered under their own name, and a failing entry does not keep the remaining ones from being attempted. No directory is processed twice, so recovery ends even if the directories form a cycle, and every subvolume not reached from the main tree is recovered into its own directory.",
 ["inputs","fault_sequences"],"every directory graph, including cyclic ones, and every failing entry","recover_test has one flat directory with two entries.",
 ["cmd/recover.go"],[("recoverDir and the visited set","cmd/recover.go"),("doRecoverFiles subvolume loop","cmd/recover.go")])
p("C23","A recovered symbolic link has exactly the recorded target",
 "When recovering a symbolic link reports success, a link with exactly the target text recorded for it (the inline data or the device bytes its extent designates) exists at the target path; when the target text is missing or cannot be read an error is reported and no link is created.",
 ["inputs","fault_sequences"],"every link extent and read failure","No test recovers a link.",
 ["cmd/recover.go"],[("recoverSymlink","cmd/recover.go")])
p("C24","Reading a file in the mounted view returns the bytes its extents describe",
 "Reading at any offset and length from a file of the mounted view returns, for every position of the request below the end of the last extent, the device byte that the covering extent designates, or zero for holes and positions no extent covers, with a full-length result unless the end of the file's extents is reached; a failing device read is reported as an I/O error. It never crashes and never writes outside the request buffer.",
 ["inputs","fault_sequences"],"every sorted list of non-overlapping extents, every offset, length and device behaviour","The rescue filesystem has no tests at all.",
 ["internal/rescuefs/files.go"],[("extentFile.Read","internal/rescuefs/files.go"),("newExtentFile extent map","internal/rescuefs/files.go")])
p("C25","The mounted view shows the attributes, entries, links and xattrs of the index",
 "In the mounted view a file's attributes equal those of its inode item, a directory's listing has exactly the names of its directory items and looking up a listed name reaches the object (and subvolume root) its entry designates while other names are not found, an extended attribute reads back the recorded value and a link reads back its recorded text.",
 ["inputs"],"every inode, directory, xattr and link item content","The rescue filesystem has no tests at all.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go"],[("GetAttr, Lookup, OpenDir, GetXAttr, ListXAttr, Readlink","internal/rescuefs/nodefs.go")])
p("C26","The examined device and the metadata are only opened for reading",
 "No sub-command opens the examined device or image for writing; listing, dumping, mounting and recovering open the metadata read-only; and the mounted view hands out the metadata file only for reading, whatever flags the opener passes.",
 ["inputs","configurations"],"every sub-command, every option and every set of open flags","Tests cannot observe how a file is opened on paths they do not take.",
 ["cmd/recon.go","cmd/recover.go","cmd/mount.go","cmd/ls.go","internal/identify/identify.go","internal/rescuefs/nodefs.go"],[("os.Open and index.OpenReadOnly call sites","cmd/"),("metadataNode.Open","internal/rescuefs/nodefs.go")])
p("C27","Listing shows every entry with its own type, permissions and order",
 "Listing a directory prints every entry exactly once, non-directories before directories and each group by ascending name, with the type letter of its entry type and the nine permission letters of its mode. A recursive listing descends into every listed directory, enters a subvolume at that subvolume's root directory, and ends on every metadata content, including cyclic directories.",
 ["inputs"],"every directory graph, entry type and mode","ls has no tests at all.",
 ["cmd/ls.go"],[("inodeModeString, dirItemTypeString","cmd/ls.go"),("dirItemSlice order, listDirectory","cmd/ls.go")])
p("C28","Concurrent requests to the mounted view do not interfere",
 "Any number of requests served at the same time by the mounted view return what they would return one after another, without data races or crashes.",
 ["schedules"],"every interleaving of requests","No test mounts or issues concurrent requests.",
 ["internal/rescuefs/nodefs.go",I+"index_store.go"],[("unguarded caches: dirItems, attr, stripeMap","internal/rescuefs/nodefs.go")])
p("C29","A crash during a scan leaves a readable index with whole batches",
 "After a crash or power loss at any point of a metadata scan the index file opens and holds exactly the items of the batches committed before.",
 ["crash_points"],"every crash point","No test crashes a scan.",
 [I+"index_store.go"],[("bbolt transactions, batch commit in InsertItem",I+"index_store.go")])
p("C30","Reported entropy is the Shannon entropy of the bytes",
 "The entropy computed for a byte string equals the Shannon entropy of its byte distribution up to floating-point rounding, is at least 0 and at most 8, and is 0 for constant strings.",
 ["inputs"],"every byte string","The test checks three strings.",
 ["pkg/coding/entropy.go"],[("ShannonEntropy","pkg/coding/entropy.go")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
