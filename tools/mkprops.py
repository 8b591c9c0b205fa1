#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as one reviewable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Importing a stream and reading it back returns the same bytes",
  "For every byte stream, chunking, layout (balanced or trickle), maximum link count of at least 2, leaf format and CID builder, importing the stream succeeds and a reader opened on the stored root delivers exactly the bytes of the stream and then EOF, whatever read sizes the caller uses. The size the reader reports equals the length of the stream.",
  ["inputs", "configurations"], "every byte stream (empty, one byte, chunk- and fanout-boundary lengths, repeated blocks, random), every splitter, layout, maxlinks>=2, raw or protobuf leaves, CIDv0/v1 and hash function",
  "Tests import a few fixed sizes with the default fanout; boundaries between tree levels for other fanouts, ragged chunkings and duplicated chunks are sampled at a handful of points.",
  ["importer/balanced/builder.go", "importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go", "io/dagreader.go", "importer/importer.go"],
  [("balanced.Layout/fillNodeRec", "importer/balanced/builder.go"), ("trickle.Layout/fillTrickleRec", "importer/trickle/trickledag.go"), ("dagReader.CtxReadFull", "io/dagreader.go")],
  ["root node returned by the layouts", "bytes delivered by NewDagReader"])
p("C02", "Size metadata and links of every produced file node are exact",
  "In every file DAG produced by importing or by trickle append onto an imported trickle file, each node's recorded file size equals the number of content bytes below it, the recorded child sizes match the children one to one, and each link's cumulative size equals the total serialized size of the sub-DAG it points to. Every node reachable from the root is in the store under a CID that is the hash of its bytes and that uses the requested CID version and hash function.",
  ["inputs", "configurations"], "every stream, chunking, layout, maxlinks, leaf format and CID builder",
  "Tests compare a few root sizes; a wrong size on an inner node only shows when somebody seeks, appends or sums sizes over a deeper DAG than the tests build.",
  ["importer/helpers/dagbuilder.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go", "unixfs.go"],
  [("FSNodeOverDag.AddChild/Commit", "importer/helpers/dagbuilder.go"), ("FSNode.AddBlockSize", "unixfs.go")],
  ["blocks handed to the DAGService", "root node"])
p("C03", "Importing is deterministic and follows the published layouts exactly",
  "Importing the same chunks with the same parameters always yields the same root CID, and that CID is the one of the specified layout: the balanced layout fills nodes bottom-up left to right with at most the maximum number of links, all leaves at the same depth; the trickle layout fills direct leaves first and then four sub-tries per depth of increasing depth. The stream is encoded with the canonical unixfs and dag-pb encodings, and no node exceeds the maximum link count plus, for trickle nodes, the sub-trie links.",
  ["inputs", "configurations"], "every stream, chunking, maxlinks>=2, leaf format, CID builder",
  "Tests only check depth or a structure verifier written in the same package; interoperability needs bit-exact CIDs for every size and parameter combination.",
  ["importer/balanced/builder.go", "importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go", "unixfs.go", "pb/unixfs.pb.go"],
  [("fillNodeRec", "importer/balanced/builder.go"), ("fillTrickleRec", "importer/trickle/trickledag.go"), ("NewLeafNode", "importer/helpers/dagbuilder.go")],
  ["root CID", "stored blocks"])
p("C04", "A DAG reader behaves as a read-only file cursor",
  "For every well-formed file DAG and every sequence of Read, CtxReadFull, Seek (all whences, also past the end) and WriteTo, the reader returns exactly the bytes that a cursor over the file's content would return, and reports the cursor position and the size correctly. A rejected seek to a negative position leaves the cursor where it was; a destination writer that fails part way leaves the cursor after the bytes it accepted; a metadata wrapper around a protobuf file node reads like the file. Opening a reader on anything that is no file (a directory, a shard, a symlink, an unknown or undecodable node) is refused with an error.",
  ["inputs", "histories"], "every file DAG (balanced, trickle, raw or protobuf leaves, inline data, several levels) and every operation sequence",
  "Tests seek to a few places in one or two small files; interleavings of partial reads, seeks inside and across leaves, and writer failures are not covered.",
  ["io/dagreader.go"], [("dagReader.Seek", "io/dagreader.go"), ("dagReader.CtxReadFull", "io/dagreader.go"), ("dagReader.WriteTo", "io/dagreader.go")],
  ["return values of the DagReader methods"])
p("C05", "A reader under storage faults never returns wrong bytes or a false EOF",
  "When blocks are missing or fetches fail or are cancelled, in any pattern, every byte a reader delivers is still the right byte for its position, EOF is reported only at the true end, and each failing call returns an error and reports how many bytes it did deliver; a call fails only because a fetch did, its own context ended or the reader is closed. Once the faults stop, continuing (or seeking anywhere and reading) on the same reader delivers the rest of the file exactly; after Close, reads that need blocks fail rather than block. A block that is no file block (another type, undecodable) makes each read that reaches it fail after delivering the bytes before it, and is never skipped; an inner node whose child sizes cannot guide a seek never makes a seek land on wrong bytes, and the rest of the file stays readable.",
  ["fault_sequences", "histories", "inputs"], "every pattern of failed, missing and cancelled block fetches at every point of every read/seek/write-to sequence",
  "Tests never fail a fetch during a read and cancel only before the first read.",
  ["io/dagreader.go"], [("dagReader.CtxReadFull error path", "io/dagreader.go"), ("dagReader.Seek/resetPosition", "io/dagreader.go")],
  ["bytes, counts and errors returned"])
p("C06", "Trickle append concatenates",
  "Appending a stream to a trickle file, in any number of steps and chunkings, gives a file whose content is the old content followed by the new, whose sizes and links are exact, and which on a trickle base is exactly the trickle layout of the whole sequence of chunks. Appending also works on the other file nodes it accepts as a base (a single leaf holding its data inline) without losing the existing content, and appending nothing leaves the content unchanged.",
  ["inputs", "histories", "configurations"], "every base length, every split into appended pieces, every chunk size, maxlinks and leaf format",
  "Tests append at a few fixed sizes; partially filled layers at every depth and repeat position are not reached.",
  ["importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go"], [("Append/appendFillLastChild/appendRec", "importer/trickle/trickledag.go")],
  ["root returned by Append", "stored blocks"])
p("C07", "A DagModifier behaves like a random-access file",
  "For every starting file and every sequence of Write, WriteAt, Read, CtxReadFull, Seek, Truncate, Sync, Size and GetNode, a modifier behaves as one byte array with one cursor: writes land at the cursor (or the given offset, which then becomes where the cursor stands after the write), gaps are zero-filled, truncation cuts or zero-extends, seeking beyond the end zero-extends, and reads and Size reflect every earlier write, synced or buffered. Rejected arguments (negative sizes or offsets, unknown whence) return an error and change nothing. HasChanges is true while a write is not yet in the node, and false after Sync or GetNode. What holds no file content is refused; in a file with a malformed or wrongly sized leaf an overwrite or truncation either fails or leaves everything outside that leaf right.",
  ["inputs", "histories", "configurations"], "every starting DAG (empty, single leaf, trickle, balanced, raw leaves) and every operation history",
  "Tests run short fixed scripts, mostly sequential writes followed by one read.",
  ["mod/dagmodifier.go", "importer/trickle/trickledag.go"], [("DagModifier.Write/WriteAt/Seek/Truncate/Sync/HasChanges", "mod/dagmodifier.go"), ("modifyDag", "mod/dagmodifier.go"), ("dagTruncate", "mod/dagmodifier.go")],
  ["return values", "content of GetNode read through a fresh reader"])
p("C08", "Nodes handed in or out are never changed behind the caller's back",
  "Operations on a file modifier, a directory or a shard never change a node object, link object or link list that the caller passed in or was given earlier: such a node keeps its bytes, links and CID, and remains readable, whatever is done afterwards. Conversely, a caller changing such a node (through the node's own methods) or emptying such a link list has no effect on the modifier, directory or shard. (Trickle append, called directly, extends the base node it is given.)",
  ["histories", "inputs"], "every history of modifications after a node was passed in or obtained (NewDagModifier, GetNode, NewDirectoryFromNode, Directory.GetNode, Directory.Links, links given by enumeration, shard Node, SetLink, Find, Swap and Take)",
  "Tests look at the newest result only; aliasing shows on older nodes that a caller kept.",
  ["mod/dagmodifier.go", "io/directory.go", "hamt/hamt.go"], [("from.Copy / GetNode copies", "mod/dagmodifier.go"), ("NewDirectoryFromNode copy", "io/directory.go")],
  ["snapshots of nodes and links kept by the caller"])
p("C09", "A modified file is a complete, consistent, readable DAG",
  "After any sequence of modifications, the node a modifier returns is stored and complete (every block reachable from it is in the store), its size metadata is exact at every level, a fresh reader or modifier on it sees the modelled content, and the leaves made for appended data use the modifier's CID prefix and leaf format (by default those of the file opened: its CID prefix, raw leaves exactly for CID version 1); no node has a CID version or hash function other than those of the file opened and the modifier's prefix.",
  ["histories", "configurations"], "every starting DAG, prefix, leaf format and modification history",
  "Tests read back through the same in-memory objects and never audit inner nodes or the store.",
  ["mod/dagmodifier.go", "importer/trickle/trickledag.go"], [("modifyDag size bookkeeping", "mod/dagmodifier.go"), ("dagTruncate block sizes", "mod/dagmodifier.go"), ("expandSparse", "mod/dagmodifier.go")],
  ["DAG reachable from GetNode"])
p("C10", "A modifier under storage faults reports errors and loses no accepted write",
  "If storing or fetching a block fails during any modifier operation, the operation returns an error instead of silently dropping or corrupting data; afterwards, with the store working again, the modifier can be used further and its content is the content before the failed operation or after it, with all writes that were accepted earlier still present.",
  ["fault_sequences", "histories"], "every storage operation of every modifier operation as the failing one, once or repeatedly",
  "Tests never inject a storage error into a modifier.",
  ["mod/dagmodifier.go"], [("Sync error paths", "mod/dagmodifier.go"), ("Truncate error paths", "mod/dagmodifier.go")],
  ["errors returned", "content after recovery"])
p("C11", "A directory is a map from names to nodes",
  "For every history of AddChild, RemoveChild, Find, Links, ForEachLink, EnumLinksAsync and re-loading from the directory's node, a directory (basic, sharded or switching between the two) holds exactly the entries a map would hold: lookups return the last node added under a name, missing names give the not-exist error on lookup and removal, and every enumeration lists each entry exactly once with its name, CID and size. The CID builder set on a directory of any form is the one its node gets. Directories loaded from shards in which another implementation left sub-shards of a single entry or none are maps too. An operation that would need a sharded directory to hold names it cannot tell apart is refused and changes nothing.",
  ["histories", "inputs", "configurations"], "every operation history over every set of names (including colliding and prefix-like ones), shard width and switching threshold",
  "Tests add sequential names and check a few lookups; replacement, removal, reload and switching are not combined.",
  ["io/directory.go", "hamt/hamt.go"], [("DynamicDirectory.AddChild/RemoveChild", "io/directory.go"), ("Shard.swapValue", "hamt/hamt.go")],
  ["results of every Directory call"])
p("C12", "A directory's node depends only on its entries and the threshold",
  "With a fixed switching threshold, shard width and CID builder, two directories with the same entries have the same root CID whatever operations produced them (including via re-loading): it is the canonical sharded form when the summed name and CID lengths of the entries reach the threshold, and otherwise the canonical basic form. With the threshold disabled, a directory created basic stays basic and one loaded sharded stays sharded.",
  ["histories", "configurations"], "every history, threshold, width and CID builder",
  "Tests cross the threshold once in each direction with mocked sizes; history dependence needs different routes to the same entries.",
  ["io/directory.go", "hamt/hamt.go"], [("needsToSwitchToHAMTDir / needsToSwitchToBasicDir", "io/directory.go"), ("sizeBelowThreshold", "io/directory.go")],
  ["CID of Directory.GetNode"])
p("C13", "A HAMT shard is a map for every width and hash collision pattern",
  "For every allowed width and every history of Set, SetLink, Swap, Remove, Take, Find and re-loading from the stored node, a shard behaves as a map from non-empty names to links, with Swap and Take returning the previous link of that name. When two names cannot be told apart by the hash bits available, the insertion is refused with an error and every existing entry stays intact. This also holds for a shard loaded from nodes in which another implementation left sub-shards of a single entry or none.",
  ["histories", "inputs", "configurations"], "every width 8..1024, every history, names whose hashes share prefixes of every length up to a full 64-bit collision",
  "Random names rarely collide beyond two levels, so deep splitting, collapsing and exhaustion of the hash are never exercised by tests.",
  ["hamt/hamt.go", "hamt/util.go"], [("swapValue", "hamt/hamt.go"), ("hashBits.Next", "hamt/util.go"), ("childer", "hamt/hamt.go")],
  ["results of every Shard call"])
p("C14", "The shard encoding is canonical: same entries, same CID",
  "The node of a shard is the specified HAMT encoding of its entries for its width and CID builder: two shards with the same entries have the same CID whatever insertions, replacements, removals and re-loads produced them, with removed sub-shards collapsed, and it equals the encoding an independent implementation of the format produces. All blocks of the encoding are in the store.",
  ["histories", "configurations", "inputs"], "every history, width, name set (deep collisions included) and CID builder",
  "Tests compare a couple of remove-then-compare runs at one width with random names.",
  ["hamt/hamt.go", "hamt/util.go"], [("Shard.Node", "hamt/hamt.go"), ("collapse in swapValue", "hamt/hamt.go")],
  ["CID of Shard.Node", "stored blocks"])
p("C15", "Enumeration is complete and duplicate-free, or reports an error",
  "Every way of listing a directory (Links, ForEachLink, EnumLinksAsync, and the shard's own enumeration) either yields every entry exactly once or ends with an error, whatever sub-shards are missing, slow or not shards and whenever the context is cancelled (the asynchronous channel may simply close once its own context is cancelled); no entry it yields is wrong. An enumeration always ends, and one abandoned by cancelling its context leaves no goroutine behind.",
  ["fault_sequences", "schedules", "inputs"], "every set of missing blocks, fetch delays and cancellation points, partly loaded or modified shards, concurrent consumers",
  "Tests enumerate complete, healthy stores; lost results depend on the schedule of 32 workers.",
  ["hamt/hamt.go", "io/directory.go"], [("parallelShardWalk", "hamt/hamt.go"), ("EnumLinksAsync", "hamt/hamt.go"), ("ForEachLink/walkTrie", "hamt/hamt.go")],
  ["links and errors delivered", "goroutines alive afterwards"])
p("C16", "Concurrent and abandoned operations are free of races, crashes and deadlocks",
  "Using one store from many goroutines, each with its own reader, importer, modifier or directory, sharing read-only nodes, resolving paths, iterating the same file-tree directory several times at once, or closing a reader while it reads, never causes a data race, a crash or a deadlock, and each goroutine gets the results it would get alone. A directory operation leaves no background work touching the directory once it has returned.",
  ["schedules", "histories"], "every interleaving of operations the API allows concurrently and every schedule of the library's own goroutines",
  "The tests are mostly single-threaded and are not run under the race detector with slow or abandoned fetches.",
  ["hamt/hamt.go", "io/directory.go", "io/dagreader.go", "file/unixfile.go", "mod/dagmodifier.go"], [("parallelShardWalk", "hamt/hamt.go"), ("sizeBelowThreshold", "io/directory.go"), ("ufsDirectory.Entries", "file/unixfile.go")],
  ["race detector reports", "goroutine states", "results"])
p("C17", "A directory operation that fails leaves the directory unchanged",
  "If a storage operation fails, a needed sub-shard turns out not to be a shard, no link can be made to the node to be added, or the context is cancelled during AddChild, RemoveChild or Find on any kind of directory, the call returns an error (never a false not-exist or a silent success), and the directory still holds exactly the entries it held before; when the store works again the same operation succeeds and the directory's node is the canonical one.",
  ["fault_sequences", "histories"], "every storage operation of every directory operation as the failing one, including during a switch between basic and sharded form",
  "Tests do not fail storage operations inside directory updates.",
  ["io/directory.go", "hamt/hamt.go"], [("DynamicDirectory.AddChild/RemoveChild", "io/directory.go"), ("swapValue", "hamt/hamt.go")],
  ["errors", "entries after the failure"])
p("C18", "The unixfs wire codec round-trips and is canonical",
  "Every helper that encodes unixfs data (files, raw data, directories, symlinks, shards, metadata including its size) produces the canonical protobuf encoding and is read back by the matching decoder with every field unchanged; messages with fields in another order, repeated or unknown fields decode to the same values, and malformed messages or ones without a type are rejected with an error. The data size of a message is its file size for files and raw data, the target length for symlinks, and an error for directories, shards and metadata.",
  ["inputs"], "every field combination and value, every byte string",
  "Tests encode a few fixed values.",
  ["unixfs.go", "pb/unixfs.pb.go"], [("FilePBData/WrapData/SymlinkData/HAMTShardData/BytesForMetadata", "unixfs.go"), ("FSNodeFromBytes/MetadataFromBytes/DataSize", "unixfs.go")],
  ["encoded bytes", "decoded fields"])
p("C19", "A file node's size bookkeeping always equals data plus child sizes",
  "After any sequence of setting data and adding, removing and clearing child sizes on a unixfs node, its file size equals the length of its data plus the sum of its child sizes, its number of children and each child size match the operations applied, and encoding and decoding the node preserves all of this. In a node under construction every counted child has its link and every link its count, also after adding a child has failed.",
  ["histories", "inputs"], "every operation sequence with arbitrary sizes",
  "Tests apply a few fixed sequences.",
  ["unixfs.go"], [("FSNode.UpdateFilesize/AddBlockSize/RemoveBlockSize/SetData", "unixfs.go")], ["FSNode accessors", "encoded bytes"])
p("C20", "Hostile or malformed blocks give errors, never panics or hangs",
  "Opening, reading, seeking, listing, looking up, editing, verifying or decoding any DAG built from arbitrary or corrupted blocks (bad protobufs, lying sizes, wrong types, inconsistent bitfields, links or names, extreme fanouts) terminates with a result or an error; it never panics, loops forever or uses memory out of proportion to the tree the blocks describe.",
  ["inputs", "histories"], "every mutation of every kind of block under every read or edit operation",
  "Tests only load well-formed nodes plus one or two hand-made bad ones.",
  ["hamt/hamt.go", "io/dagreader.go", "io/directory.go", "io/resolve.go", "mod/dagmodifier.go", "unixfs.go", "file/unixfile.go", "importer/trickle/trickledag.go"],
  [("NewHamtFromDag", "hamt/hamt.go"), ("childer.makeChilder", "hamt/hamt.go"), ("dagReader.Seek", "io/dagreader.go"), ("modifyDag/dagTruncate", "mod/dagmodifier.go")],
  ["panics", "CPU and memory per operation"])
p("C21", "Import reports every failure of its source or store",
  "If the source reader or splitter fails, a chunk exceeds the block size limit, or the store refuses a block, the import (balanced or trickle) or append returns an error carrying that failure; it never reports success for a truncated or altered stream, and a successful import has stored every block its root reaches.",
  ["fault_sequences", "inputs"], "every position of the first failing read, chunk or store operation",
  "Tests never fail the source or the store part way.",
  ["importer/helpers/dagbuilder.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go"], [("DagBuilderHelper.prepareNext/Next/Done", "importer/helpers/dagbuilder.go"), ("AddChild -> db.Add", "importer/helpers/dagbuilder.go")],
  ["error returned", "order of stored blocks"])
p("C22", "No-copy imports record the exact file range of every leaf",
  "When importing a file (or appending one) with no-copy references and raw leaves, every data leaf handed to the store carries the file's path, its stat and the offset at which exactly the leaf's bytes are found in the file, the leaves cover the file from start to end without gap or overlap, and the resulting root is the same as without no-copy. Nodes whose bytes are not bytes of the file (protobuf leaves, inner nodes) carry no reference. Without a file path the import is refused up front.",
  ["inputs", "configurations"], "every file content, chunking, layout and fanout",
  "Tests do not check recorded offsets.",
  ["importer/helpers/dagbuilder.go"], [("ProcessFileStore", "importer/helpers/dagbuilder.go"), ("DagBuilderParams.New", "importer/helpers/dagbuilder.go")],
  ["nodes handed to DAGService.Add"])
p("C23", "The file-tree view shows exactly the stored tree",
  "Opening a unixfs root as a file tree and walking it yields exactly the stored tree: each directory entry once under its name, files with their bytes and sizes (seekable), directories with the cumulative size of their node, symlinks with their targets, nested and sharded directories alike. If part of the tree cannot be fetched or the context is cancelled, the walk of that directory reports an error rather than a shortened listing.",
  ["inputs", "fault_sequences"], "every tree of files, symlinks, basic and sharded directories, every missing block",
  "There are no tests of the iterator beyond its use elsewhere.",
  ["file/unixfile.go", "io/directory.go"], [("ufsIterator.Next/Entries", "file/unixfile.go"), ("NewUnixfsFile", "file/unixfile.go")],
  ["names, nodes and errors of DirIterator"])
p("C24", "Resolving one path segment agrees with the directory lookup",
  "For every node and path, resolving one hop returns the link of the entry with that exact name and the remaining segments when the directory (basic or sharded) or plain node has it, and an error otherwise; it writes nothing to the store and does not change the node.",
  ["inputs"], "every directory content, representation and path",
  "Tests do not cover the resolver against sharded directories with colliding names or missing blocks.",
  ["io/resolve.go", "hamt/hamt.go"], [("ResolveUnixfsOnce", "io/resolve.go"), ("Shard.Find", "hamt/hamt.go")],
  ["link and remaining path", "store writes"])
p("C25", "The trickle verifier accepts exactly valid trickle layouts",
  "The trickle structure verifier accepts every DAG produced by trickle import or append with matching parameters, and rejects DAGs in which a direct child is not a leaf, a leaf has the wrong type or format, a branch carries data or is not a file, a sub-trie is deeper than its position allows, a CID prefix differs from the required one, or a block is missing.",
  ["inputs", "configurations"], "every valid DAG and every single-node corruption of one",
  "Tests only feed it valid DAGs, so a verifier that accepts everything passes them.",
  ["importer/trickle/trickledag.go"], [("verifyTDagRec", "importer/trickle/trickledag.go")], ["verdict of VerifyTrickleDagStructure"])
p("C26", "Access is local: lookups, seeks and appends touch only the needed blocks",
  "Looking up, adding or removing a name in a sharded directory fetches at most the shards on that name's path (an update which leaves the directory smaller than when it was loaded may also measure it, up to the switching threshold); seeking and reading a range fetches only blocks on the paths to that range plus a bounded look-ahead; reading a file sequentially fetches each link's block at most once; overwriting a range through a modifier fetches only blocks on the paths to that range (and to the end of the file if the write goes beyond it); appending to a trickle file fetches only nodes on its right edge; listing a sharded directory fetches each sub-shard at most once and no entries; and loading a directory, taking its node, or opening a reader or modifier fetches nothing beyond the given node (a metadata wrapper's file excepted).",
  ["inputs", "histories"], "every DAG shape, name and range",
  "Tests do not count fetches except for one enumeration test.",
  ["hamt/hamt.go", "io/dagreader.go", "io/directory.go"], [("getValue / loadChild", "hamt/hamt.go"), ("dagReader.Seek", "io/dagreader.go")],
  ["fetches recorded by the store"])
p("C27", "Every crash point leaves a store on which finished work can be read and resumed",
  "Wherever a history of imports, appends, modifier calls, directory or shard operations is cut off between two store operations, the blocks stored so far are closed under links: no node is ever stored before the nodes it links to (given that entries added to directories were stored before), and nothing that was stored is removed. So every root handed out before the cut (by an import, by GetNode, by a shard's Node) reads completely from the surviving blocks, with the contents it had, and carrying on from the last such root on the surviving blocks succeeds and ends with the contents of the uninterrupted history (for imports and appends, with the same root).",
  ["crash_points", "histories", "inputs"], "every position of a crash in the sequence of store operations of every history",
  "Tests never inspect the order in which blocks are stored, nor stop half way and go on.",
  ["importer/helpers/dagbuilder.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go", "mod/dagmodifier.go", "hamt/hamt.go", "io/directory.go"], [("FSNodeOverDag.AddChild", "importer/helpers/dagbuilder.go"), ("Shard.Node", "hamt/hamt.go"), ("DagModifier.Sync", "mod/dagmodifier.go")],
  ["order of stored blocks", "contents of roots after a crash"])
p("C28", "Data streams through: buffering and look-ahead stay bounded",
  "However long the file or large the directory: an import or append has stored all but the last few chunks it took from the splitter before it takes another, and at any time only about one unfinished node per level waits for its parent, so that its memory does not grow with the file; a modifier never holds more than its 2 MiB write buffer and the last write unstored; a reader has fetched at most a bounded number of blocks beyond what it delivered; a listing with a callback, and a walk of the file-tree view, have fetched no more than the entries delivered so far require plus a bounded look-ahead, and an asynchronous listing nobody takes entries from stops fetching.",
  ["inputs", "histories", "configurations"], "every stream length, chunking, layout, file and directory size, at every step",
  "Tests look at results, not at how much is held or fetched on the way.",
  ["importer/helpers/dagbuilder.go", "mod/dagmodifier.go", "io/dagreader.go", "hamt/hamt.go", "file/unixfile.go"], [("DagBuilderHelper.prepareNext", "importer/helpers/dagbuilder.go"), ("writebufferSize", "mod/dagmodifier.go"), ("prefetchFiles", "file/unixfile.go")],
  ["order of splitter calls and stored nodes", "fetches at each delivery", "heap size"])
p("C29", "Cancelling a context frees whoever waits on the store",
  "Every operation that is given a context (on directories and shards, resolving, appending, reading in full) or acts under the one its object was opened with (readers, modifiers, file-tree views) returns once that context is cancelled, even if the store never answers, provided the store itself heeds the contexts it is given; the fetches it started are given up too, as are a reader's when it is closed and a modifier's look-ahead when it leaves the content it was reading. The operation then reports an error or has the right result; a directory or shard keeps its entries, a read has delivered only right bytes and can go on under another context. A listing of which one fetch failed ends with that failure, whatever becomes of its other fetches.",
  ["fault_sequences", "inputs", "schedules"], "every store operation of every operation as the one that is never answered, alone or with all that follow it, and every moment of cancellation",
  "Tests cancel at most one listing, against stores that answer at once.",
  ["io/dagreader.go", "io/directory.go", "io/resolve.go", "hamt/hamt.go", "mod/dagmodifier.go", "importer/trickle/trickledag.go", "file/unixfile.go"], [("contexts of the fetches", "hamt/hamt.go"), ("dropReader", "mod/dagmodifier.go"), ("dagReader.Close", "io/dagreader.go")],
  ["contexts given to the store", "return of the operation", "goroutines waiting for the store"])
p("C30", "The importer's building blocks hand out each chunk exactly once, in order",
  "A builder helper hands out every chunk of its splitter exactly once and in order, whatever mix of Next, NewLeafDataNode and FillNodeLayer takes them, having read at most one chunk ahead. Done says, any number of times and without consuming anything, whether chunks (or an error not yet reported) are left; a splitter's error is reported by every later call that needs a chunk, never as the end of the data. A leaf holds exactly its chunk, in the requested format, type and CID prefix; a layer is filled, from however many children the node already had, until the node has the maximum number of links or the chunks end, its children stored. So any layout assembled from these blocks reads back as the stream.",
  ["inputs", "histories", "configurations"], "every chunking, helper configuration and sequence of calls, with the splitter failing at any chunk",
  "Tests drive the helper only through the two built-in layouts, which call it in one fixed pattern and never meet a failing splitter.",
  ["importer/helpers/dagbuilder.go"], [("prepareNext", "importer/helpers/dagbuilder.go"), ("FillNodeLayer", "importer/helpers/dagbuilder.go")],
  ["chunk cursor after each call", "leaves and layers built", "errors"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
