#!/usr/bin/env python3
# Source of properties.jsonl: python3 tools/mkprops.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The source device or image is never modified",
 "No command ever writes to, truncates, replaces, renames or removes the source device or image it was given, nor opens it for writing. "
 "This holds whatever the filesystem on it claims (including recovered names that coincide with the image itself when it lies inside the destination directory, with or without --clobber), whatever I/O errors occur, and wherever the process is interrupted.",
 ["inputs","configurations","fault_sequences","crash_points"],
 "all images, command lines (identify, recon, recover, mount), destination layouts, injected I/O errors and interruption points",
 "The tests run recover once on one fixed image in a separate directory and never look at the image afterwards.",
 ["cmd/recon.go","cmd/recover.go","cmd/mount.go","cmd/identify.go","internal/identify/identify.go","internal/rescuefs/files.go"],
 [("source opened read-only","os.Open in doScanFS, doRecoverFiles, doMountRescueFS, IdentifyFS"),("recovered targets never alias the source","recoverFile in cmd/recover.go")],
 observe=["every open/write/truncate/rename/unlink system call against the image path or inode","image bytes after every run"])

p("C02","recon gathers exactly the chosen filesystem's leaf items",
 "When recon exits successfully on a readable image, the metadata file holds, for the filesystem id it was given, exactly one record for every item of every metadata leaf of that filesystem stored at a block-aligned offset behind the first superblock, with that item's owner, key, generation, header and data unchanged. "
 "It holds nothing taken from interior nodes, from leaves of other filesystems, from superblock copies or from data blocks.",
 ["inputs","configurations"],
 "all images of any supported size with any leaf placement, node size 4 KiB to 64 KiB, number of items, mix of filesystem ids, and enough items to need several index transactions",
 "No test runs recon at all.",
 ["cmd/recon.go","pkg/btrfs/leaf.go","pkg/btrfs/index/index_store.go","pkg/btrfs/index/key_format.go","pkg/ioutil/ioutil.go","pkg/btrfs/util.go"],
 [("block scan and leaf filter","doScanFS in cmd/recon.go"),("leaf parsing","Leaf in pkg/btrfs/leaf.go"),("insertion and auto-commit","Index.InsertItem")],
 [("index bucket","one record per (owner,type,objectid,offset,generation)","pkg/btrfs/index/index_store.go")],
 ["records of the committed metadata file","exit status"])

p("C03","Corrupted blocks never crash recon or cost intact leaves",
 "Whatever bytes a damaged block of the image contains (torn, bit-flipped or zeroed metadata leaves, wrong item counts, item offsets or sizes), recon on a readable image never panics, hangs or exits with an error, and keeps its memory use within bounds. "
 "Every item of every intact leaf of the filesystem is still gathered unchanged, and no record carries data bytes from outside the block it was found in.",
 ["inputs","fault_sequences"],
 "all images with any number of corrupted blocks at any position",
 "No test feeds a corrupt leaf to the parser or to recon.",
 ["pkg/btrfs/leaf.go","cmd/recon.go"],
 [("item count and data bounds checks","Leaf.Len, Leaf.Data in pkg/btrfs/leaf.go"),("leaf filter","doScanFS")],
 observe=["exit status and panics","records of the metadata file for intact leaves"])

p("C04","An interrupted recon never corrupts or loses gathered metadata",
 "If recon is killed, loses power or fails at any point, the metadata file afterwards is either still usable and contains only genuine items of the filesystem, including every item a previously completed recon had gathered, or, if no recon had completed on it before, may be rejected with an error. "
 "Once recon has exited successfully its whole result survives a power loss. "
 "Running recon again after the interruption (with a new metadata file if it was rejected) completes and gives the same contents as an uninterrupted run.",
 ["crash_points","fault_sequences","histories"],
 "all kill points and power losses (lost, reordered and torn unsynced writes) during any recon in any history of recon runs on the same metadata file",
 "No test interrupts anything; crash states between two system calls are not reachable from a unit test.",
 ["cmd/recon.go","pkg/btrfs/index/index_store.go"],
 [("commit per batch and at the end","Index.InsertItem, Index.Commit, deferred commit in doScanFS"),("metadata record created in its own transaction","checkUpdateMetadata")],
 [("bbolt file","copy-on-write B+tree with two meta pages","go.etcd.io/bbolt")],
 ["metadata file contents after crash and reopen","records after the re-run"])

p("C05","recon reports I/O errors instead of claiming success",
 "recon exits with status 0 only if every block of the device could be read and every gathered item is durably stored in the metadata file. "
 "If reading the image, or opening, locking, writing, growing or syncing the metadata file fails, even once, and this cost an item, it exits with a non-zero status and an error message on standard error, without crashing or hanging.",
 ["fault_sequences","inputs"],
 "every read, write, truncate, sync, open, stat, seek and lock that recon performs may fail (EIO, ENOSPC, EINTR, EACCES ...), once or persistently, at any point",
 "The tests inject no I/O error anywhere.",
 ["cmd/recon.go","cmd/btrfscue/app/util/cliutil.go","pkg/ioutil/ioutil.go","pkg/btrfs/index/index_store.go"],
 [("errors reported through ReportError","doScanFS"),("deferred commit is checked","doScanFS")],
 observe=["exit status","standard error","records of the metadata file"])

p("C06","A metadata file stays bound to one filesystem id and block size",
 "A metadata file created for one filesystem id and block size refuses every later recon with another filesystem id or block size: that run exits non-zero with an error message and leaves the file's contents unchanged. "
 "A file with a different metadata version, or one without an index, is refused the same way by every command that reads it, and whoever opens the file after a refusal is not blocked by it.",
 ["histories","configurations","inputs","fault_sequences"],
 "all histories of recon and inspecting commands with matching and mismatching ids, block sizes and versions on one metadata file, with crashes in between",
 "One test opens a fresh index twice with the same options; no mismatch is ever tried.",
 ["pkg/btrfs/index/index_store.go"],
 [("metadata record comparison","checkUpdateMetadata"),("release on failure","openIndex")],
 [("metadata record","version, block size, filesystem id, generation","pkg/btrfs/index/index_store.go")],
 ["exit status and standard error","records before and after"])

p("C07","Index lookups honour generations and ranges over any history",
 "A lookup in the index returns, for a key stored in several generations, the version with the highest generation that is not above the generation the index was opened with, or the earliest version if all are newer. "
 "A range query yields every distinct key between its bounds exactly once, in key order, each with the version a lookup would return, and nothing outside the bounds; a full range yields every stored version of every key once, in order. "
 "This holds after any history of insertions, commits, automatic commits, closes and reopens, and both on read-write and read-only indexes.",
 ["histories","inputs","fault_sequences"],
 "all histories of insert, commit, close, crash, reopen and query, with any key distribution, number of generations per key and index generation",
 "The index test only creates an empty index; no query is ever compared with anything.",
 ["pkg/btrfs/index/index_store.go","pkg/btrfs/index/key_format.go"],
 [("generation selection","find, findNext, lowerBound"),("range iteration","Range, FullRange"),("transaction switching","ensureTx, Commit")],
 observe=["results of FindItem, Range, RangeAll, FullRange and the typed ranges"])

p("C08","Inspecting commands never modify or block the metadata file",
 "ls, dump-index, recover and mount never change the metadata file or create one that is missing, even if a recovered name coincides with it, and even if they fail or are interrupted. "
 "Any number of them can run on the same metadata file at the same time, each giving the same output and exit status as when run alone.",
 ["schedules","inputs","configurations","fault_sequences","crash_points"],
 "all combinations and interleavings of inspecting commands on one metadata file, all I/O errors and interruption points",
 "The tests run one command at a time and never compare the metadata file before and after.",
 ["pkg/btrfs/index/index_store.go","cmd/ls.go","cmd/dump_index.go","cmd/recover.go","cmd/mount.go","internal/rescuefs/nodefs.go"],
 [("read-only open with shared lock","OpenReadOnly"),("recovered targets never alias the metadata file","recoverFile")],
 observe=["metadata file bytes","creation of files","output of concurrent commands"])

p("C09","ls lists exactly the directory entries found in the metadata",
 "ls on a directory prints one line per directory entry recorded in the metadata for it, including entries whose name hashes collide and entries inside subvolumes, with the type, the name and, if the inode was found, the mode, link count, owner, size and change time of its newest version, and question marks if it was not. "
 "Entries (with printable names) are ordered by name, non-directories first; --recursive lists every directory reachable from the given ones under its heading, each once, and terminates on cyclic or damaged trees; --inode adds the inode numbers. "
 "A path that does not exist is reported on standard error and the remaining arguments are still listed.",
 ["inputs","histories","configurations"],
 "all metadata files recon can produce from any history of transactions, all path arguments and options, damaged trees included",
 "No test runs ls.",
 ["cmd/ls.go","pkg/btrfs/index/index_store.go","pkg/btrfs/btrfs.go"],
 [("path resolution","FindDirItemForPath"),("listing and recursion","listDirectory, listDirItem")],
 observe=["standard output and standard error of ls"])

p("C10","recover restores every reachable file byte for byte",
 "On an undamaged source, recover recreates below the destination directory every directory, regular file and symbolic link reachable in the metadata from the top-level tree, across subvolumes, plus every subvolume not reached that way as subvol_ID; a directory that several entries lead to is restored at one of them. "
 "Each file has exactly the length recorded in its inode and the contents given by its newest extents: inline data, data mapped through the chunk tree to the device, and zeros for holes, preallocated ranges and ranges without any extent, also where extents of older generations overlap newer ones or names collide in their hash. "
 "Each symbolic link has exactly the recorded target.",
 ["inputs","histories"],
 "all images and histories of transactions (single device, uncompressed data) with any directory structure, extent layout, chunk layout and number of generations, through the whole identify, recon, recover pipeline",
 "One test recovers two tiny files, one inline and one with a single extent, from a hand-made index.",
 ["cmd/recover.go","pkg/btrfs/index/index_store.go","pkg/btrfs/btrfs.go","pkg/btrfs/leaf.go"],
 [("directory walk","recoverDir"),("extent copying","recoverFile"),("symlink targets","recoverSymlink"),("logical to physical mapping","Index.Physical")],
 observe=["the destination directory tree after recover"])

p("C11","recover never leaves a wrong file without naming it",
 "Under read errors or missing data on the source, write errors, a full disk or unmapped addresses, recover names every file, symbolic link or directory that it could not restore completely in a message on standard error. "
 "It still restores everything not affected by the failure, correctly and completely, and neither crashes nor hangs.",
 ["fault_sequences","inputs"],
 "all placements of bad sectors, truncated sources, unmapped extents, transient and persistent I/O errors and full disks during recover",
 "No test injects an error into recover.",
 ["cmd/recover.go","pkg/btrfs/index/index_store.go"],
 [("per-entry error reporting","recoverDir, recoverFile, recoverSymlink"),("unmapped logical addresses detected","Index.Physical")],
 observe=["the destination directory tree","standard error"])

p("C12","recover writes only inside the destination directory",
 "Whatever names, link targets and directory structure the metadata contains, duplicate, colliding, cyclic, empty or hostile, recover creates, changes and removes nothing outside the destination directory: it never follows a symbolic link it created or found below the destination directory. "
 "This also holds with --clobber, when the destination already contains files from an earlier or interrupted run, and under I/O errors.",
 ["inputs","configurations","histories","fault_sequences"],
 "all metadata contents (including crafted ones), prior destination contents, options, faults and repeated or interrupted runs",
 "The test uses two benign names.",
 ["cmd/recover.go"],
 [("name filter","recoverDir"),("creation without following links","recoverFile, recoverSymlink, recoverDir")],
 observe=["every mutating file system call and the object it hits"])

p("C13","Existing files are kept unless --clobber is given",
 "Without --clobber recover leaves every file and symbolic link that already exists below the destination directory exactly as it was, and restores the others. "
 "With --clobber it replaces existing files and links with the recovered ones (a directory in the place of a file stays and is named), so that after any sequence of interrupted, failed and repeated runs a fault-free run with --clobber gives the same result as a run into an empty directory, apart from unrelated files.",
 ["histories","crash_points","configurations","inputs"],
 "all prior destination contents, all interruption points of earlier runs and all sequences of runs with and without --clobber",
 "The only recover test uses --clobber into an empty directory.",
 ["cmd/recover.go"],
 [("existence check","recoverFile, recoverSymlink")],
 observe=["the destination directory tree before and after"])

p("C14","Damaged metadata never crashes or hangs an inspecting command",
 "Whatever bytes the gathered items contain (truncated, bit-flipped, contradictory, cyclic, with huge sizes or counts), ls, dump-index, recover and serving a mount never panic, hang, loop without progress or allocate memory out of proportion to the real data. "
 "An entry that cannot be understood costs at most that entry: intact directory entries and files that do not depend on it are still listed, restored and served correctly.",
 ["inputs","fault_sequences"],
 "all metadata files recon can produce from any damaged image, and all single and multiple item corruptions",
 "No test uses damaged metadata.",
 ["pkg/btrfs/btrfs.go","pkg/btrfs/leaf.go","pkg/btrfs/index/index_store.go","cmd/ls.go","cmd/recover.go","cmd/dump_index.go","internal/rescuefs/nodefs.go","internal/rescuefs/files.go"],
 [("bounds checks in the item accessors","pkg/btrfs/btrfs.go, Item.Data"),("visited sets","recoverDir, listDirectory")],
 observe=["exit status, panics, step and memory budgets","output for unaffected entries"])

p("C15","The mounted view serves the true tree, attributes and bytes",
 "Below rescue/, the mounted file system shows every directory entry of the metadata with its proper file type in lookups and directory listings, its inode's attributes, its symbolic link target and its extended attributes, across subvolumes. "
 "A read at any offset with any length returns exactly the bytes of the file's newest contents in that range, with zeros for holes, preallocated and unmapped-by-extent ranges, is short only at the end of the file, and never returns stale buffer contents; empty files can be opened and read. "
 "The file metadata in the mount reads as the metadata file itself, and the mount offers no way to modify anything.",
 ["inputs","histories"],
 "all metadata files and sources, all sequences of kernel requests with any offset, length and handle lifetime",
 "No test covers the mounted view.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","internal/rescuefs/rescuefs.go"],
 [("lookup and listing","rescueNode.Lookup, OpenDir"),("extent reads","extentFile.Read"),("attributes","rescueNode.GetAttr")],
 observe=["answers to kernel requests (lookup, getattr, readdir, open, read, readlink, getxattr, listxattr)"])

p("C16","Concurrent requests to the mount get the sequential answers",
 "However lookups, attribute, directory, xattr, link and read requests from any number of clients overlap, every request to the mounted file system gets the answer it would get if it were the only one. "
 "No interleaving crashes or deadlocks the server or touches the tool's own shared caches without synchronisation.",
 ["schedules"],
 "all interleavings of any number of concurrent kernel requests, in particular the first requests that touch a directory, an inode or the chunk map",
 "There is no concurrent test, and the go-fuse server only runs with a real kernel mount.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],
 [("lazily filled directory, attribute and stripe caches","rescueNode, Index.Physical"),("shared read transaction","Index")],
 [("dirItems, attr, stripeMap","caches shared by all requests","internal/rescuefs/nodefs.go, pkg/btrfs/index/index_store.go")],
 ["answers to concurrent requests","conflicting accesses without happens-before order"])

p("C17","The mount answers with an error, never with wrong bytes",
 "If the source device fails to deliver data (bad sectors, transient errors, truncated device, unmapped addresses), a read through the mount that needs this data returns an error and never wrong or stale bytes. "
 "Requests that do not need it are answered correctly, and once a transient fault is over the failed reads succeed, without remounting.",
 ["fault_sequences","schedules"],
 "all placements and timings of read faults relative to any sequence of concurrent read requests",
 "No test injects an error into the mounted view.",
 ["internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],
 [("error propagation","extentFile.Read"),("unmapped addresses detected","Index.Physical")],
 observe=["read answers and status codes"])

p("C18","mount unmounts and exits cleanly on SIGINT or SIGTERM",
 "Once mounted, and as long as nobody else unmounts it, the mount command keeps serving until it receives SIGINT or SIGTERM and then, also with requests in flight, unmounts exactly once, releases the metadata file and exits with status 0. "
 "If mounting or unmounting fails it exits with a non-zero status and an error message, and no signal that arrives after the mount was announced is lost.",
 ["schedules","fault_sequences","crash_points"],
 "all arrival times of the signals relative to mounting, serving and concurrent requests, and failures of mount and unmount",
 "The mount command needs /dev/fuse and is not tested.",
 ["cmd/mount.go","internal/rescuefs/rescuefs.go"],
 [("signal handling","doMountRescueFS"),("serving goroutine","rescueFS.Serve")],
 observe=["mount and unmount calls","exit status","lock on the metadata file"])

p("C19","identify reports exactly what its samples contain",
 "identify prints each filesystem id that at least --min-occurrence of its sampled blocks carry in a leaf header, excluding the all-zero and all-ones ids, exactly once, with the exact number of such blocks, ordered by descending count, and nothing else. "
 "The reported block size is the average first-item offset of these leaves rounded up to 4 KiB steps, so that it is the true node size for a filesystem whose sampled leaves are regular, and --machine prints the same table tab-separated without a heading.",
 ["inputs","schedules","configurations"],
 "all images, options and all choices of the randomly placed samples",
 "The collector test uses a handful of synthetic blocks; which blocks get sampled on a real run is random.",
 ["internal/identify/identify.go","internal/identify/collector.go","cmd/identify.go"],
 [("histogram of header ids","FSIDCollecter.CollectBlock"),("report","IdentifyFS")],
 observe=["blocks read from the device","standard output"])

p("C20","identify samples only the device, and always finishes",
 "For every device size it accepts, block size, sample fraction and block limits, identify only reads whole blocks inside the device, takes at least the number of samples requested by its options, as far as the device has that many blocks, and finishes. "
 "It covers the neighbourhood of the superblock copies present on the device, and a read error is reported with a non-zero exit status rather than ignored.",
 ["inputs","configurations","fault_sequences","schedules"],
 "all device sizes from the minimum to beyond 1 PiB, option values, random seeds and read faults",
 "One test uses one device size, one block size, one sample count and one random seed.",
 ["internal/identify/identify.go","pkg/btrfs/util.go"],
 [("sample placement","MakeSampleOffsets"),("size check","CheckDeviceSize")],
 observe=["offsets of device reads","exit status","step budget"])

p("C21","Concurrent recon and readers serialise on the metadata file",
 "If recon runs at the same time as other recon runs or inspecting commands on the same metadata file, the outcome is that of running them one after the other in some order: readers see an index from before or after a recon and never a partial one, and the items of every completed recon are all present. "
 "No interleaving deadlocks, and a process that is killed does not block the others.",
 ["schedules","crash_points"],
 "all interleavings of the system calls of several commands on one metadata file, with kills",
 "The tests never run two commands at once.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go"],
 [("file lock held while open","openIndex via bbolt"),("single write transaction at a time","ensureTx")],
 observe=["output and exit status of each command","final records of the metadata file"])

p("C22","Repeated recon runs only add, in any order",
 "Running recon several times on the same metadata file, on the same or on different images of one filesystem, yields exactly the union of what each run alone would gather, independent of the order of the runs, and repeating a run changes nothing. "
 "No run ever removes or changes an item gathered earlier from an intact block of the filesystem.",
 ["histories","inputs"],
 "all sequences of recon runs over any set of (partially overwritten or damaged) images of one filesystem, with failed runs in between",
 "No test runs recon, let alone twice.",
 ["cmd/recon.go","pkg/btrfs/index/index_store.go"],
 [("keys include the generation","newIndexKey"),("existing metadata accepted","checkUpdateMetadata")],
 observe=["records of the metadata file after each run"])

p("C23","A block read delivers the whole block or an error",
 "Reading a block from a device through the block-read helper either fills the whole block and reports success, or reports an error: a short read is never reported as success, and a full read that coincides with the end of the device is never reported as an end of file. "
 "This holds for every reader behaviour the reader contract allows.",
 ["fault_sequences","inputs"],
 "all sequences of full, short, failing and end-of-file results the underlying reader may deliver",
 "The test uses an in-memory reader that never returns short counts without an error, or a full count together with EOF.",
 ["pkg/ioutil/ioutil.go"],
 [("read result check","ReadBlockAt")],
 observe=["return value and buffer contents"])

p("C24","Text form of filesystem ids round-trips",
 "Every filesystem id printed by the tool can be given back to it in that form and denotes the same id, and malformed ids are rejected.",
 ["inputs"],"all 2^128 ids and all strings","The test tries a few ids.",
 ["pkg/uuid/uuid.go"],[("parser and printer","pkg/uuid/uuid.go")])

p("C25","Index keys order like (owner, key, generation)",
 "The byte order of stored index keys is the order of the tuple of owner, item type, object id, offset and generation, and name hashes equal the file system's directory name hash.",
 ["inputs"],"all tuples and names","No test compares two keys or a name hash with anything.",
 ["pkg/btrfs/index/key_format.go","pkg/btrfs/index/index_store.go"],[("big-endian key encoding","newIndexKey"),("CRC32C name hash","NameHash")])

p("C26","The index dump shows every stored item version once, in order",
 "dump-index prints one line for every item version stored in the metadata, and nothing else: in the order of owner, item type, object id, offset and generation, each once, below a heading with the number of its owner, which is printed once per owner. "
 "Each line has the object id, the type, the offset and the generation of that item (symbolic names stand for the values that the Btrfs documentation gives them). This holds for every value of each field, including the highest, for metadata with no items, and for metadata left behind by an interrupted recon. The exit status is 0.",
 ["inputs","crash_points"],
 "all sets of stored keys with any owners, types, object ids, offsets and generations, and all metadata files that complete and interrupted recon runs leave",
 "No test runs dump-index; the tests of the index use a handful of small keys of one owner.",
 ["cmd/dump_index.go","pkg/btrfs/index/index_store.go","pkg/btrfs/index/ranges.go"],
 [("iteration over all owners","doDumpIndex"),("full range","FullRange"),("key fields","KeyV1")],
 observe=["standard output and exit status of dump-index"])

p("C27","A report that could not be printed completely is not called a success",
 "identify, ls and dump-index exit with status 0 only if all of their report was written to standard output. If writing it fails (full disk, device error, exceeded quota or file size), they end with a message on standard error and a non-zero status; short and interrupted writes change neither the output nor the status. "
 "They end and do not crash, wherever in the report the failure strikes.",
 ["fault_sequences"],
 "all positions at which writes to standard output may fail, be short or be interrupted, for all reports",
 "The tests never look at what the commands print, let alone with a failing standard output.",
 ["cmd/identify.go","cmd/ls.go","cmd/dump_index.go","internal/cliutil/cliutil.go"],
 [("buffered report written at the end","doIdentifyFS, doListFiles, doDumpIndex"),("error report","ReportError")],
 observe=["bytes written to standard output, standard error, exit status"])

p("C28","mount ends when somebody else unmounts the file system",
 "When the mounted file system is unmounted from outside (fusermount -u, umount, or a forced unmount that aborts requests), the mount process answers or aborts what is in flight, ends by itself without a signal, exits with status 0, does not try to unmount again, and releases the metadata file, so that the next command can use it. "
 "Signals that arrive before, during or after such an unmount do not make it hang or crash.",
 ["schedules","fault_sequences"],
 "all moments of an unmount from outside relative to mounting, serving, concurrent requests and signals",
 "The mount command needs /dev/fuse and is not tested.",
 ["cmd/mount.go","internal/rescuefs/rescuefs.go"],
 [("end of the serve loop","doMountRescueFS"),("serving","rescueFS.Serve")],
 observe=["end and exit status of mount","mount and unmount calls","lock on the metadata file"])

p("C29","recover leaves alone what other processes create in the destination meanwhile",
 "While recover runs without --clobber, other processes may create files, links and directories in the destination, also under the very names it is about to create: recover never changes, replaces, follows or removes them. "
 "If several recover runs work on one destination at the same time, the result is the same tree as that of a single one: whatever is not complete in the end is named by each of them. With --clobber this still holds for names that the filesystem does not have, and nothing is ever written through a link or to a file that another process has created.",
 ["schedules","histories","crash_points"],
 "all interleavings of one to four recover runs (some with --clobber, one may be killed) with other processes that create entries anywhere in the destination, in particular between the check for a name and its use",
 "The only recover test runs alone, into an empty directory.",
 ["cmd/recover.go"],
 [("existence check","makeRoom"),("exclusive creation","recoverFile, recoverSymlink, makeDir")],
 observe=["the destination directory tree","what other processes created there","stderr of every run"])

p("C30","Restored files take no more room than their data",
 "recover writes only the data of a file: holes, preallocated ranges and ranges without any extent stay holes in the restored file, however large it is. "
 "So a destination with just enough room for the data extents (in blocks of 4096 bytes) is enough to restore the whole tree, byte for byte.",
 ["inputs","fault_sequences"],
 "all extent layouts (with holes and lengths of up to 2^62 bytes) and a destination that becomes full right after the last byte of data",
 "The only recover test restores two tiny files without holes.",
 ["cmd/recover.go"],
 [("extent copying","writeExtents"),("hole at the end","recoverFile")],
 observe=["blocks in use by the restored files","result of recover on a nearly full destination"])

p("C31","Open files and goroutines do not add up",
 "However many files and directories there are, and however deep, and however many calls fail, every command does its work with at most 64 open files: recover restores everything completely under that limit, and ls, dump-index and recon succeed. "
 "However many requests a mount has served, successful or not, once no client has files open it holds no more open files and goroutines than before the first request, and it still answers.",
 ["inputs","histories","fault_sequences"],
 "all sizes, widths and depths of the directory tree, all failures of single calls and all histories of requests to a mount",
 "The tests work on two files and never mount.",
 ["cmd/recover.go","internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],
 [("restored files","recoverFile"),("metadata handles","metadataNode.Open"),("file handles","rescueNode.Open")],
 observe=["number of open descriptors of each process","result of recover under a limit of open files","number of goroutines of a mount"])

p("C32","A command that cannot do its work leaves no trace",
 "If its options or arguments are missing or malformed, or the device, the metadata file it has to read, the destination or the mount point it was given is missing or cannot be used, a command exits with a non-zero status and a message before it changes anything: no metadata file is created or changed, no destination directory appears, and nothing is mounted. "
 "The metadata file may also be named by BTRFSCUE_METADATA, with the same results; the --metadata option takes precedence.",
 ["configurations","fault_sequences","inputs"],
 "all combinations of commands, options and arguments, of which one is missing or malformed, and all failures to open or measure the device and the metadata file",
 "The tests call the commands' functions with good arguments only.",
 ["cmd/root.go","cmd/recon.go","cmd/recover.go","cmd/mount.go","cmd/ls.go","cmd/dump_index.go","cmd/identify.go","pkg/btrfs/util.go"],
 [("options","init functions of the commands"),("order of checks","doRecon, doRecoverFiles, doMountRescueFS"),("device size","CheckDeviceSize")],
 observe=["exit status and stderr","everything in the file system before and after","mounts"])

for x in P: 
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x,ensure_ascii=False))
