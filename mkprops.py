#!/usr/bin/env python3
# Single source of /verif/properties.jsonl: python3 mkprops.py rewrites it.
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
NOT="No existing test creates, updates, extracts or validates an object: the 5 stable tests only check a handful of fixed identifiers against four layout extensions."
OB="pkg/ocfl/objectbase.go"; IB="pkg/ocfl/inventorybase.go"; SR="pkg/ocfl/storagerootbase.go"; IT="pkg/ocfl/inventorytypes.go"; EF="pkg/ocfl/extensionFactory.go"; HL="pkg/ocfl/helper.go"
EX="pkg/extension/"

p("C01","Every version of an object can be extracted byte for byte",
 "After any sequence of updates, extracting any version of an object (by number, or 'latest') into an empty folder produces exactly the files that version contained: every logical path once, with exactly the bytes that were ingested, and nothing else. This holds for every digest algorithm, with deduplication on or off, with fixity algorithms, whatever names and contents the files have (empty files, repeated contents, unicode names, deep folders), and for both folder-wise ingest and single files or streams.",
 ["histories","inputs","configurations"],"all update histories x file trees x configurations (digest, dedup, fixity, content path extension)",
 NOT,[OB,IB,SR],[("addReader stores while hashing",OB),("IterateStateFiles/Extract resolve state through manifest",OB)],["StorageRoot.Extract output tree"])
p("C02","Version state follows the documented add/update/echo/delete/rename rules",
 "The logical state of each new version equals the previous state with the update applied: added paths map to their new content, paths not mentioned keep theirs, an echo update removes every path absent from the source (also when nothing else changed), and delete and rename affect exactly the named path of the current state. A logical path never occurs twice in a version, and a path that was deleted and later re-added (with old or new content) is present again.",
 ["histories"],"all histories of sessions mixing add, replace, echo, delete, rename, re-add, with and without deduplication, reloading between sessions",
 NOT,[IB,OB],[("AddFile/CopyFile/DeleteFile/RenameFile/echoDelete edit the head state",IB),("AlreadyExists/GetDuplicates decide skip or virtual copy",IB)],["inventory.json versions block","extraction"])
p("C03","Everything written is a conformant OCFL storage root and object",
 "After every completed session the storage root and each object on disk satisfy the OCFL specification as judged by an independent implementation of its rules: declarations, version sequence, inventories and sidecars in root and version folders, identical root and head inventories, manifest covering exactly the content files with correct digests, states referring to the manifest without empty, duplicate or conflicting paths, and no stray files or folders. A session whose result would have conflicting paths is refused with an error, and the object remains usable as it was.",
 ["histories","configurations","inputs"],"all update histories and configurations (OCFL 1.0/1.1, sha256/sha512, fixity, extensions)",
 NOT,[OB,IB,SR,IT],[("StoreInventory/Close/EndUpdate",OB),("StorageRootBase.Init",SR)],["files on disk"])
p("C04","Conformant objects validate without errors",
 "Validating a storage root whose objects conform to the OCFL specification reports no error (code E...), whether the objects were written by this software or by another implementation, including optional features: custom content directory, zero-padded versions, missing optional inventories of old versions, fixity blocks, digest algorithm changes between versions, several content copies for one digest, empty states, and missing optional message or user fields.",
 ["inputs","histories"],"all conformant storage roots within the generator's grammar, plus everything the software writes",
 "There is no validation test at all; the documentation lists official fixtures but they are not in the repository.",[OB,IB,SR,IT],[("Check/checkFilesAndVersions/check*",OB+", "+IB)],["validation status errors"])
p("C05","Validation detects any corruption of stored bytes",
 "If one byte-level fault hits a conformant object - a content file changed, truncated, extended, swapped with another, removed, renamed or added, an inventory or its sidecar changed or removed, or a declaration changed or removed - then validation of the storage root reports at least one error.",
 ["fault_sequences","inputs"],"all single faults at every file and random offsets of generated objects",
 "No test ever validates anything; detection depends on which file, version and offset is hit.",[OB,IB,SR,HL],[("createContentManifest + CheckFiles recompute digests",OB),("sidecar comparison in LoadInventory",OB)],["validation status errors"])
p("C06","Validation reports every specification violation in an inventory",
 "An object whose inventory breaks a MUST rule of the specification although all sidecar digests are right (missing or malformed mandatory fields, wrong head, gaps or mixed padding in versions, state digests not in the manifest, conflicting, empty, absolute or dotted paths, manifest entries without file, content not in any manifest, digests in conflicting case, disagreement between root and version inventories in id, head or state, wrong fixity, invalid timestamps, users, content directory or declarations) is reported with at least one error.",
 ["inputs"],"all applications of one rule-breaking mutation from a catalogue to generated conformant objects",
 "No test exercises validation; each rule needs its own malformed object in each position.",[IB,OB,IT,"pkg/ocfl/validationerror.go"],[("check, checkVersions, checkManifest, checkFixity",IB),("checkFilesAndVersions",OB)],["validation status errors"])
p("C07","Existing versions are never altered",
 "Once a version is completed, no later session on the object or storage root, successful or failing, changes, removes or adds any byte below that version's folder, nor the object's and root's declarations; every content path in an older manifest keeps its digest. Sessions on one object never touch another object's files.",
 ["histories","fault_sequences"],"all histories of sessions on several objects, including sessions aborted by injected write errors",
 NOT,[OB,IB],[("NewVersion gives each session its own folder",IB),("BuildManifestName prefixes head",IB)],["recorded filesystem operations and tree snapshots"])
p("C08","Deduplicated updates store nothing twice and no-op updates change nothing",
 "With deduplication, no content whose digest is already in the manifest is stored again, within one session or across sessions, so each manifest digest has one stored file. An update whose source equals the current state (with deduplication, with or without echo) leaves the object's files exactly as they were and creates no version.",
 ["histories","inputs"],"all deduplicating histories with arbitrary repetition of contents and paths",
 NOT,[IB,OB],[("GetDuplicates/AlreadyExists/CopyFile",IB),("Clean drops an unmodified version",IB)],["files on disk"])
p("C09","Manifest and fixity digests are correct and complete",
 "Each stored content file is listed under the digest of its bytes in the object's algorithm, and under the correct digest for every fixity algorithm the object was created with, in every version, including updates after reloading. A fixity algorithm is accepted at creation exactly when it is sha512, sha256 or enabled by an extension of the object.",
 ["inputs","configurations","histories"],"all contents x digest algorithm x fixity sets x histories",
 NOT,[OB,IB,EX+"0001-digest-algorithms.go"],[("checksum.Copy computes all algorithms in one pass",OB),("Finalize restores fixity algorithms on load",IB)],["inventory.json manifest and fixity"])
p("C10","A crash never damages earlier versions nor exposes an incomplete one",
 "If the process stops after any prefix of the write operations of a session, all files of earlier versions are intact, and whenever the object's root inventory on disk names a version, that version is complete: its own inventory and sidecar and all content it refers to are stored with the right digests. Until the root inventory itself is rewritten, the object loads and all its earlier versions are extracted as before, and once it and its sidecar are written the new version is. As long as the object still shows its earlier version, the same session or another one can be run, with the result it would have had without the interruption and a conformant object.",
 ["crash_points","histories"],"every prefix of the recorded write operations of generated sessions",
 "No test interrupts a write; needs every crash point of every session.",[OB],[("version inventory before root inventory, root inventory in Close",OB)],["replayed prefixes of the write log"])
p("C11","Storage failures are reported, never swallowed",
 "If creating, writing or closing any file fails during a session, some call of that session returns an error; if no call returned an error the object is complete and conformant. Reading failures during extraction or update are reported as errors too, and a failing source file never yields a version that claims its content. After a session on an existing object failed before the new version showed, the same session or another one can be run, with the result it would have had without the failure and a conformant object.",
 ["fault_sequences"],"every single write, close, create and read fault position of generated sessions",
 "No test injects faults.",[OB,HL],[("error returns of addReader/StoreInventory/Extract",OB)],["return values vs resulting tree"])
p("C12","Objects are found by id, listed once and never overwritten by creation",
 "A storage root that was created and loaded again keeps its OCFL version and layout: every created object is reported to exist, is loaded by its id from the folder its layout computes (and carries that id), and the listing of object folders contains exactly those folders. Ids never created are reported missing, unless their folder is taken by another object, in which case loading and creation are refused; creating an existing object or initialising a non-empty folder is refused without changing anything, and loading by id never yields an object with a different id.",
 ["histories","configurations","inputs"],"all sets of ids x layouts x versions, with reload",
 NOT,[SR,"pkg/ocfl/storageroot.go"],[("Init refuses non-empty root",SR),("ObjectExists/GetObjectFolders/LoadObjectByID",SR),("object Init refuses existing declaration",OB)],["API results"])
p("C13","Loading, validating and extracting untrusted data never crashes",
 "For any storage root content - arbitrary or truncated inventories, sidecars, declarations and extension configurations, wrong JSON types, null or missing fields, odd version names, missing folders - loading, validating, listing, extracting, reading metadata and statistics finish with a result or an error, never with a panic, and never write to the storage root.",
 ["inputs"],"all trees reachable by structural and byte-level mutation of inventories and object trees",
 "Robustness needs adversarial inputs; no test loads any object.",[IB,OB,IT,EF,SR],[("tolerant OCFL* JSON types",IT),("Finalize fills missing parts",IB)],["panics, recorded writes"])
p("C14","Extraction verifies content and writes only below the target",
 "Extraction either returns an error or every extracted file has the digest the version records, so content that was altered on disk is never delivered as success. All files are created below the target folder whatever logical paths an inventory contains, and reads stay inside the object. The optional manifest file lists exactly the extracted files with their digests.",
 ["inputs","fault_sequences"],"all generated objects with altered content and hostile logical or content paths",
 NOT,[OB,SR],[("digest comparison in Extract",OB),("manifest file",OB)],["extracted tree, recorded paths"])
p("C15","No identifier can place an object outside its storage root",
 "Whatever the object id (dots, slashes, absolute paths, backslashes, control characters, very long or empty ids), every layout either reports an error or yields a folder strictly below the storage root, and object creation never writes outside the storage root, into its extensions folder or into another object.",
 ["inputs","configurations"],"all id strings x all storage layouts",
 "Tests use a few well-formed ids.",[SR,EX+"pathdirect.go",EX+"0002-flat-direct-storage-layout.go",EX+"0006-flat-omit-prefix-storage-layout.go",EX+"NNNN-direct-clean-path-layout.go"],[("BuildStorageRootPath of each layout",EX),("CreateObject",SR)],["recorded write paths"])
p("C16","Registered storage layouts compute the paths their specification defines",
 "For every id and every valid configuration, the layouts flat-direct, hash-and-id-n-tuple, hashed-n-tuple, flat-omit-prefix, n-tuple-omit-prefix and pairtree yield exactly the path an independent implementation of the published extension text yields, and report an error exactly for the ids that text excludes (for ids the text leaves open, such as non-ASCII ids of n-tuple-omit-prefix, either is allowed); the result depends on the id and configuration only, not on earlier calls.",
 ["inputs","configurations"],"all ids x configurations (digest, tuple size and count, short root, delimiter, padding, reverse)",
 "The 5 stable tests check about ten fixed ids on four layouts; percent-encoding, truncation, padding and error rules are not covered.",[EX+"0002-flat-direct-storage-layout.go",EX+"0003-hash-and-id-n-tuple-storage-layout.go",EX+"0004-hashed-n-tuple-storage-layout.go",EX+"0006-flat-omit-prefix-storage-layout.go",EX+"0007-n-tuple-omit-prefix-storage-layout.go",EX+"NNNN-pairtree-storage-layout.go"],[("BuildStorageRootPath",EX)],["returned path or error"])
p("C17","Layouts that encode the whole id map different ids to different folders",
 "Two different valid UTF-8 ids never get the same object folder for the hash based layouts, flat-direct, pairtree, and the direct-clean layout with UTF encoding (for ids without empty or dot segments, up to its documented fallback for over-long paths), and no object's folder lies inside another's for the hash based layouts, while creation refuses such nesting for the others; direct-clean also never gives two different file paths of an object the same content path.",
 ["inputs","configurations"],"all pairs of ids biased to near collisions x configurations",
 "Collisions need pairs of adversarial ids.",[EX+"0003-hash-and-id-n-tuple-storage-layout.go",EX+"0004-hashed-n-tuple-storage-layout.go",EX+"NNNN-pairtree-storage-layout.go",EX+"NNNN-direct-clean-path-layout.go"],[("percent/UTF encoding of special characters",EX)],["returned paths"])
p("C18","Direct-clean paths follow the documented cleaning rules",
 "For every valid UTF-8 name and configuration the direct-clean layout yields the path obtained by applying the documented rules independently: either =uXXXX encoding or replacement of forbidden characters, whitespace replacement, dropping of leading tildes, dashes, blanks and trailing blanks, removal of empty segments, and the hashed fallback folder when a segment or the path exceeds its limit. The result contains no empty, '.' or '..' segment, no forbidden character, and respects the segment and path limits.",
 ["inputs","configurations"],"all UTF-8 strings x configurations",
 "Two of the existing tests of this layout fail at this commit and the others use a few fixed strings.",[EX+"NNNN-direct-clean-path-layout.go","docs/NNNN-direct-clean-path-layout.md"],[("build, fallback, encodeUTFCode",EX+"NNNN-direct-clean-path-layout.go")],["returned path or error"])
p("C19","Extension configuration survives being stored and loaded",
 "Storing the extensions of a storage root or object and loading them again yields the same extensions with the same effective configuration, so every path computation after a reload equals the one before it, whatever valid parameters were configured. Storing is stable: loading and storing again writes identical files. ocfl_layout.json names the layout which is in effect.",
 ["configurations","histories"],"all valid configurations of every extension, in roots and objects",
 "No test stores a configuration and loads it back.",[EX,EF,"pkg/ocfl/extensionManager.go"],[("WriteConfig of each extension",EX),("CreateExtensions",EF)],["config.json files, mapping results"])
p("C20","The extension manager honours sort order and exclusions",
 "When several extensions offer the same hook, the ones listed in the manager's sort configuration run in that order, and of each exclusion group only the member with the highest rank in the group stays active for that hook while extensions outside the group are unaffected. The outcome depends on the configuration and the set of extensions only, not on the order in which they were added.",
 ["configurations"],"all extension sets, insertion orders, sort lists and exclusion groups",
 "No test touches the manager.",[EX+"NNNN-gocfl-extension-manager.go","docs/NNNN-gocfl-extension-manager.md"],[("organize, sortExtensions, excludeExtensions",EX+"NNNN-gocfl-extension-manager.go")],["sequence of hook calls, chosen path"])
p("C21","Content areas partition an object",
 "With the content-subpath extension every file added to an area is listed below that area's folder, and content stored anew for it lies below that folder (deduplicated content is stored once, wherever it was first added); paths which would leave the area are refused; extraction of an area yields exactly the files of that area with their original names, extraction of the pseudo area for everything yields all files under their area folders, and areas never receive files of another area even if contents are identical or one area's folder name is a prefix of another's. Unknown areas are rejected.",
 ["inputs","histories","configurations"],"all area configurations x trees x histories",
 NOT,[EX+"NNNN-content-subpath.go",OB],[("BuildObjectStatePath/ManifestPath/ExtractPath",EX+"NNNN-content-subpath.go")],["inventory, extracted trees"])
p("C22","Filesystem metadata is recorded completely and readable in every storage mode",
 "With the filesystem extension, the metadata of every file whose content a folder ingest stores anew (path, size, modification time, kind; a deduplicated copy has none), and of its folders if configured, is recorded under the digest of its content and is returned unchanged by metadata extraction in every later version, for each storage type (area, path, extension folder) and compression (none, gzip, brotli).",
 ["inputs","configurations","histories"],"all trees x storage types x compressions x histories",
 NOT,[EX+"NNNN-filesystem.go",HL],[("AddFileAfter/UpdateObjectAfter/GetMetadata",EX+"NNNN-filesystem.go"),("WriteJsonL/ReadJsonL",HL)],["ExtractMeta result"])
p("C23","Every streaming extension sees exactly the stored bytes",
 "While a file is ingested each streaming extension receives the complete content once, byte for byte, however the source chunks it and however much of it the extension chooses to read; an extension that stops early or fails never blocks the ingest, alters stored bytes or digests, or starves other extensions, and its error is reported to the caller. What the indexer extension records for a content is what its actions computed from these bytes, failures of single actions included, and is returned by metadata extraction in every later version and storage mode.",
 ["schedules","inputs","configurations"],"all contents x chunkings x numbers and behaviours of streaming extensions x schedules",
 "Needs misbehaving consumers and large contents under concurrency; no test streams anything.",[OB,EX+"NNNN-gocfl-extension-manager.go"],[("pipe fan-out in StreamObject",EX+"NNNN-gocfl-extension-manager.go"),("addReader",OB)],["bytes received, stored bytes, returned error"])
p("C24","Metadata and statistics agree with the inventory",
 "Metadata extraction and the statistics report describe exactly what the inventories say: id, head, digest algorithm, each version's message, user and time, and for every manifest digest its content paths, its fixity checksums and its logical names in each version; asking for all objects covers every object of the root once.",
 ["histories","inputs"],"all generated roots and histories",
 NOT,[OB,SR,"pkg/ocfl/metadata.go","pkg/ocfl/fixity.go"],[("GetMetadata",OB),("ExtractMeta, Stat",SR)],["ExtractMeta and Stat output"])
p("C25","Folder, ZIP and in-memory storage give the same object",
 "Running the same history of sessions against a folder on disk and against a ZIP container yields the same set of files with the same bytes (up to timestamps), and extraction and validation give the same results through either.",
 ["histories","configurations"],"all histories x storage backends, with the container closed and reopened between sessions",
 "No test uses any storage backend.",[OB,SR,HL],[("writefs abstraction",OB)],["normalised trees, extraction, validation"])
p("C26","Cleaned file names are safe and stable",
 "The exported path cleaning functions return, for any input, valid UTF-8 without control characters or shell-special characters, without leading blanks, dashes or tildes and without trailing blanks in any segment; each unwanted character becomes one underscore and all others are kept in their order; cleaning an already clean path changes nothing, a relative path stays relative, and a path is rejected exactly when it exceeds the limits it was given.",
 ["inputs"],"all byte strings x limits","No test covers them.",[HL],[("FixFilename, CleanPath",HL)],["returned strings"])
p("C27","Independent sessions can run concurrently",
 "Sessions on different objects, in the same or different storage roots, and read-only operations running at the same time in one process produce the same results as when run one after the other, without data races.",
 ["schedules","histories"],"random interleavings of sessions on disjoint objects and readers",
 "Needs schedules; no test runs two operations at once.",[OB,SR,IB,EX],[("per object state",OB)],["final trees, validation, race detector"])
p("C28","Metadata files are accepted exactly when they satisfy the schema",
 "With the metafile extension, an update succeeds exactly if the supplied metadata document is well formed and valid against the configured schema; the stored document is the supplied one and is returned by metadata extraction, in every storage mode, and a rejected document leaves the object without the new version.",
 ["inputs","configurations"],"all documents x small schemas x storage modes",
 "No test covers it.",[EX+"NNNN-metafile.go"],[("UpdateObjectBefore validates and stores",EX+"NNNN-metafile.go")],["return value, stored files, ExtractMeta"])
p("C29","Migrated files are versioned, linked and never lose the original",
 "With the migration extension, every file of a new version whose detected format has a migration rule is migrated into one automatically added version by the configured strategy (replaced, added or stored in a folder), in whatever area it lies; each content is passed to the tool once, also over later sessions, whether that succeeds or fails. The migrated bytes are those the tool produced, originals stay retrievable from the earlier version with unchanged digests, a failing tool leaves the original in place, no other file is displaced, and a record links source and target or tells of the failure.",
 ["inputs","configurations","histories"],"all trees x rules x strategies x tool failures",
 "No test covers it; needs external tools.",[EX+"NNNN-migration.go","pkg/subsystem/migration/migrate.go"],[("UpdateObjectAfter/NeedNewVersion/DoNewVersion",EX+"NNNN-migration.go")],["inventory, extraction, ExtractMeta"])
p("C30","METS and PREMIS documents describe exactly the object's content",
 "With the METS extension every new version gets well-formed METS and PREMIS documents, stored where configured: METS lists exactly the files of that version (apart from the two documents themselves and their schemas), each with its logical path, the paths of its content, its digest, the digest algorithm and its size; every file outside the metadata area is also a PREMIS object with its digest and size; METS refers to the PREMIS document with its location, checksum and size and names the configured primary metadata file; identifiers are unique and references resolve. The documents repeat what is recorded elsewhere: the media type the indexer found, one event per migrated file which links source and result or tells of the failure, and the person and organisation responsible.",
 ["histories","inputs"],"all trees and histories","No test covers it.",[EX+"NNNN-mets.go"],[("UpdateObjectAfter",EX+"NNNN-mets.go")],["mets.xml, premis.xml"])
p("C31","Thumbnails are recorded for the images they show",
 "With the thumbnail extension every readable image stored anew gets a thumbnail in the configured format, which shows it with its proportions inside the configured size; contents of other formats with a configured tool get the tool's result, each content once, also over later sessions, whether the tool succeeds or fails. Metadata extraction in every later version names for each such content the thumbnail's file, which exists where storage type and name put it, or the failure; an unreadable image or failing tool never makes the session fail, and the user's files stay as ingested.",
 ["histories","inputs"],"all images and histories","No test covers it.",[EX+"NNNN-thumbnail.go",EX+"NNNN-thumbnail_native.go"],[("StreamObject",EX+"NNNN-thumbnail_native.go"),("GetMetadata",EX+"NNNN-thumbnail.go")],["extensions/NNNN-thumbnail"])
p("C32","Validation reports every structural violation",
 "However the structure around the inventories of an otherwise conformant storage root is changed - declarations, layout file, extension folders, empty folders and stray files in the hierarchy, objects inside of objects or stored twice, missing or surplus files and folders within objects and versions, an older root inventory - validation reports an error whenever the result violates OCFL and none when it does not, and it never panics.",
 ["inputs"],"all storage roots x structural changes",
 "Tests validate a handful of fixture objects; the space of misplaced files is not enumerable.",["pkg/ocfl/storagerootbase.go","pkg/ocfl/objectbase.go"],[("Check/CheckObjectByFolder","pkg/ocfl/storagerootbase.go"),("object.Check","pkg/ocfl/objectbase.go")],["validation messages"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
