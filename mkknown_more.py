PROP.update({
"refuse a version with conflicting logical paths":("C03","a path below a file of an earlier version was added, and the version written violated E095"),
"remove what an interrupted update has left in the folder of the next version":("C10","after an interrupted session another session adopted its left-over content, and the version written had content files missing in the manifest"),
"refuse incomplete records in the data files of extensions":("C13","null records in filesystem, migration and thumbnail data files made metadata extraction panic"),
"report metadata of extensions without folder as missing":("C13","a metafile extension in a folder of another name made metadata extraction panic"),
"extract no two contents to one path":("C14","a logical file named like the manifest file was overwritten by it; a path with two contents was extracted without error"),
"make a new version visible after everything else is stored":("C10","the root inventory was stored before the extension configurations, which every update rewrote in place: a crash there made the whole object unreadable"),
"no panic if the root inventory cannot be created":("C11","nil dereference when inventory.json could not be created"),
"report failing writes of content instead of waiting forever":("C11","a failing write of content larger than 32 KB blocked the session forever"),
"close source files and report errors when adding files":("C11","a source which cannot be rewound made the session panic, and open source files leaked"),
"report errors on closing jsonl files":("C11","errors on closing the data files of extensions were swallowed"),
"never overwrite content stored earlier in a session":("C02","two files of a session mapped to one content path overwrote each other and left an inventory with digests of lost content"),
"report extensions which cannot be read instead of ignoring them":("C11","a transient read error on an extension configuration silently changed the layout: the same object was created a second time at another path"),
"report errors while storing the configuration of a storage root":("C11","a storage root whose extensions folder could not be created was reported as created"),
"report failing writes of extracted content instead of waiting forever":("C11","a full target disk blocked extraction forever"),
"store the name of the extension manager in the initial extension":("C19","an initial extension created without a name was stored with an empty one, so a later load used no extension manager"),
"name the manager in ocfl_layout.json if several layouts are active":("C19","ocfl_layout.json named one of several active layouts, whichever came first, so another reader would map ids to other folders"),
"store empty parameters of the mets extension":("C19","deliberately empty mets parameters turned into the defaults after a reload"),
"do not extract files of areas whose folder name starts like the area's":("C21","extraction of the area in folder 'data' also extracted the files of the area in 'data2'"),
"refuse paths which leave the folder of their area":("C21","a file '../x' added to an area was stored in another area"),
"describe areas in the same order in every version":("C21","the generated README of the areas changed its order randomly, adding spurious versions of it"),
"read data files of extensions from where they were stored":("C22","metadata stored with storage type 'path' or 'extension' could not be read back"),
"keep the files of folders in echo updates and in their area":("C22","an echo update with filesystem metadata of folders lost files, or stored them in another area"),
"keep extension metadata readable while and after several versions are written":("C22","extension metadata of several versions, or read during an update, was lost or failed"),
"report extension metadata which cannot be read, expect none of versions without":("C22","metadata extraction failed for objects having a version without added files, and unreadable metadata was ignored silently"),
"do not let an extension which closes its stream break the others":("C23","an extension which closes the stream it is given made the ingest fail"),
"name the digest algorithm as such in the statistics report":("C24","the statistics report labelled the digest algorithm 'Path'"),
"extract fixity digests of every copy of a content":("C24","metadata extraction missed fixity digests recorded for another copy of a content than the first"),
"replace backslashes in cleaned file names":("C26","CleanPath and FixFilename kept backslashes, which their documentation forbids"),
"keep relative file names relative when cleaning them":("C26","FixFilename made the relative path '-/a' the absolute path '/a'"),
"collect validation messages of concurrent operations safely":("C27","operations on one storage root running at the same time wrote to the list of validation messages unsynchronised (data race, lost messages)"),
"mark storage roots as modified safely for concurrent sessions":("C27","closing two objects of one storage root at the same time was a data race"),
"use the documented default name of metadata files":("C28","without the parameter 'name' the metadata document was stored under the name of its folder"),
"do not panic without a metadata source parameter":("C28","a session without metadata source parameter made the metafile extension panic"),
"do not take http error pages for metadata documents":("C28","the body of an HTTP error response was stored as metadata document"),
"refuse metadata sources with more than one document":("C28","everything after the first document of a metadata source was dropped silently"),
"keep numbers and structure of metadata documents":("C28","large numbers of metadata documents were changed, documents other than objects could not be extracted"),
"extract metadata of objects without metadata file":("C28","metadata extraction failed for objects without a metadata document"),
"read metadata files from where they are written":("C28","metadata documents in folders like 'meta/' could not be read back"),
"validate the metadata document which is stored":("C28","a YAML infinity made the schema validation panic; TOML arrays of tables were refused"),
"do not ignore metadata sources which are no valid url":("C28","an invalid metadata source URL made the update succeed without metadata"),
"do not try to migrate deleted files":("C29","a session which deletes a file with a migration rule failed or panicked after its version was stored"),
"keep migrated files next to their originals":("C29","strategy folder: results of files in sub folders got a doubled path, a second migration renamed files to the empty name"),
"migrate files of all areas":("C29","a file with a migration rule outside the default area made the update fail"),
"do not migrate files again if another file has the same migration result":("C29","two files with identical migration results: one of them was migrated again in every session"),
"report errors when writing the migration configuration":("C29","marshalling errors of the migration configuration were ignored"),
"do not displace other files by migration results":("C29","a migration result with the name of another file dropped that file from the version"),
"report errors when storing migrated files":("C29","errors when storing a migration result were recorded as failures of the tool, leaving unreferenced content; temporary files leaked"),
"store METS and PREMIS files within the content area":("C30","storage type 'path' with content areas stored METS and PREMIS in data/data"),
"write METS and PREMIS documents of the extension folder to the configured files":("C30","storage type 'extension': file names got a formatting error appended, the PREMIS file held the METS document"),
"name the digest algorithm of the object within METS":("C30","METS named SHA-512 for objects with sha256 digests"),
"do not list the METS and PREMIS documents of the last version":("C30","METS listed the documents of the previous version as part of the new one"),
"state the size of all files in METS and PREMIS":("C30","sizes were missing, PREMIS stated 0"),
"state the checksum of all files in PREMIS":("C30","PREMIS objects had no checksum without the indexer"),
"state location and checksum type of the PREMIS document":("C30","METS referred to the PREMIS document without version and content folder, and without checksum type"),
"list metadata files with the content of the primary metadata":("C30","metadata files with the same content as the primary metadata file were missing in METS"),
"refer to all files of all areas in METS":("C30","content was missing or referred to by unknown or duplicate identifiers when its area differs from that of the file, has a nested path or holds several copies"),
"state the size of the content in METS and PREMIS, not that of a folder":("C30","with NNNN-filesystem, files with the content of a folder's placeholder got the size of the folder"),
"use the documented default of the primary descriptive metadata":("C30","the default looked for the primary metadata in the content area"),
"do not panic when a thumbnail gets a folder number below 16":("C31","every fourth image made the session panic (default directories)"),
"fit thumbnails into the configured size, also those of narrow images":("C31","thumbnails were larger than configured; very narrow images made the ingest fail"),
"record thumbnails of files whose content path differs from their logical path":("C31","thumbnails of files in areas or with cleaned names were stored, but not recorded"),
"store and report thumbnails under the folder configured, not one doubled":("C31","storage types 'path' and 'area': folder names were doubled, records named files which do not exist"),
"validate ocfl_layout.json":("C32","a layout file which is no JSON object, or without extension or description, was not reported (E070, E071)"),
"report empty folders of the storage root on validation":("C32","empty folders in the storage hierarchy were not reported (E073)"),
"report objects with the same id on validation":("C32","two objects of a storage root with the same id were not reported"),
"report content outside of the content directory":("C32","manifest paths beside the content directory were not reported (E016)"),
})
KNOWN+=[
("C25","in a ZIP container the files of folder 'd2' are taken for files of folder 'd' (ReadDir of github.com/je4/filesystem v3.0.12 compares names without separator)"),
("C25","in a ZIP container the files of object 'obj2' are taken for files of object 'obj' (ReadDir of github.com/je4/filesystem v3.0.12 compares names without separator)"),
("C23","files shorter than 512 bytes reach the actions of NNNN-indexer empty (MimeReader of github.com/je4/utils v2.0.41 drops them)"),
]
