#!/usr/bin/env python3
"""Writes MANIFEST.json and harness/rules.json from the tables below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "property-based testing (Go, rapid): "
# id: (technique, level_note, rule for non-trivial cases)
HIST_RULE = "a history counts when at least two versions were created (on a foreign object: one); distinct by configuration and sessions"
HIST_NOTE = ("Exploration: random histories of up to 7 update sessions on 1-2 objects over an in-memory file system which emulates the "
             "os file system of the writefs library; and up to 3 sessions on random conformant objects of other implementations (zero-padded "
             "versions, other content directories, changed algorithms, missing inventories); assumes that emulation, and rapid's generator, are right.")
C = {
 "C01": ("stateful model-based histories, extraction of every version against a reference model", HIST_NOTE, HIST_RULE),
 "C02": ("stateful model-based histories, inventory state against a reference model of the update rules", HIST_NOTE, HIST_RULE),
 "C03": ("stateful histories judged by an independent OCFL validator, sessions with conflicting paths must be refused", HIST_NOTE+" One more check lets a session name a path which is a folder of another path, or the other way round, with or without taking the other one away.", HIST_RULE),
 "C07": ("stateful histories with an immutability invariant over file system snapshots", HIST_NOTE, HIST_RULE),
 "C08": ("stateful histories with a deduplication invariant over stored files", HIST_NOTE, HIST_RULE),
 "C04": ("generated conformant foreign storage roots and own histories, validation has to accept them", "Exploration: random conformant OCFL 1.0 and 1.1 roots written by an independent generator (layouts, paddings, content folders, digest cases, odd but legal inventories), and own histories; in-memory file system; assumes the generator writes conformant roots only.",
         "a foreign root counts when it has at least two versions or an unusual feature; distinct by root description"),
 "C05": ("generated faults in stored bytes and files of valid objects, validation has to report them", "Exploration: one random fault (bit flips, truncations, lost, added, moved, swapped files and folders) in a random valid root, foreign or own; faults which leave the root valid are excluded by the independent validator.",
         "a case counts when the fault changes the stored files; distinct by root and fault"),
 "C06": ("generated resigned inventory mutations, validation has to report the clause broken", "Exploration: about 70 kinds of inventory and structure mutations with all sidecars rewritten, on random valid roots, against the OCFL specification text.",
         "a case counts when the mutation applies; distinct by root and mutation"),
 "C10": ("fault injection: recorded write operations of generated sessions replayed up to every crash point", "Exploration: random histories; for each session every operation boundary from the first inventory on, and a sample of those before, plus torn writes; replayed in order on an in-memory file system (no reordering of unsynced writes is modelled); at two points per session the session, or another one, is run and the result judged.",
         HIST_RULE),
 "C12": ("stateful multi-object storage root histories against a map of created ids", "Exploration: random storage roots with up to 5 objects over every storage layout, hostile and nesting ids included; in-memory file system.",
         "a root counts when at least two objects were created in it; distinct by layout and ids"),
 "C13": ("structured and byte-level fuzzing of whole storage roots, every reading operation must return without panic or write", "Exploration: random valid roots (foreign and own) with hostile extension configurations and data files and up to four byte-level, JSON-structural or tree mutations; about 60 reading calls per root; a call that has not returned after 20 s counts as hanging; in-memory file system.",
         "a case counts when the root was mutated or carries extensions; distinct by all files of the root"),
 "C14": ("generated storage roots with altered content and hostile logical and content paths, extraction judged by recomputed digests and a recording file system", "Exploration: random foreign roots with at most one alteration of stored content, of a logical path or of a content path (inventories resealed); extraction by folder, object or whole root into an in-memory target which records escapes, as does the source.",
         "a case counts when the version extracted has entries or extraction refuses; distinct by all files of the root, alteration and version"),
 "C15": ("generated ids and paths through every layout and path extension, containment invariants", "Exploration: random and structured ids and paths; containment is judged on the returned strings and on an in-memory file system which records escapes, nothing real is touched.",
         "a case counts when the id or path contains a character outside [a-z0-9]; distinct by extension configuration and input"),
 "C16": ("differential test of every storage layout against an independent implementation of its specification", "Exploration: random parameters and ids against reference implementations written from the OCFL community extension texts.",
         "a case counts when the layout accepts the id and returns a path; distinct by configuration and id"),
 "C17": ("metamorphic test: distinct ids never share or nest storage folders", "Exploration: pairs and families of near-identical ids over every layout.",
         "a pair counts when both ids are accepted; distinct by configuration and ids"),
 "C18": ("differential test of direct-clean paths against an independent implementation of its documentation", "Exploration: random parameters and paths; the cases the documentation leaves open are excluded as DESIGN.md lists them.",
         "a case counts when the path is changed by cleaning or refused; distinct by configuration and path"),
 "C09": ("stateful histories with recomputed manifest and fixity digests", HIST_NOTE, HIST_RULE),
 "C11": ("fault injection: a chosen storage operation of a generated session, extraction or validation fails, return values are judged against the resulting tree", "Exploration: random histories; create, write, close, mkdir, open, read, seek, stat and directory faults, once or from then on, partial writes, at random positions of an in-memory file system and of the sources; a call that has not returned after 20 s (they take milliseconds) counts as hanging. After an error which left the old version in place the session, or another one, is run without the fault and the result judged.",
         "a case counts when the injected fault was hit; distinct by configuration, sessions and fault"),
 "C20": ("generated sets, orders, sort lists and exclusion groups of recording extensions against a model of the extension manager", "Exploration: random sets of recording extensions for every hook; where exclusion groups overlap only group invariants are judged, as the specification of the order is open there.",
         "a case counts when at least two extensions and an exclusion or a sort list are present; distinct by extensions and manager configuration"),
 "C19": ("round-trip and differential test: generated extension sets and parameters are stored, loaded and stored again, path mappings before and after are compared", "Exploration: random sets of the shipped extensions with random valid parameters, in storage roots and objects, up to three reloads; in-memory file system.",
         "a case counts when more than one extension is configured; distinct by configurations and parameters"),
 "C21": ("stateful model-based histories over generated area configurations, extraction of every area against a reference model", "Exploration: random area folders (nesting and prefix-alike names), up to four sessions of folders, data and readers added to areas; in-memory file system.",
         "a case counts when at least two areas and two files exist; distinct by areas and sessions"),
 "C22": ("stateful histories of folder ingests from real folders, extracted metadata against a reference model", "Exploration: random folder trees (empty files, duplicates, strange names, modification times) written to a temporary folder and ingested in up to four sessions, storage types x compressions x areas; the storage root is in memory. Owner and permission fields are not judged beyond being unchanged.",
         "a case counts when at least one file was recorded in a version; distinct by configuration and sessions"),
 "C23": ("generated contents, chunkings and behaviours of streaming extensions; bytes seen, bytes stored and errors against the source", "Exploration: up to four streaming extensions which read everything, something or nothing, close, fail or dawdle; contents up to 3 MB around the buffer sizes; schedules are those the Go scheduler and the random breaks give. The indexer extension runs with recording actions; its external tools do not run.",
         "a case counts when at least one extension streams a file; distinct by the extensions' behaviours and files"),
 "C24": ("generated storage roots and histories, metadata and statistics compared with an independent reading of the inventories", "Exploration: random conformant foreign roots with up to three objects, and own histories after every session; the statistics report is parsed line by line, its extension section is not judged.",
         "a case counts when some object has at least two versions; distinct by root description or by configuration and sessions"),
 "C25": ("differential test: generated session histories run on ZIP containers, folders on disk and in memory; files, validation, extraction and metadata are compared", "Exploration: random histories of up to 5 sessions; containers in memory and on disk, closed and reopened between sessions; sources in memory, in folders and in containers. No name is a prefix of another one in a folder and objects have fewer than 10 versions, as the ZIP file system library confuses such names (two known findings); encrypted containers and S3 are not run.",
         "a history counts when at least two versions were created; distinct by configuration, sessions, source and storages"),
 "C26": ("generated byte strings through the cleaning functions: invariants, idempotence and an independent implementation of the documented rules", "Exploration: random paths of up to five segments with control, shell-special and invalid bytes, limits around the true lengths.",
         "a case counts when cleaning changes the path; distinct by path and limits"),
 "C27": ("generated sets of concurrent sessions and readers under the race detector, compared with the same jobs run one after the other", "Exploration: up to five objects per storage root; sessions and readers with own handles, one common handle or in two storage roots, in memory or on disk, on 1, 2 or 4 processors; the schedules are those the Go scheduler gives, the data race detector judges those which were executed.",
         "a case counts when at least two jobs, one of them a writer, run at the same time; distinct by configuration, mode and sessions"),
 "C28": ("generated JSON schemas and metadata documents (JSON, YAML, TOML; well formed or not) through sessions with the metafile extension, against an independent evaluation of the schemas", "Exploration: schemas of the common keywords up to depth 2, histories of up to four sessions, every storage mode, sources by path, file: and http: URL (loopback).",
         "a case counts when at least one document was accepted or refused; distinct by schema and sessions"),
 "C29": ("generated histories with migration rules whose tools are small shell programs (rename, constant, copy, failing before, after or for some files, no result, empty result, timeout), every version, record and tool call compared with a model", "Exploration: up to 3 rules over 6 declared formats, up to 4 sessions; contents of at least 512 bytes, format detection by a stand-in for siegfried. When the names of two results, or of a result and another file, meet, only validity and the preservation of the other files are checked. Migration from a separate source file system is not run.",
         "a case counts when at least one file was passed to a tool; distinct by configuration and sessions"),
 "C30": ("generated histories with the METS extension in every storage mode, area set-up and digest algorithm; the documents of each version parsed and compared with an independent reading of the inventory and the stored bytes", "Exploration: up to 4 sessions with markup and non-ASCII characters in names, ids and users; METS alone or with the indexer, migrations, file system metadata, metadata files, fixity and path cleaning, whose records may be files of the object. Format registry entries and events other than migrations are not judged, nor are the documents validated against the XSD schemas.",
         "a case counts when some version has user files; distinct by configuration, object and sessions"),
 "C31": ("generated histories of images (PNG, JPEG, GIF; broken ones) and other files with the thumbnail extension, tools as small shell programs; thumbnails are decoded and compared with format, size, proportions and colour of their source, records and tool calls with a model", "Exploration: images of one colour up to 300x300, thumbnails up to 256x256, every storage type, with and without areas; the native image library (the imagick and vips builds need libraries which are not installed). Thumbnails read from the migration source folder are not run.",
         "a case counts when at least one thumbnail or tool failure is recorded; distinct by configuration and sessions"),
 "C32": ("about 40 kinds of generated change to the structure of generated storage roots; validation's verdict compared in both directions with an independent checker", "Exploration: roots of up to three objects written by the harness, one change each; what the specification leaves open or the code tolerates on purpose (CRLF after declarations, empty folders under the root's extensions) is not generated.",
         "a case counts when the change applies; distinct by change and root"),
}
NA_PENDING = "not claimed yet: the check is not built"
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na, rules = [], [], {}
    for p in props:
        i = p["id"]
        if i not in C:
            na.append(dict(property=i, reason=NA.get(i, NA_PENDING)))
            continue
        t, n, r = C[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH + t, level="exploration", level_note=n))
        rules[i] = r
    json.dump(dict(version=1, setup_cmd="python3 bin/check.py --build", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
    json.dump(rules, open(V + "/harness/rules.json", "w"), indent=1)
NA = {}
main()
