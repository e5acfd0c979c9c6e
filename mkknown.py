#!/usr/bin/env python3
# rewrites /verif/known-findings.txt (development helper; no check runs it)
import os, subprocess
V=os.path.dirname(os.path.abspath(__file__))
PROP={ # commit subject prefix -> property, what failed
"create the parent folders of nested object paths":("C12","creating an object in a nested folder failed with 'no such file or directory'"),
"judge a logical path by the head state":("C02","a deleted path could not be added again, a path of an older version counted as present"),
"keep one state entry per logical path":("C02","replacing the content of a path left it twice in the state"),
"list added content once and store the version which holds it":("C03","added content was listed twice / the version was dropped although content was stored"),
"apply echo deletions also when nothing was added":("C02","an echo update that only removes files was ignored"),
"store the inventory of a new object without content":("C03","an object created without content had no inventory"),
"load storage roots and objects with missing or unknown extension folders":("C13","roots or objects without extensions folder, or with unknown extensions, could not be loaded"),
"store the configuration of an extension manager without rules":("C19","manager config without rules was stored as null and not readable"),
"order unlisted extensions last and independent of the order of adding":("C20","extensions missing in the sort list came first, order depended on insertion order"),
"keep the fixity algorithms of an object with an empty first version":("C09","fixity algorithms lost when the first version was empty"),
"report errors when closing stored configurations":("C11","close errors of stored configurations were swallowed"),
"store the parameters of the storage layouts":("C19","layout parameters were not written to config.json, a reloaded root computed other folders"),
"name the layout in use in ocfl_layout.json":("C12","ocfl_layout.json named no or the wrong layout"),
"escape control characters and check parameters in the hashed layouts":("C16","0003/0004: control characters not encoded, invalid parameters accepted"),
"make the digests of storage layouts safe for concurrent use":("C27","layouts shared one hash object between goroutines and calls"),
"follow the rules of the omit-prefix layouts for delimiters and parameters":("C16","0006/0007: delimiters treated as regular expressions, ids without delimiter mishandled"),
"encode pairtree identifiers without collisions":("C17","different ids got the same pairtree folder"),
"keep trailing punctuation in direct-clean paths":("C18","trailing punctuation was dropped"),
"build the fallback folders of direct-clean paths as documented":("C18","fallback folders differed from the documentation"),
"accept the documented parameters of the direct-clean layout":("C18","documented parameter names were ignored"),
"never build dot segments with the direct-clean layout":("C15","ids with dot segments left the storage root"),
"limit the tuple parameters of layouts":("C13","huge tuple parameters made the layout panic or exhaust memory"),
"keep objects inside the storage root and apart from each other":("C15","objects could be created outside the root, in its extensions folder or in another object"),
"check the parameters of a new object before anything is written":("C09","a refused object (unknown fixity algorithm) left files behind"),
"extract every file of an area and only to paths below the target":("C14","files were extracted outside of the target / content copies were skipped"),
"report errors when closing extracted files":("C11","close errors of extracted files were swallowed"),
"extract all objects of a storage root":("C24","asking for all objects handled only some"),
"report unreadable inventories and accept upper case sidecar digests":("C04","upper case digests in sidecars were reported as errors; unreadable inventories were not"),
"never crash on incomplete inventories or unreadable folders":("C13","nil dereferences on inventories without head, versions, manifest"),
"compare inventories and version states completely":("C06","disagreement between root and version inventories was not reported"),
"detect all conflicting paths and digests in inventories":("C06","conflicting paths and digests were not reported"),
"check all fixity blocks and ignore unknown fixity algorithms":("C06","wrong fixity digests were not reported; unknown algorithms were"),
"check the files of object, version and extension folders and the specification versions":("C05","stray or missing files and wrong declarations were not reported"),
"check the keys and types of inventories and empty content folders":("C06","missing or wrongly typed keys were not reported"),
"allow unused manifest digests in inventories of version 1.0":("C04","conformant 1.0 inventories were rejected"),
"continue objects with upper case digests":("C03","updates of objects with upper case digests wrote invalid inventories"),
"refuse versions which do not fit into the zero padding":("C03","v09 was followed by v010"),
"do not add missing users and messages to older versions":("C07","an update rewrote the metadata of older versions"),
"sort validation results consistently":("C24","panic / inconsistent order when sorting validation results"),
"keep the creation time of older versions as it is":("C07","an update rewrote creation times of older versions"),
"check the file name in sidecars exactly":("C05","a sidecar naming another file was accepted"),
"accept creation times of RFC 3339 only":("C06","creation times not conforming to RFC 3339 were accepted"),
}
KNOWN=[]
try:
    exec(open(V+"/mkknown_more.py").read())
except FileNotFoundError: pass
out=["# Genuine defects of je4/gocfl found by the checks.",
"# 'fixed:' entries are repaired by the named commit and suppress nothing.",
"# 'known:' entries are recorded, not repaired; the checks print KNOWN-FINDING for exactly these.",""]
log=subprocess.run(["git","-C",os.environ.get("VERIF_REPO","/repo"),"log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
miss=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "):continue
    s=s[5:]
    if s not in PROP: miss.append(s);continue
    out.append(f"fixed: property={PROP[s][0]} {h} {PROP[s][1]}")
out+=["known: property=%s %s"%k for k in KNOWN]
open(V+"/known-findings.txt","w").write("\n".join(out)+"\n")
print(len(out)-4,"fixed; missing:",miss)
