From 4d209bbdabbf6d99c1e933cbec42b009fcdfdf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 001/108] fix: create the parent folders of nested object paths

---
 pkg/ocfl/storagerootbase.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 988c00e..4715eed 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -390,6 +390,18 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	if err != nil {
+		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
+	}
+	// the filesystem creates only one level at a time
+	for pos, r := range folder {
+		if r != '/' || pos == 0 {
+			continue
+		}
+		if err := writefs.MkDir(osr.fsys, folder[:pos]); err != nil && !errors.Is(err, fs.ErrExist) {
+			return nil, errors.Wrapf(err, "cannot create folder '%s' in '%v'", folder[:pos], osr.fsys)
+		}
+	}
 	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
-- 
2.43.0


From c8ffb120bc862dc478d7611416764d3ef2739db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 002/108] fix: judge a logical path by the head state

AlreadyExists and IsUpdate looked at the last version which contained the
path, so a file deleted in an earlier version could not be added again, and
they failed for zero-padded version names.
---
 pkg/ocfl/inventorybase.go | 112 +++++++-------------------------------
 1 file changed, 20 insertions(+), 92 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a2e0784..ef9e34c 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -788,106 +788,34 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	}
 	return nil
 }
-func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
-	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
+// headDigest returns the digest a logical path has in the head version
+func (i *InventoryBase) headDigest(stateFilename string) (string, bool) {
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok || version.State == nil {
+		return "", false
 	}
-
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == stateFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
+	for cs, filenames := range version.State.State {
+		if slices.Contains(filenames, stateFilename) {
+			return cs, true
 		}
 	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
-	}
-	versions := []int{}
+	return "", false
+}
 
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, lastChecksum == checksum)
-	return lastChecksum == checksum, nil
+func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
+	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
+	headChecksum, ok := i.headDigest(stateFilename)
+	dup := ok && checksum != "" && headChecksum == checksum
+	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, dup)
+	return dup, nil
 }
 
 func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
 	i.logger.Debug().Msgf("'%s' [%s]", virtualFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
-		return false, nil
-	}
-
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == virtualFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
-		return false, nil
-	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, lastChecksum != checksum)
-	return lastChecksum != checksum, nil
+	headChecksum, ok := i.headDigest(virtualFilename)
+	upd := ok && checksum != "" && headChecksum != checksum
+	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, upd)
+	return upd, nil
 }
 
 func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
-- 
2.43.0


From c3502a3eeda06b862dca5e5d85eada344d83324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 003/108] fix: keep one state entry per logical path

Deleting and renaming left empty path lists in the state, renaming onto an
existing path and deduplicated replacement left the old entry in place.
---
 pkg/ocfl/inventorybase.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index ef9e34c..afd1f5d 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -788,6 +788,7 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	}
 	return nil
 }
+
 // headDigest returns the digest a logical path has in the head version
 func (i *InventoryBase) headDigest(stateFilename string) (string, bool) {
 	version, ok := i.Versions.Versions[i.GetHead()]
@@ -852,7 +853,6 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 	var newState = map[string][]string{}
 	var found = false
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
 		for _, val := range state {
 			if val == stateFilename {
 				found = true
@@ -871,23 +871,21 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 
 func (i *InventoryBase) RenameFile(stateSource, stateDest string) error {
 	var newState = map[string][]string{}
-	var found = false
+	if _, found := i.headDigest(stateSource); !found || stateSource == stateDest {
+		return nil
+	}
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
 		for _, val := range state {
 			if val == stateSource {
 				newState[key] = append(newState[key], stateDest)
-				found = true
-			} else {
+			} else if val != stateDest {
 				newState[key] = append(newState[key], val)
 			}
 		}
 	}
 	i.Versions.Versions[i.GetHead()].State.State = newState
-	if found {
-		i.modified = found
-		i.logger.Info().Msgf("[%s] rename '%s' to '%s' in state", i.GetID(), stateSource, stateDest)
-	}
+	i.modified = true
+	i.logger.Info().Msgf("[%s] rename '%s' to '%s' in state", i.GetID(), stateSource, stateDest)
 	return nil
 }
 
@@ -901,6 +899,10 @@ func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	if slices.Contains(i.Versions.Versions[i.Head.string].State.State[digest], dest) {
 		return nil
 	}
+	// dest may have other content until now
+	if err := i.DeleteFile(dest); err != nil {
+		return errors.Wrapf(err, "cannot delete old version of '%s'", dest)
+	}
 	i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], dest)
 	i.modified = true
 	return nil
-- 
2.43.0


From 2be2b06700fc1b38ed6763c633abf37372c09a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 004/108] fix: list added content once and store the version
 which holds it

A file added with several state names was listed repeatedly, and content
stored without a change of the state left a version folder without inventory.
---
 pkg/ocfl/inventorybase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index afd1f5d..90c3dd9 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -949,7 +949,10 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			if _, ok := i.Manifest.Manifest[digest]; !ok {
 				i.Manifest.Manifest[digest] = []string{}
 			}
-			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+			if !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+				i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+				i.modified = true
+			}
 		}
 
 		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
-- 
2.43.0


From 67e7d2b4fe262f56a09866546f99bb06f196aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 005/108] fix: apply echo deletions also when nothing was added

EndUpdate returned before removing files which are missing in the source,
files of an earlier update of the same handle counted as present, and the
area prefix matched sibling folders with the same beginning.
---
 pkg/ocfl/inventorybase.go |  2 +-
 pkg/ocfl/objectbase.go    | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 90c3dd9..815b8bb 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -832,7 +832,7 @@ func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
 		}
 	}
 	for _, filename := range statefiles {
-		if !strings.HasPrefix(filename, pathPrefix) {
+		if pathPrefix != "" && !strings.HasPrefix(filename, strings.TrimSuffix(pathPrefix, "/")+"/") {
 			continue
 		}
 		if _, found := slices.BinarySearch(existing, filename); !found {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9269f88..4b08811 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -547,6 +547,7 @@ func (object *ObjectBase) Close() error {
 func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName string, UserAddress string, echo bool) (fs.FS, error) {
 	object.logger.Debug().Msgf("'%s' / '%s' / '%s'", msg, UserName, UserAddress)
 	object.echo = echo
+	object.updateFiles = []string{}
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
@@ -570,16 +571,16 @@ func (object *ObjectBase) EndUpdate() error {
 		object.logger.Warn().Msgf(fmt.Sprintf("object '%s' not writeable", object.GetID()))
 		return nil
 	}
-	if !(object.i.IsModified()) {
-		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
-		return nil
-	}
-
 	if object.echo {
 		if err := object.echoDelete(); err != nil {
 			return errors.Wrap(err, "cannot delete files")
 		}
 	}
+	if !(object.i.IsModified()) {
+		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
+		return nil
+	}
+
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
-- 
2.43.0


From f9a4db78706178f725c4e21ac4c0cce486f78d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 006/108] fix: store the inventory of a new object without
 content

---
 pkg/ocfl/inventorybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 815b8bb..5fd1b77 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -113,6 +113,8 @@ func (i *InventoryBase) Init(id string, digest checksum.DigestAlgorithm, fixity
 	i.Id = id
 	i.DigestAlgorithm = digest
 	i.fixityDigestAlgorithms = fixity
+	// a new inventory has to be stored, even if the first version stays empty
+	i.modified = true
 	return nil
 }
 func (i *InventoryBase) Finalize(inCreation bool) (err error) {
-- 
2.43.0


From 2bf0b62ac7724f9609dc05e22e3fb848919639b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 007/108] fix: load storage roots and objects with missing or
 unknown extension folders

A missing extensions folder, an extension folder without usable config.json
and a folder named differently from its extension made loading fail or panic,
as did an error while creating the folders.
---
 pkg/extension/NNNN-gocfl-extension-manager.go | 40 +++++++++++--------
 pkg/ocfl/extensionFactory.go                  | 24 +++++++++--
 pkg/ocfl/objectbase.go                        |  2 +-
 pkg/ocfl/storageroot.go                       |  4 +-
 pkg/ocfl/storagerootbase.go                   |  4 +-
 5 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index fddb639..9fae3f5 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -73,6 +73,7 @@ type GOCFLExtensionManager struct {
 	stream             []ocfl.ExtensionStream
 	newVersion         []ocfl.ExtensionNewVersion
 	fsys               fs.FS
+	fsErr              error
 	initial            ocfl.ExtensionInitial
 }
 
@@ -158,31 +159,33 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 	if fsys == nil {
 		return
 	}
+	manager.fsErr = nil
 	for _, ext := range append(manager.extensions, manager.initial) {
 		if ext == nil {
 			continue
 		}
-		extFS, err := fs.Sub(fsys, ext.GetName())
-		if err != nil {
-			if create && errors.Is(err, fs.ErrNotExist) {
-				extFS, err = writefs.SubFSCreate(fsys, ext.GetName())
-			}
-			if err != nil {
-				panic(err)
-			}
+		if extFS := manager.subFS(fsys, ext.GetName(), create); extFS != nil {
+			ext.SetFS(extFS, create)
 		}
-		ext.SetFS(extFS, create)
 	}
-	var err error
-	manager.fsys, err = fs.Sub(fsys, manager.GetName())
-	if err != nil {
-		if create && errors.Is(err, fs.ErrNotExist) {
-			manager.fsys, err = writefs.SubFSCreate(fsys, manager.GetName())
-		}
-		if err != nil {
-			panic(err)
+	manager.fsys = manager.subFS(fsys, manager.GetName(), create)
+}
+
+// subFS returns the folder of an extension or nil, if there is none. Errors
+// are kept for WriteConfig(), because SetFS() cannot report them.
+func (manager *GOCFLExtensionManager) subFS(fsys fs.FS, name string, create bool) fs.FS {
+	extFS, err := fs.Sub(fsys, name)
+	if err != nil && errors.Is(err, fs.ErrNotExist) {
+		if !create {
+			return nil
 		}
+		extFS, err = writefs.SubFSCreate(fsys, name)
+	}
+	if err != nil {
+		manager.fsErr = errors.Append(manager.fsErr, errors.Wrapf(err, "cannot open folder of extension '%s'", name))
+		return nil
 	}
+	return extFS
 }
 
 func (manager *GOCFLExtensionManager) GetFSName(extName string) (fs.FS, error) {
@@ -288,6 +291,9 @@ func (manager *GOCFLExtensionManager) GetName() string {
 	return GOCFLExtensionManagerName
 }
 func (manager *GOCFLExtensionManager) WriteConfig() error {
+	if manager.fsErr != nil {
+		return errors.WithStack(manager.fsErr)
+	}
 	for _, ext := range append(manager.extensions, manager.initial) {
 		if err := ext.WriteConfig(); err != nil {
 			return errors.Wrapf(err, "cannot store '%s'", ext.GetName())
diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8ecca6e..7fcc17b 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -76,9 +76,14 @@ func (f *ExtensionFactory) create(fsys fs.FS, data []byte) (Extension, error) {
 
 func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (ExtensionManager, error) {
 	var errs = []error{}
-	files, err := fs.ReadDir(fsys, ".")
-	if err != nil {
-		return nil, errors.Wrap(err, "cannot read folder storageroot")
+	var files []fs.DirEntry
+	// without extensions folder there are no extensions
+	if fsys != nil {
+		var err error
+		files, err = fs.ReadDir(fsys, ".")
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrap(err, "cannot read folder storageroot")
+		}
 	}
 	var result = []Extension{}
 	for _, file := range files {
@@ -94,7 +99,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		ext, err := f.Create(sub)
 		if err != nil {
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-			validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			if validation != nil {
+				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			}
 		} else {
 			if !ext.IsRegistered() {
 				if validation != nil {
@@ -211,6 +218,15 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 	return manager, errors.Combine(errs...)
 }
 
+// extensionsFS returns the extensions folder or nil, if there is none
+func extensionsFS(fsys fs.FS) (fs.FS, error) {
+	extFSys, err := fs.Sub(fsys, "extensions")
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil, nil
+	}
+	return extFSys, errors.WithStack(err)
+}
+
 func (f *ExtensionFactory) LoadExtensions(fsys fs.FS, validation Validation) (ExtensionManager, error) {
 	manager, err := f.CreateExtensions(fsys, validation)
 	if err != nil {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 4b08811..5e8dbbd 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -482,7 +482,7 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 }
 
 func (object *ObjectBase) Load() (err error) {
-	extFolder, err := fs.Sub(object.fsys, "extensions")
+	extFolder, err := extensionsFS(object.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
 	}
diff --git a/pkg/ocfl/storageroot.go b/pkg/ocfl/storageroot.go
index 085e8ee..7480228 100644
--- a/pkg/ocfl/storageroot.go
+++ b/pkg/ocfl/storageroot.go
@@ -109,7 +109,7 @@ func LoadStorageRoot(ctx context.Context, fsys fs.FS, extensionFactory *Extensio
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
@@ -145,7 +145,7 @@ func LoadStorageRootRO(ctx context.Context, fsys fs.FS, extensionFactory *Extens
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 4715eed..3f70eee 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -174,7 +174,7 @@ func (osr *StorageRootBase) Load() error {
 		osr.version = Version1_0
 	}
 
-	extFSys, err := fs.Sub(osr.fsys, "extensions")
+	extFSys, err := extensionsFS(osr.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for extensions", osr.fsys)
 	}
@@ -340,7 +340,7 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
 	}
-	extFSys, err := fs.Sub(subfs, "extensions")
+	extFSys, err := extensionsFS(subfs)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", subfs, "extensions")
 	}
-- 
2.43.0


From 6a836a0dc6078f21b89f4fc88550f88be018e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 008/108] fix: store the configuration of an extension manager
 without rules

Its folder was created but stayed empty, so the extension could not be
loaded again.
---
 pkg/extension/NNNN-gocfl-extension-manager.go | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 9fae3f5..357fe46 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -300,17 +300,15 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	if len(manager.Exclusion) != 0 || len(manager.Sort) != 0 {
-		configWriter, err := writefs.Create(manager.fsys, "config.json")
-		if err != nil {
-			return errors.Wrap(err, "cannot open config.json")
-		}
-		defer configWriter.Close()
-		jenc := json.NewEncoder(configWriter)
-		jenc.SetIndent("", "   ")
-		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-			return errors.Wrapf(err, "cannot encode config to file")
-		}
+	configWriter, err := writefs.Create(manager.fsys, "config.json")
+	if err != nil {
+		return errors.Wrap(err, "cannot open config.json")
+	}
+	defer configWriter.Close()
+	jenc := json.NewEncoder(configWriter)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
 }
-- 
2.43.0


From 2c95ac7afb64fc6b81aedd47148b678e28555150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 009/108] fix: order unlisted extensions last and independent
 of the order of adding

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 76 +++++++------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 357fe46..6612757 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -197,67 +197,47 @@ func (manager *GOCFLExtensionManager) GetFSName(extName string) (fs.FS, error) {
 	return nil, errors.Errorf("extension '%s' not active", extName)
 }
 
-func sortExtensions[E ocfl.Extension](list []E, sortName []string) {
-	sortFunc := func(aExt, bExt E) int {
-		aName := aExt.GetName()
-		bName := bExt.GetName()
-		var aNum, bNum int
-		for num, name := range sortName {
-			if name == aName {
-				aNum = num
-			}
-			if name == bName {
-				bNum = num
-			}
-		}
-		return cmp.Compare(aNum, bNum)
+// rank of an extension in a list of names, unlisted ones are last
+func extensionRank(ext ocfl.Extension, names []string) int {
+	if num := slices.Index(names, ext.GetName()); num >= 0 {
+		return num
 	}
-	slices.SortFunc(list, sortFunc)
+	return len(names)
+}
+
+func sortExtensions[E ocfl.Extension](list []E, sortName []string) {
+	slices.SortStableFunc(list, func(aExt, bExt E) int {
+		return cmp.Compare(extensionRank(aExt, sortName), extensionRank(bExt, sortName))
+	})
 }
 
 func excludeExtensions[E ocfl.Extension](list []E, exclusionSort []string) []E {
-	sortFunc := func(aExt, bExt E) int {
-		aName := aExt.GetName()
-		bName := bExt.GetName()
-		var aNum, bNum int
-		for num, name := range exclusionSort {
-			if name == aName {
-				aNum = num
-			}
-			if name == bName {
-				bNum = num
-			}
-		}
-		return cmp.Compare(aNum, bNum)
+	// find the member of the group which stays
+	best := len(exclusionSort)
+	for _, entry := range list {
+		best = min(best, extensionRank(entry, exclusionSort))
 	}
-	// first sort list
-	slices.SortFunc(list, sortFunc)
 
-	// find out, which have to be deleted
-	var first = true
-	var remove = []int{}
-	for num, entry := range list {
-		if slices.Contains(exclusionSort, entry.GetName()) {
-			if first {
-				first = false
-				continue
-			}
-			remove = append(remove, num)
+	// delete the other members of the group
+	first := true
+	return slices.DeleteFunc(list, func(entry E) bool {
+		rank := extensionRank(entry, exclusionSort)
+		if rank == best && first {
+			first = false
+			return false
 		}
-	}
-
-	// delete the remove-list from back
-	// todo: check garbage collector behaviour
-	for i := len(remove) - 1; i >= 0; i-- {
-		list = slices.Delete(list, remove[i], remove[i]+1)
-	}
-	return list
+		return rank < len(exclusionSort)
+	})
 }
 
 func organize[E ocfl.Extension](manager *GOCFLExtensionManager, list []E, name string) []E {
 	if len(list) == 0 {
 		return list
 	}
+	// the result must not depend on the order in which the extensions were added
+	slices.SortStableFunc(list, func(aExt, bExt E) int {
+		return cmp.Compare(aExt.GetName(), bExt.GetName())
+	})
 	if excludes, ok := manager.Exclusion[name]; ok {
 		for _, exclude := range excludes {
 			list = excludeExtensions(list, exclude)
-- 
2.43.0


From 21361631245464bd15486fc7da5712cacda4bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 010/108] fix: keep the fixity algorithms of an object with an
 empty first version

---
 pkg/ocfl/inventorybase.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 5fd1b77..5eed155 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -113,6 +113,16 @@ func (i *InventoryBase) Init(id string, digest checksum.DigestAlgorithm, fixity
 	i.Id = id
 	i.DigestAlgorithm = digest
 	i.fixityDigestAlgorithms = fixity
+	// the algorithms have to be known after loading, even if the first version stays empty
+	for _, alg := range fixity {
+		if alg == digest {
+			continue
+		}
+		if i.Fixity == nil {
+			i.Fixity = map[checksum.DigestAlgorithm]map[string][]string{}
+		}
+		i.Fixity[alg] = map[string][]string{}
+	}
 	// a new inventory has to be stored, even if the first version stays empty
 	i.modified = true
 	return nil
-- 
2.43.0


From 5040c53a56d878bd91fa79f7a04dd4e829e77ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 011/108] fix: report errors when closing stored configurations

---
 pkg/extension/0001-digest-algorithms.go       | 13 +--------
 .../0002-flat-direct-storage-layout.go        | 27 +++----------------
 ...0003-hash-and-id-n-tuple-storage-layout.go | 27 +++----------------
 .../0004-hashed-n-tuple-storage-layout.go     | 27 +++----------------
 .../0006-flat-omit-prefix-storage-layout.go   | 27 +++----------------
 ...0007-n-tuple-omit-prefix-storage-layout.go | 27 +++----------------
 pkg/extension/NNNN-content-subpath.go         | 14 +---------
 .../NNNN-direct-clean-path-layout.go          | 27 +++----------------
 pkg/extension/NNNN-filesystem.go              | 12 +--------
 pkg/extension/NNNN-gocfl-extension-manager.go | 26 +++---------------
 pkg/extension/NNNN-indexer.go                 | 13 +--------
 pkg/extension/NNNN-metafile.go                | 13 +--------
 pkg/extension/NNNN-mets.go                    | 13 +--------
 pkg/extension/NNNN-pairtree-storage-layout.go | 27 +++----------------
 pkg/extension/NNNN-thumbnail.go               | 12 +--------
 pkg/extension/config.go                       | 22 ++++++++++++++-
 pkg/extension/initial.go                      | 14 +---------
 pkg/extension/pathdirect.go                   | 27 +++----------------
 18 files changed, 56 insertions(+), 312 deletions(-)

diff --git a/pkg/extension/0001-digest-algorithms.go b/pkg/extension/0001-digest-algorithms.go
index 5fbcd1b..07e9f19 100644
--- a/pkg/extension/0001-digest-algorithms.go
+++ b/pkg/extension/0001-digest-algorithms.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"io"
@@ -92,17 +91,7 @@ func (sl *DigestAlgorithms) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0002-flat-direct-storage-layout.go b/pkg/extension/0002-flat-direct-storage-layout.go
index bd6b470..92a0628 100644
--- a/pkg/extension/0002-flat-direct-storage-layout.go
+++ b/pkg/extension/0002-flat-direct-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -79,37 +78,17 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (sl *StorageLayoutFlatDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 30f8dc5..bdf61d8 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -101,17 +100,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func shouldEscape(c rune) bool {
@@ -159,23 +148,13 @@ func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.St
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutHashAndIdNTupleName,
 		Description: StorageLayoutHashAndIdNTupleDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 135b62d..ecd0e3d 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -100,17 +99,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
@@ -136,23 +125,13 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 }
 
 func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutHashedNTupleName,
 		Description: StorageLayoutHashedNTupleDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 72b359e..0c416af 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -81,37 +80,17 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   FlatOmitPrefixStorageLayoutName,
 		Description: FlatOmitPrefixStorageLayoutDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 108a854..3e2b0e6 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -101,37 +100,17 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   NTupleOmitPrefixStorageLayoutName,
 		Description: NTupleOmitPrefixStorageLayoutDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 00387bc..edc7bd3 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/atsushinee/go-markdown-generator/doc"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -109,18 +108,7 @@ func (sl *ContentSubPath) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ContentSubPathConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ContentSubPathConfig))
 }
 
 func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6df6262..b76eceb 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -5,7 +5,6 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"golang.org/x/exp/constraints"
@@ -158,37 +157,17 @@ func (sl *DirectClean) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.DirectCleanConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.DirectCleanConfig))
 }
 
 func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   PathDirectName,
 		Description: DirectCleanDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 // interface
diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index f1db651..fcc3cab 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -331,17 +331,7 @@ func (extFS *Filesystem) WriteConfig() error {
 	if extFS.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(extFS.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(extFS.FilesystemConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(extFS.fsys, "config.json", extFS.FilesystemConfig))
 
 }
 
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 6612757..932e571 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -280,17 +280,7 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	configWriter, err := writefs.Create(manager.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(manager.fsys, "config.json", manager.ExtensionManagerConfig))
 }
 
 // StorageRootPath
@@ -323,23 +313,13 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if len(manager.storageRootPath) == 1 {
 		return manager.storageRootPath[0].WriteLayout(fsys)
 	}
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   GOCFLExtensionManagerName,
 		Description: GOCFLExtensionManagerDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (manager *GOCFLExtensionManager) SetParams(params map[string]string) error {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 856f2c6..3928433 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -8,7 +8,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/andybalholm/brotli"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
 	"github.com/je4/utils/v2/pkg/zLogger"
@@ -206,17 +205,7 @@ func (sl *Indexer) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.IndexerConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.IndexerConfig))
 }
 
 func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 32629f0..f6435d6 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -158,18 +158,7 @@ func (sl *MetaFile) WriteConfig() error {
 	if _, err := writefs.WriteFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
 		return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.MetaFileConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.MetaFileConfig))
 }
 
 func toStringKeys(val interface{}) (interface{}, error) {
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a98494b..b579194 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -155,18 +155,7 @@ func (me *Mets) WriteConfig() error {
 	if me.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(me.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot create config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(me.MetsConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return errors.WithStack(writeJSON(me.fsys, "config.json", me.MetsConfig))
 }
 
 func (me *Mets) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 611db44..3f0a2a7 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -51,23 +50,13 @@ func (sl *StorageLayoutPairTree) IsRegistered() bool {
 }
 
 func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (sl *StorageLayoutPairTree) SetFS(fsys fs.FS, create bool) {
@@ -124,17 +113,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
 }
 
 func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b86a0c0..f36a08e 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -164,17 +164,7 @@ func (thumb *Thumbnail) WriteConfig() error {
 	if thumb.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(thumb.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(thumb.ThumbnailConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(thumb.fsys, "config.json", thumb.ThumbnailConfig))
 }
 
 func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io.ReadCloser) (target string, digest string, err error) {
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 27f4f92..9b0895a 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -1,9 +1,29 @@
 package extension
 
-import "emperror.dev/errors"
+import (
+	"emperror.dev/errors"
+	"encoding/json"
+	"github.com/je4/filesystem/v3/pkg/writefs"
+	"io/fs"
+)
 
 var ErrNotSupported = errors.New("extension not supported")
 
 type Config struct {
 	ExtensionName string `json:"extensionName"`
 }
+
+// writeJSON stores a value as an indented json file
+func writeJSON(fsys fs.FS, name string, value any) error {
+	writer, err := writefs.Create(fsys, name)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create '%v/%s'", fsys, name)
+	}
+	jenc := json.NewEncoder(writer)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(value); err != nil {
+		writer.Close()
+		return errors.Wrapf(err, "cannot encode '%v/%s'", fsys, name)
+	}
+	return errors.Wrapf(writer.Close(), "cannot close '%v/%s'", fsys, name)
+}
diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 4bd7c64..c40faf1 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -114,18 +113,7 @@ func (sl *Initial) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.InitialConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.InitialConfig))
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 4e245c5..e388b06 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -73,40 +72,20 @@ func (sl *PathDirect) SetParams(params map[string]string) error {
 func (sl *PathDirect) GetName() string { return PathDirectName }
 
 func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return errors.WithStack(writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	}))
 }
 
 func (sl *PathDirect) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.PathDirectConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.PathDirectConfig))
 }
 
 func (sl *PathDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-- 
2.43.0


From 5794b87678ef20b03aa27ce7fc1d808bdf114f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 012/108] fix: store the parameters of the storage layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 2 +-
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 2 +-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index bdf61d8..46313b0 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -100,7 +100,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.StorageLayoutHashAndIdNTupleConfig))
 }
 
 func shouldEscape(c rune) bool {
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index ecd0e3d..864aaea 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -99,7 +99,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.StorageLayoutHashedNTupleConfig))
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 0c416af..375f9b3 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -80,7 +80,7 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.FlatOmitPrefixStorageLayoutConfig))
 }
 
 func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 3e2b0e6..5dc0ebb 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -100,7 +100,7 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.NTupleOmitPrefixStorageLayoutConfig))
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 3f0a2a7..c9148ec 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -113,7 +113,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.ExtensionConfig))
+	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.StorageLayoutPairTreeConfig))
 }
 
 func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-- 
2.43.0


From 776472845ed8af0ccd66202bab8d52eb87e8d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 013/108] fix: name the layout in use in ocfl_layout.json

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go  | 5 +++--
 pkg/extension/pathdirect.go                    | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index b76eceb..e4714e7 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -165,7 +165,7 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   PathDirectName,
+		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
 	}))
 }
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index c9148ec..3715b74 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -14,6 +14,7 @@ import (
 )
 
 const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
+const StorageLayoutPairTreeDescription = "pairtree-like root directory structure derived from encoded object identifiers"
 
 /*
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
@@ -54,8 +55,8 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   StorageLayoutPairTreeName,
+		Description: StorageLayoutPairTreeDescription,
 	}))
 }
 
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index e388b06..465c84f 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -10,6 +10,7 @@ import (
 )
 
 const PathDirectName = "NNNN-direct-path-layout"
+const PathDirectDescription = "one to one mapping of paths without changes"
 
 func NewPathDirectFS(fsys fs.FS) (ocfl.Extension, error) {
 	fp, err := fsys.Open("config.json")
@@ -76,8 +77,8 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   PathDirectName,
+		Description: PathDirectDescription,
 	}))
 }
 
-- 
2.43.0


From 5befdf136f1f45fbd3a6a2e3308351a5d5f66c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 014/108] fix: escape control characters and check parameters
 in the hashed layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 7 +++++--
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 46313b0..f5166c1 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -25,7 +25,7 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashAndIdNTupleConfig{}
+	var config = &StorageLayoutHashAndIdNTupleConfig{DigestAlgorithm: string(checksum.DigestSHA256), TupleSize: 3, NumberOfTuples: 3}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -34,6 +34,9 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 
 func NewStorageLayoutHashAndIdNTuple(config *StorageLayoutHashAndIdNTupleConfig) (*StorageLayoutHashAndIdNTuple, error) {
 	var err error
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tupleSize %d or numberOfTuples %d", config.TupleSize, config.NumberOfTuples)
+	}
 	if config.NumberOfTuples > 32 {
 		config.NumberOfTuples = 32
 	}
@@ -119,7 +122,7 @@ func escape(str string) string {
 			continue
 		}
 		result = append(result, '%')
-		result = append(result, fmt.Sprintf("%x", c)...)
+		result = append(result, fmt.Sprintf("%02x", c)...)
 	}
 	return string(result)
 }
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 864aaea..3040af1 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -25,7 +25,7 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashedNTupleConfig{}
+	var config = &StorageLayoutHashedNTupleConfig{DigestAlgorithm: string(checksum.DigestSHA256), TupleSize: 3, NumberOfTuples: 3}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -34,6 +34,9 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 
 func NewStorageLayoutHashedNTuple(config *StorageLayoutHashedNTupleConfig) (*StorageLayoutHashedNTuple, error) {
 	var err error
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tupleSize %d or numberOfTuples %d", config.TupleSize, config.NumberOfTuples)
+	}
 	if config.NumberOfTuples > 32 {
 		config.NumberOfTuples = 32
 	}
@@ -117,6 +120,9 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 		dirparts = append(dirparts, digest[i*sl.TupleSize:(i+1)*sl.TupleSize])
 	}
 	if sl.ShortObjectRoot {
+		if len(digest) == sl.TupleSize*sl.NumberOfTuples {
+			return "", errors.Errorf("no characters of digest %s left for short object root after %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize)
+		}
 		dirparts = append(dirparts, digest[sl.NumberOfTuples*sl.TupleSize:])
 	} else {
 		dirparts = append(dirparts, digest)
-- 
2.43.0


From d21bef924a5957885ba78c98abf003be052e0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 015/108] fix: make the digests of storage layouts safe for
 concurrent use

---
 ...0003-hash-and-id-n-tuple-storage-layout.go | 24 ++++++++++++++-----
 .../0004-hashed-n-tuple-storage-layout.go     | 22 +++++++++++++----
 .../NNNN-direct-clean-path-layout.go          |  3 +--
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index f5166c1..9e63343 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -10,6 +10,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashAndIdNTupleName = "0003-hash-and-id-n-tuple-storage-layout"
@@ -67,8 +68,9 @@ type StorageLayoutHashAndIdNTupleConfig struct {
 
 type StorageLayoutHashAndIdNTuple struct {
 	*StorageLayoutHashAndIdNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) Terminate() error {
@@ -127,14 +129,24 @@ func escape(str string) string {
 	return string(result)
 }
 
-func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-	path := escape(id)
+// digest returns the lower case hex digest of the identifier
+func (sl *StorageLayoutHashAndIdNTuple) digest(id string) (string, error) {
+	// internal mutex for reusing the hash object
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
 	}
-	digestBytes := sl.hash.Sum(nil)
-	digest := fmt.Sprintf("%x", digestBytes)
+	return fmt.Sprintf("%x", sl.hash.Sum(nil)), nil
+}
+
+func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	path := escape(id)
+	digest, err := sl.digest(id)
+	if err != nil {
+		return "", err
+	}
 	if len(digest) < sl.TupleSize*sl.NumberOfTuples {
 		return "", errors.New(fmt.Sprintf("digest %s to short for %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize))
 	}
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 3040af1..f6c1eaa 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -10,6 +10,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashedNTupleName = "0004-hashed-n-tuple-storage-layout"
@@ -68,8 +69,9 @@ type StorageLayoutHashedNTupleConfig struct {
 
 type StorageLayoutHashedNTuple struct {
 	*StorageLayoutHashedNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashedNTuple) Terminate() error {
@@ -105,13 +107,23 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.StorageLayoutHashedNTupleConfig))
 }
 
-func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+// digest returns the lower case hex digest of the identifier
+func (sl *StorageLayoutHashedNTuple) digest(id string) (string, error) {
+	// internal mutex for reusing the hash object
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
 	}
-	digestBytes := sl.hash.Sum(nil)
-	digest := fmt.Sprintf("%x", digestBytes)
+	return fmt.Sprintf("%x", sl.hash.Sum(nil)), nil
+}
+
+func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	digest, err := sl.digest(id)
+	if err != nil {
+		return "", err
+	}
 	if len(digest) < sl.TupleSize*sl.NumberOfTuples {
 		return "", errors.New(fmt.Sprintf("digest %s to short for %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize))
 	}
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index e4714e7..6c8c983 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -190,10 +190,9 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 		sl.hashMutex.Unlock()
 		return "", errors.Wrapf(err, "cannot hash path '%s'", fname)
 	}
-	sl.hashMutex.Unlock()
-
 	// get digest and encode it
 	digestString := hex.EncodeToString(sl.hash.Sum(nil))
+	sl.hashMutex.Unlock()
 
 	// check whether digest fits in filename length
 	parts := len(digestString) / sl.MaxPathSegmentLen
-- 
2.43.0


From dc52758b28a2acae2f861ea840f7de3cf2c0bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 016/108] fix: follow the rules of the omit-prefix layouts for
 delimiters and parameters

---
 .../0006-flat-omit-prefix-storage-layout.go   | 20 +++++++++++++++++--
 ...0007-n-tuple-omit-prefix-storage-layout.go | 17 ++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 375f9b3..ceb29ee 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -24,7 +24,7 @@ func NewFlatOmitPrefixStorageLayoutFS(fsys fs.FS) (*FlatOmitPrefixStorageLayout,
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &FlatOmitPrefixStorageLayoutConfig{}
+	var config = &FlatOmitPrefixStorageLayoutConfig{Delimiter: ":"}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -35,9 +35,22 @@ func NewFlatOmitPrefixStorageLayout(config *FlatOmitPrefixStorageLayoutConfig) (
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.Delimiter == "" {
+		return nil, errors.New("no delimiter")
+	}
 	return sl, nil
 }
 
+// lastIndexFold returns the index of the last instance of substr in s, ignoring case, or -1
+func lastIndexFold(s, substr string) int {
+	for i := len(s) - len(substr); i >= 0; i-- {
+		if strings.EqualFold(s[i:i+len(substr)], substr) {
+			return i
+		}
+	}
+	return -1
+}
+
 type FlatOmitPrefixStorageLayoutConfig struct {
 	*ocfl.ExtensionConfig
 	Delimiter string `json:"delimiter"`
@@ -94,10 +107,13 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-	last := strings.LastIndex(id, sl.Delimiter)
+	last := lastIndexFold(id, sl.Delimiter)
 	if last < 0 {
 		return id, nil
 	}
+	if last+len(sl.Delimiter) == len(id) {
+		return "", errors.Errorf("delimiter '%s' at the end of id '%s'", sl.Delimiter, id)
+	}
 	return id[last+len(sl.Delimiter):], nil
 }
 
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 5dc0ebb..87a9294 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -39,7 +39,7 @@ func NewNTupleOmitPrefixStorageLayoutFS(fsys fs.FS) (*NTupleOmitPrefixStorageLay
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &NTupleOmitPrefixStorageLayoutConfig{}
+	var config = &NTupleOmitPrefixStorageLayoutConfig{Delimiter: ":", TupleSize: 3, NumberOfTuples: 3}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -50,6 +50,16 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+		return nil, errors.Errorf("invalid tupleSize %d or numberOfTuples %d", config.TupleSize, config.NumberOfTuples)
+	}
+	switch config.ZeroPadding {
+	case "":
+		config.ZeroPadding = "left"
+	case "left", "right":
+	default:
+		return nil, errors.Errorf("invalid zeroPadding '%s'", config.ZeroPadding)
+	}
 	return sl, nil
 }
 
@@ -118,8 +128,11 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	  1) Remove the prefix, which is everything to the left of the right-most instance of the delimiter, as well as the delimiter. If there is no delimiter, the whole id is used; if the delimiter is found at the end, an error is thrown.
 	*/
 	if sl.Delimiter != "" {
-		last := strings.LastIndex(id, sl.Delimiter)
+		last := lastIndexFold(id, sl.Delimiter)
 		if last >= 0 {
+			if last+len(sl.Delimiter) == len(id) {
+				return "", errors.Errorf("delimiter '%s' at the end of id '%s'", sl.Delimiter, id)
+			}
 			id = id[last+len(sl.Delimiter):]
 		}
 	}
-- 
2.43.0


From 65535196fc414b5cb681b4c2cc24f39f60e9bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 017/108] fix: encode pairtree identifiers without collisions

---
 pkg/extension/NNNN-pairtree-storage-layout.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 3715b74..87a8123 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -20,7 +20,7 @@ const StorageLayoutPairTreeDescription = "pairtree-like root directory structure
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
 */
 
-var rareChars = []rune{'"', '*', '+', 'c', '<', '=', '>', '?', '^', '|'}
+var rareChars = []rune{'"', '*', '+', ',', '<', '=', '>', '?', '\\', '^', '|'}
 
 var convert = map[rune]rune{
 	'/': '=',
@@ -92,6 +92,9 @@ func NewStorageLayoutPairTreeFS(fsys fs.FS) (*StorageLayoutPairTree, error) {
 func NewStorageLayoutPairTree(config *StorageLayoutPairTreeConfig) (*StorageLayoutPairTree, error) {
 	sl := &StorageLayoutPairTree{StorageLayoutPairTreeConfig: config}
 	var err error
+	if config.ShortyLength < 1 {
+		return nil, errors.Errorf("invalid shortyLength %d", config.ShortyLength)
+	}
 	if sl.hash, err = checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
 		return nil, errors.Wrapf(err, "hash'%s'not found", config.DigestAlgorithm)
 	}
@@ -147,8 +150,10 @@ func (sl *StorageLayoutPairTree) idEncode(str string) string {
 		if isVisible {
 			result = append(result, c)
 		} else {
-			result = append(result, '^')
-			result = append(result, []rune(fmt.Sprintf("%x", c))...)
+			// every byte of the utf-8 representation is encoded
+			for _, b := range []byte(string(c)) {
+				result = append(result, []rune(fmt.Sprintf("^%02x", b))...)
+			}
 		}
 	}
 	str = string(result)
-- 
2.43.0


From db3af3d8874a6b72cce1a418d6f2c1e06011efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 018/108] fix: keep trailing punctuation in direct-clean paths

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6c8c983..c1f2f99 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -24,7 +24,7 @@ var directCleanRuleAll = regexp.MustCompile("[\u0000-\u001f\u007f\u0020\u0085\u0
 var directCleanRuleWhitespace = regexp.MustCompile("[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]")
 var directCleanRuleEqual = regexp.MustCompile("=(u[a-zA-Z0-9]{4})")
 var directCleanRule_1_5 = regexp.MustCompile("[\u0000-\u001F\u007F\n\r\t*?:\\[\\]\"<>|(){}&'!\\;#@]")
-var directCleanRule_2_4_6 = regexp.MustCompile("^[\\-~\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*(.*?)[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u20a0\u2028\u2029\u202f\u205f\u3000]*$")
+var directCleanRule_2_4_6 = regexp.MustCompile("^[\\-~\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*(.*?)[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*$")
 var directCleanRulePeriods = regexp.MustCompile("^\\.+$")
 
 var directCleanErrFilenameTooLong = errors.New("filename too long")
-- 
2.43.0


From d437b823d1eeb7dc560fd471f01c7ed8bf88e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 019/108] fix: build the fallback folders of direct-clean paths
 as documented

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index c1f2f99..bca70cb 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -93,6 +93,10 @@ func NewDirectClean(config *DirectCleanConfig) (ocfl.Extension, error) {
 	if sl.hash, err = checksum.GetHash(config.FallbackDigestAlgorithm); err != nil {
 		return nil, errors.Wrapf(err, "hash %s not supported", config.FallbackDigestAlgorithm)
 	}
+	if config.MaxPathnameLen < 0 || config.MaxPathSegmentLen < 0 || config.NumberOfFallbackTuples < 0 || config.FallbackTupleSize < 0 ||
+		config.NumberOfFallbackTuples*max(config.FallbackTupleSize, 1) >= 2*sl.hash.Size() {
+		return nil, errors.Errorf("invalid length or fallback tuple parameters for extension %s", sl.GetName())
+	}
 
 	return sl, nil
 }
@@ -207,9 +211,12 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 	}
 
 	// add all necessary subfolders
-	for i := 0; i < sl.NumberOfFallbackTuples; i++ {
-		// paranoia, but safe
-		result = filepath.Join(string(([]rune(digestString))[sl.NumberOfFallbackTuples-i-1:sl.NumberOfFallbackTuples-i-1+sl.FallbackTupleSize]), result)
+	tupleSize := sl.FallbackTupleSize
+	if tupleSize == 0 {
+		tupleSize = 1
+	}
+	for i := sl.NumberOfFallbackTuples - 1; i >= 0; i-- {
+		result = filepath.Join(digestString[i*tupleSize:(i+1)*tupleSize], result)
 	}
 	result = strings.TrimLeft(filepath.ToSlash(filepath.Clean(filepath.Join(sl.FallbackFolder, result))), "/")
 	if len(result) > sl.MaxPathnameLen {
-- 
2.43.0


From a5bc7972cb49ca5820bd2372d9eb42ba9809888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 020/108] fix: accept the documented parameters of the
 direct-clean layout

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index bca70cb..e32fc86 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -54,7 +54,7 @@ func NewDirectCleanFS(fsys fs.FS) (ocfl.Extension, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &DirectCleanConfig{}
+	var config = &DirectCleanConfig{ReplacementString: "_", WhitespaceReplacementString: " "}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -67,6 +67,10 @@ func NewDirectCleanFS(fsys fs.FS) (ocfl.Extension, error) {
 		config.NumberOfFallbackTuples = config.FallbackSubFolders
 		config.FallbackSubFolders = 0
 	}
+	if config.EncodeUTF {
+		config.UTFEncode = true
+		config.EncodeUTF = false
+	}
 	return NewDirectClean(config)
 }
 
@@ -120,6 +124,9 @@ type DirectCleanConfig struct {
 	// compatibility with old config
 	MaxFilenameLen     int `json:"maxFilenameLen,omitempty"`
 	FallbackSubFolders int `json:"fallbackSubdirs,omitempty"`
+
+	// documented name of UTFEncode
+	EncodeUTF bool `json:"encodeUTF,omitempty"`
 }
 
 type DirectClean struct {
-- 
2.43.0


From a6ae04c75e1d4c4ab1a8454ea7b9cf0f7e0909b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 021/108] fix: never build dot segments with the direct-clean
 layout

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index e32fc86..7fc6393 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -256,6 +256,9 @@ func (sl *DirectClean) build(fname string) (string, error) {
 			if directCleanRulePeriods.MatchString(n) {
 				n = sl.ReplacementString + n[1:]
 			}
+			if n == "." || n == ".." {
+				return "", errors.Errorf("cannot clean path '%s' with replacement string '%s'", fname, sl.ReplacementString)
+			}
 		}
 
 		lenN := len(n)
-- 
2.43.0


From 3c095f516ee4e94cf68daec1f2ec431381496ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 022/108] fix: limit the tuple parameters of layouts

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 pkg/extension/NNNN-direct-clean-path-layout.go           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 87a9294..f1a4331 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -50,7 +50,7 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
-	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+	if config.TupleSize < 1 || config.TupleSize > 32 || config.NumberOfTuples < 1 || config.NumberOfTuples > 32 {
 		return nil, errors.Errorf("invalid tupleSize %d or numberOfTuples %d", config.TupleSize, config.NumberOfTuples)
 	}
 	switch config.ZeroPadding {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 7fc6393..cba44c5 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -98,7 +98,8 @@ func NewDirectClean(config *DirectCleanConfig) (ocfl.Extension, error) {
 		return nil, errors.Wrapf(err, "hash %s not supported", config.FallbackDigestAlgorithm)
 	}
 	if config.MaxPathnameLen < 0 || config.MaxPathSegmentLen < 0 || config.NumberOfFallbackTuples < 0 || config.FallbackTupleSize < 0 ||
-		config.NumberOfFallbackTuples*max(config.FallbackTupleSize, 1) >= 2*sl.hash.Size() {
+		config.NumberOfFallbackTuples > sl.hash.Size()*2 || config.FallbackTupleSize > sl.hash.Size()*2 ||
+		config.NumberOfFallbackTuples*max(config.FallbackTupleSize, 1) >= sl.hash.Size()*2 {
 		return nil, errors.Errorf("invalid length or fallback tuple parameters for extension %s", sl.GetName())
 	}
 
-- 
2.43.0


From 9d45a2bf792c8fb84b011c6d986b813349a769f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 023/108] fix: keep objects inside the storage root and apart
 from each other

---
 pkg/ocfl/storagerootbase.go | 59 ++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 3f70eee..0b6f101 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -13,6 +13,7 @@ import (
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"runtime"
 	"strconv"
@@ -257,11 +258,21 @@ func (osr *StorageRootBase) GetFolders() ([]string, error) {
 // Object Functions
 //
 
-func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+// objectFolder returns the folder of an object. it is always below the storage root and outside of its extensions folder
+func (osr *StorageRootBase) objectFolder(id string) (string, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
 	if err != nil {
-		return false, errors.Wrapf(err, "cannot build storage path for id %s", id)
+		return "", errors.Wrapf(err, "cannot build storage path for id '%s'", id)
+	}
+	parts := strings.Split(path.Clean("/"+folder)[1:], "/")
+	if parts[0] == "" || parts[0] == "extensions" || slices.Contains(strings.Split(folder, "/"), "..") {
+		return "", errors.Errorf("storage path '%s' for id '%s' not allowed", folder, id)
 	}
+	return strings.Join(parts, "/"), nil
+}
+
+// isObjectFolder checks for an object declaration
+func (osr *StorageRootBase) isObjectFolder(folder string) (bool, error) {
 	subFS, err := fs.Sub(osr.fsys, folder)
 	if errors.Is(err, fs.ErrNotExist) {
 		return false, nil
@@ -271,12 +282,25 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	}
 	dirs, err := fs.ReadDir(subFS, "")
 	if err != nil {
-		if err == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
 		}
 		return false, errors.Wrapf(err, "cannot read content of %s", folder)
 	}
-	return len(dirs) > 0, nil
+	for _, dir := range dirs {
+		if strings.HasPrefix(dir.Name(), "0=ocfl_object_") {
+			return true, nil
+		}
+	}
+	return false, nil
+}
+
+func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+	folder, err := osr.objectFolder(id)
+	if err != nil {
+		return false, errors.WithStack(err)
+	}
+	return osr.isObjectFolder(folder)
 }
 
 // all folder trees, which end in a folder containing a file
@@ -381,21 +405,40 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 }
 
 func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	folder, err := osr.objectFolder(id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
-	return osr.LoadObjectByFolder(folder)
+	object, err = osr.LoadObjectByFolder(folder)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if object.GetID() != id {
+		return nil, errors.Errorf("folder '%s' for id '%s' contains object '%s'", folder, id, object.GetID())
+	}
+	return object, nil
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	folder, err := osr.objectFolder(id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
+	for pos, r := range folder {
+		if r != '/' {
+			continue
+		}
+		isObject, err := osr.isObjectFolder(folder[:pos])
+		if err != nil {
+			return nil, errors.WithStack(err)
+		}
+		if isObject {
+			return nil, errors.Errorf("folder '%s' for id '%s' is within an object", folder, id)
+		}
+	}
 	// the filesystem creates only one level at a time
 	for pos, r := range folder {
-		if r != '/' || pos == 0 {
+		if r != '/' {
 			continue
 		}
 		if err := writefs.MkDir(osr.fsys, folder[:pos]); err != nil && !errors.Is(err, fs.ErrExist) {
-- 
2.43.0


From 43ced63a4c3de0ccd0c8f8d97aecdf8da93aa6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 024/108] fix: check the parameters of a new object before
 anything is written

---
 pkg/ocfl/objectbase.go      | 30 ++++++++++++++++--------------
 pkg/ocfl/storagerootbase.go |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5e8dbbd..00ce9e8 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -447,6 +447,22 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 	if len(cnt) > 0 {
 		return fmt.Errorf("'%v/%s' is not empty", ".", object.fsys)
 	}
+
+	// check fixity here
+	algs := []checksum.DigestAlgorithm{
+		checksum.DigestSHA512,
+		checksum.DigestSHA256,
+	}
+	algs = append(algs, object.extensionManager.GetFixityDigests()...)
+	slices.Sort(algs)
+	algs = slices.Compact(algs)
+	if !sliceContains(algs, fixity) {
+		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
+	}
+	if object.i, err = object.CreateInventory(id, digest, fixity); err != nil {
+		return errors.Wrapf(err, "cannot create inventory for object '%s'", id)
+	}
+
 	rfp, err := writefs.Create(object.fsys, objectConformanceDeclarationFile)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create '%v/%s'", object.fsys, objectConformanceDeclarationFile)
@@ -464,20 +480,6 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
 	}
 	object.extensionManager.SetFS(subfs, true)
-
-	// check fixity here
-	algs := []checksum.DigestAlgorithm{
-		checksum.DigestSHA512,
-		checksum.DigestSHA256,
-	}
-	algs = append(algs, object.extensionManager.GetFixityDigests()...)
-	slices.Sort(algs)
-	algs = slices.Compact(algs)
-	if !sliceContains(algs, fixity) {
-		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
-	}
-
-	object.i, err = object.CreateInventory(id, digest, fixity)
 	return nil
 }
 
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 0b6f101..1643dcc 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -264,7 +264,7 @@ func (osr *StorageRootBase) objectFolder(id string) (string, error) {
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot build storage path for id '%s'", id)
 	}
-	parts := strings.Split(path.Clean("/"+folder)[1:], "/")
+	parts := strings.Split(path.Clean("/" + folder)[1:], "/")
 	if parts[0] == "" || parts[0] == "extensions" || slices.Contains(strings.Split(folder, "/"), "..") {
 		return "", errors.Errorf("storage path '%s' for id '%s' not allowed", folder, id)
 	}
-- 
2.43.0


From 795ca31c9a945d58d35ff7b070b2650fb195e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 025/108] fix: extract every file of an area and only to paths
 below the target

---
 pkg/ocfl/objectbase.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 00ce9e8..cc6c62d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1436,15 +1436,22 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			if err != nil {
 				errCause := errors.Cause(err)
 				if errors.Is(errCause, ExtensionObjectExtractPathWrongAreaError) {
-					return nil
+					// same content could be part of several areas
+					continue
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
+			if !fs.ValidPath(external) || external == "." {
+				return errors.Errorf("invalid path '%s'", external)
+			}
 			if err := func() error {
 				if len(internals) == 0 {
 					return errors.Errorf("no internal paths for '%v'", externals)
 				}
 				internal := internals[0]
+				if !fs.ValidPath(internal) {
+					return errors.Errorf("invalid path '%s'", internal)
+				}
 				src, err := object.fsys.Open(internal)
 				if err != nil {
 					return errors.Wrapf(err, "cannot open '%v/%s'", object.fsys, internal)
@@ -1464,7 +1471,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if !ok {
 					return errors.Errorf("no digest '%s' generatied", digestAlg)
 				}
-				if copyDigest != digest {
+				if !strings.EqualFold(copyDigest, digest) {
 					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
 				}
 				return nil
-- 
2.43.0


From 15f31d6e1ec4418b0ce7c7b62c16a7393671edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 026/108] fix: report errors when closing extracted files

---
 pkg/ocfl/objectbase.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index cc6c62d..1598c4e 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1461,7 +1461,12 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if err != nil {
 					return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
 				}
-				defer target.Close()
+				closed := false
+				defer func() {
+					if !closed {
+						target.Close()
+					}
+				}()
 				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
 				if err != nil {
@@ -1474,6 +1479,10 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if !strings.EqualFold(copyDigest, digest) {
 					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
 				}
+				closed = true
+				if err := target.Close(); err != nil {
+					return errors.Wrapf(err, "cannot close '%v/%s'", fsys, external)
+				}
 				return nil
 			}(); err != nil {
 				return err
@@ -1493,9 +1502,12 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
 		}
 		if _, err := io.WriteString(fp, manifest.String()); err != nil {
+			fp.Close()
 			return errors.Wrapf(err, "cannot write manifest file %v/%s", fsys, manifestName)
 		}
-		defer fp.Close()
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close manifest file %v/%s", fsys, manifestName)
+		}
 	}
 	object.logger.Debug().Msgf("object '%s' extracted", object.GetID())
 	return nil
-- 
2.43.0


From ecb27f6e0507951c7dfa203a751071f3038c36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 027/108] fix: extract all objects of a storage root

---
 pkg/ocfl/storagerootbase.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 1643dcc..0db2016 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -295,6 +295,20 @@ func (osr *StorageRootBase) isObjectFolder(folder string) (bool, error) {
 	return false, nil
 }
 
+// subFSCreateAll creates a folder and its parents, since filesystems create only one level at a time
+func subFSCreateAll(fsys fs.FS, folder string) (fs.FS, error) {
+	for pos, r := range folder {
+		if r != '/' {
+			continue
+		}
+		if err := writefs.MkDir(fsys, folder[:pos]); err != nil && !errors.Is(err, fs.ErrExist) {
+			return nil, errors.Wrapf(err, "cannot create folder '%s' in '%v'", folder[:pos], fsys)
+		}
+	}
+	subFS, err := writefs.SubFSCreate(fsys, folder)
+	return subFS, errors.WithStack(err)
+}
+
 func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	folder, err := osr.objectFolder(id)
 	if err != nil {
@@ -436,16 +450,7 @@ func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest
 			return nil, errors.Errorf("folder '%s' for id '%s' is within an object", folder, id)
 		}
 	}
-	// the filesystem creates only one level at a time
-	for pos, r := range folder {
-		if r != '/' {
-			continue
-		}
-		if err := writefs.MkDir(osr.fsys, folder[:pos]); err != nil && !errors.Is(err, fs.ErrExist) {
-			return nil, errors.Wrapf(err, "cannot create folder '%s' in '%v'", folder[:pos], osr.fsys)
-		}
-	}
-	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
+	subfs, err := subFSCreateAll(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
 	}
@@ -720,11 +725,11 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot open object in folder '%s'", oFolder)
 			}
-			subFS, err := fs.Sub(fsys, oFolder)
+			subFS, err := subFSCreateAll(fsys, oFolder)
 			if err != nil {
 				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
 			}
-			if err := o.Extract(subFS, version, withManifest, ""); err != nil {
+			if err := o.Extract(subFS, version, withManifest, area); err != nil {
 				return errors.Wrapf(err, "cannot extract object in folder '%s'", oFolder)
 			}
 		}
-- 
2.43.0


From c54ede00ac8d824be3de3663bdd589b5984033db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 028/108] fix: report unreadable inventories and accept upper
 case sidecar digests

---
 pkg/ocfl/objectbase.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 1598c4e..4fec642 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -287,10 +287,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
 	inventoryBytes, err := fs.ReadFile(object.fsys, filename)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
-			return nil, err
-		}
-		return newInventory(object.ctx, object, folder, object.version, object.logger)
+		return nil, errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, filename)
 	}
 	inventory, err := object.loadInventory(inventoryBytes, folder)
 	if err != nil {
@@ -302,7 +299,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
 			object.addValidationError(E060, "cannot read sidecar '%v/%s': %v", object.fsys, sidecarPath, err.Error())
@@ -325,7 +322,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			h.Write(inventoryBytes)
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
-			if digestString != inventoryDigestString {
+			if !strings.EqualFold(digestString, inventoryDigestString) {
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
@@ -1089,7 +1086,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
-				if errors.Cause(err) != fs.ErrNotExist {
+				if !errors.Is(err, fs.ErrNotExist) {
 					return errors.Wrapf(err, "cannot stat '%s'", versionContent)
 				}
 			} else {
@@ -1397,7 +1394,7 @@ func (object *ObjectBase) getVersionInventories() (map[string]Inventory, error)
 	for _, ver := range versionStrings {
 		vi, err := object.LoadInventory(ver)
 		if err != nil {
-			if errors.Cause(err) == fs.ErrNotExist {
+			if errors.Is(err, fs.ErrNotExist) {
 				object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 				continue
 			}
-- 
2.43.0


From d33e557038161a2d3f6f2c1f93fb930d26a1c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 029/108] fix: never crash on incomplete inventories or
 unreadable folders

---
 pkg/ocfl/inventorybase.go | 53 ++++++++++++++++++++++++++-------------
 pkg/ocfl/objectbase.go    | 31 +++++++++++++++++------
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 5eed155..fdd5650 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -142,14 +142,26 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.Versions = &OCFLVersions{Versions: map[string]*Version{}}
 	}
 
+	if i.Head == nil {
+		i.Head = NewOCFLString("")
+	}
+
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
-		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
-		if err != nil {
+		if vInt, err := strconv.Atoi(strings.TrimPrefix(ver, "v")); err != nil || !vRegexp.MatchString(ver) {
 			i.addValidationError(E104, "invalid version format '%s'", ver)
-			continue
+		} else {
+			i.versionValue[ver] = uint(vInt)
+		}
+		if version == nil {
+			i.addValidationError(E047, "version '%s' is not an object", ver)
+			version = &Version{}
+			i.Versions.Versions[ver] = version
+		}
+		if version.Created == nil {
+			i.addValidationError(E048, "no created key in version '%s'", ver)
+			version.Created = &OCFLTime{}
 		}
-		i.versionValue[ver] = uint(vInt)
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
@@ -160,6 +172,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 			version.Message = NewOCFLString("")
 		}
 		if version.State == nil {
+			i.addValidationError(E048, "no state key in version '%s'", ver)
 			version.State = &OCFLState{
 				State: map[string][]string{},
 				err:   nil,
@@ -379,11 +392,12 @@ func (i *InventoryBase) checkManifest() error {
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
 			allPaths = append(allPaths, path)
-			if path[0] == '/' || path[len(path)-1] == '/' {
-				i.addValidationError(E100, "invalid path '%s' in manifest", path)
-			}
 			if path == "" {
 				i.addValidationError(E099, "empty path in manifest")
+				continue
+			}
+			if path[0] == '/' || path[len(path)-1] == '/' {
+				i.addValidationError(E100, "invalid path '%s' in manifest", path)
 			}
 			path2 := path
 			if path[0] == '/' {
@@ -425,11 +439,12 @@ func (i *InventoryBase) checkFixity() error {
 			}
 			// check content paths
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E100, "invalid path '%s' in fixity", path)
-				}
 				if path == "" {
 					i.addValidationError(E099, "empty path in fixity")
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E100, "invalid path '%s' in fixity", path)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -543,11 +558,12 @@ func (i *InventoryBase) checkVersions() error {
 				}
 			}
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
-				}
 				if path == "" {
 					i.addValidationError(E051, "empty path in state for version '%s'", ver)
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -673,10 +689,6 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 			}
 			version := parts[0]
 			//fn := parts[2]
-			if parts[1] != i.GetContentDir() {
-				//i.addValidationError(E015, "extra file/directory '%s' in manifest", parts[1])
-				//i.addValidationError(E019, "invalid content directory '%s' in '%s'", parts[1], filename)
-			}
 			if _, ok := result[version]; !ok {
 				versions = append(versions, version)
 				result[version] = []string{}
@@ -728,6 +740,7 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		}
 	*/
 	lastHead := i.Head.string
+	var lastVersion *Version
 	if lastHead == "" {
 		if i.paddingLength <= 0 {
 			i.Head.string = "v1"
@@ -736,6 +749,10 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), 1)
 		}
 	} else {
+		var ok bool
+		if lastVersion, ok = i.Versions.Versions[lastHead]; !ok {
+			return errors.Errorf("head '%s' of object '%s' is not a version", lastHead, i.GetID())
+		}
 		vStr := strings.TrimLeft(strings.ToLower(i.Head.string), "v0")
 		v, err := strconv.Atoi(vStr)
 		if err != nil {
@@ -756,7 +773,7 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 	}
 	// copy last state...
 	if lastHead != "" {
-		copyMapStringSlice(i.Versions.Versions[i.Head.string].State.State, i.Versions.Versions[lastHead].State.State)
+		copyMapStringSlice(i.Versions.Versions[i.Head.string].State.State, lastVersion.State.State)
 	}
 	i.writeable = true
 	return nil
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 4fec642..c35ae5d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -631,6 +631,9 @@ func (object *ObjectBase) EndArea() error {
 func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
 	object.logger.Debug().Msgf("walking '%v'", fsys)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
+		if err != nil {
+			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
+		}
 		path = filepath.ToSlash(path)
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
 			return errors.Wrapf(err, "cannot add file '%s'", path)
@@ -1058,10 +1061,17 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if _, ok := objectContentFiles[ver]; !ok {
 			objectContentFiles[ver] = []string{}
 		}
-		fs.WalkDir(
+		if err := fs.WalkDir(
 			object.fsys,
 			ver,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					// missing version folders are reported elsewhere
+					if path == ver && errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
 					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
@@ -1082,7 +1092,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				return nil
 			},
-		)
+		); err != nil {
+			return errors.Wrapf(err, "cannot walk version folder '%s'", ver)
+		}
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
@@ -1110,17 +1122,14 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		return errors.Wrap(err, "cannot check file digests for object root")
 	}
 
-	contentDir := ""
-	if len(versionStrings) > 0 {
-		contentDir = versionInventories[versionStrings[0]].GetRealContentDir()
-	}
+	contentDir := object.i.GetRealContentDir()
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
 		if inv == nil {
 			continue
 		}
 		if contentDir != inv.GetRealContentDir() {
-			object.addValidationError(E019, "content directory '%s' of version '%s' not the same as '%s' in version '%s'", inv.GetRealContentDir(), ver, contentDir, versionStrings[0])
+			object.addValidationError(E019, "content directory '%s' of version '%s' not the same as '%s' in root inventory", inv.GetRealContentDir(), ver, contentDir)
 		}
 		if err := inv.CheckFiles(csDigestFiles); err != nil {
 			return errors.Wrapf(err, "cannot check file digests for version '%s'", ver)
@@ -1195,6 +1204,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			testV, ok := versions[verVer]
 			if !ok {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
+				continue
 			}
 			if !testV.EqualState(verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
@@ -1336,6 +1346,13 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 			//fmt.Sprintf("%s/%s", version, object.i.GetContentDir()),
 			version,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					// missing version folders are reported elsewhere
+					if path == version && errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				//object.logger.Debug(path)
 				if d.IsDir() {
 					return nil
-- 
2.43.0


From e8c3694ab859c9d7c226570d5e888d34e20ffcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 030/108] fix: compare inventories and version states
 completely

---
 pkg/ocfl/inventorybase.go  | 33 ++++++----------
 pkg/ocfl/inventorytypes.go | 81 +++++++++++++++++++++++++++-----------
 pkg/ocfl/objectbase.go     |  2 +-
 3 files changed, 72 insertions(+), 44 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index fdd5650..891fc86 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -56,11 +56,7 @@ func newInventoryBase(ctx context.Context, object Object, folder string, objectT
 }
 
 func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
-
-	if !sliceContains(i.fixityDigestAlgorithms, i2.fixityDigestAlgorithms) || len(i.fixityDigestAlgorithms) != len(i2.fixityDigestAlgorithms) {
-		return false
-	}
-	if i.Type != i2.Type {
+	if i.Id != i2.Id || i.Type != i2.Type || i.DigestAlgorithm != i2.DigestAlgorithm {
 		return false
 	}
 	if i.Head.string != i2.Head.string {
@@ -69,24 +65,10 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 	if i.ContentDirectory != i2.ContentDirectory {
 		return false
 	}
-	if (i.Manifest == nil && i2.Manifest != nil) || (i.Manifest != nil && i2.Manifest == nil) {
+	if (i.Manifest == nil) != (i2.Manifest == nil) || (i.Versions == nil) != (i2.Versions == nil) {
 		return false
 	}
-	if i.Manifest != nil {
-		if len(i.Manifest.Manifest) != len(i.Manifest.Manifest) {
-			return false
-		}
-		for key, vals := range i.Manifest.Manifest {
-			vals2, ok := i2.Manifest.Manifest[key]
-			if !ok {
-				return false
-			}
-			if !sliceContains(vals, vals2) || len(vals) != len(vals2) {
-				return false
-			}
-		}
-	}
-	if (i.Versions == nil && i2.Versions != nil) || (i.Versions != nil && i2.Versions == nil) {
+	if i.Manifest != nil && !equalDigestMap(i.Manifest.Manifest, i2.Manifest.Manifest) {
 		return false
 	}
 	if i.Versions != nil {
@@ -106,6 +88,15 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 			}
 		}
 	}
+	if len(i.Fixity) != len(i2.Fixity) {
+		return false
+	}
+	for alg, fixity := range i.Fixity {
+		fixity2, ok := i2.Fixity[alg]
+		if !ok || !equalDigestMap(fixity, fixity2) {
+			return false
+		}
+	}
 	return true
 }
 
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 2081e56..61e727a 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -3,7 +3,9 @@ package ocfl
 import (
 	"emperror.dev/errors"
 	"encoding/json"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
+	"strings"
 	"time"
 )
 
@@ -153,38 +155,73 @@ func (v *Version) EqualMeta(v2 *Version) bool {
 	}
 	return true
 }
-func (v *Version) EqualState(v2 *Version) bool {
-	if v2 == nil {
+
+// equalDigestMap compares the paths of every digest, the order of the paths is not relevant
+func equalDigestMap(m1, m2 map[string][]string) bool {
+	if len(m1) != len(m2) {
 		return false
 	}
-	/*
-		if v.Created.Time.String() != v2.Created.Time.String() ||
-			v.Message.string != v2.Message.string ||
-			v.User.GetName.string != v2.User.GetName.string ||
-			v.User.Address.string != v2.User.Address.string {
+	for digest, paths := range m1 {
+		paths2, ok := m2[digest]
+		if !ok {
 			return false
 		}
-	*/
-	if len(v.State.State) != len(v2.State.State) {
+		paths, paths2 = slices.Clone(paths), slices.Clone(paths2)
+		slices.Sort(paths)
+		slices.Sort(paths2)
+		if !slices.Equal(paths, paths2) {
+			return false
+		}
+	}
+	return true
+}
+
+// pathDigests returns the digest of every logical path
+func (v *Version) pathDigests() map[string]string {
+	result := map[string]string{}
+	for digest, paths := range v.State.State {
+		for _, path := range paths {
+			result[path] = strings.ToLower(digest)
+		}
+	}
+	return result
+}
+
+// EqualState compares the logical states of two versions, which use the same digest algorithm
+func (v *Version) EqualState(v2 *Version) bool {
+	if v2 == nil {
 		return false
 	}
-	files := []string{}
-	for _, vals := range v.State.State {
-		files = append(files, vals...)
+	return maps.Equal(v.pathDigests(), v2.pathDigests())
+}
+
+// equalContent compares the logical states of two versions by the content files the inventories refer to.
+// the inventories could have different digest algorithms
+func equalContent(i1 Inventory, v1 *Version, i2 Inventory, v2 *Version) bool {
+	if i1.GetDigestAlgorithm() == i2.GetDigestAlgorithm() {
+		return v1.EqualState(v2)
 	}
-	slices.Sort(files)
-	files = slices.Compact(files)
-	files2 := []string{}
-	for _, vals := range v2.State.State {
-		files2 = append(files2, vals...)
+	contents := func(i Inventory) map[string][]string {
+		result := map[string][]string{}
+		for digest, paths := range i.GetManifest() {
+			digest = strings.ToLower(digest)
+			result[digest] = append(result[digest], paths...)
+		}
+		return result
 	}
-	slices.Sort(files2)
-	files2 = slices.Compact(files2)
-	if len(files) != len(files2) {
+	c1, c2 := contents(i1), contents(i2)
+	p1, p2 := v1.pathDigests(), v2.pathDigests()
+	if len(p1) != len(p2) {
 		return false
 	}
-	if !sliceContains(files, files2) {
-		return false
+	for path, digest1 := range p1 {
+		digest2, ok := p2[path]
+		if !ok {
+			return false
+		}
+		if !slices.ContainsFunc(c1[digest1], func(content string) bool { return slices.Contains(c2[digest2], content) }) {
+			return false
+		}
 	}
 	return true
 }
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c35ae5d..03518ec 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1206,7 +1206,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
 				continue
 			}
-			if !testV.EqualState(verVersion) {
+			if !equalContent(object.i, testV, verInventory, verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
 			}
 			if !testV.EqualMeta(verVersion) {
-- 
2.43.0


From 7d7efd06b1c8dee063ba3295a536f2534a788e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 031/108] fix: detect all conflicting paths and digests in
 inventories

---
 pkg/ocfl/helper.go        | 21 +++++++++++++++++++++
 pkg/ocfl/inventorybase.go | 27 +++++++++++----------------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5ebe2ad..2c9683a 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -218,6 +218,27 @@ func sliceContains[E comparable](s []E, vs []E) bool {
 	return true
 }
 
+// pathConflicts describes all paths, which occur several times or which are also the folder of another path
+func pathConflicts(paths []string) []string {
+	result := []string{}
+	known := map[string]bool{}
+	for _, p := range paths {
+		if known[p] {
+			result = append(result, fmt.Sprintf("'%s' is not unique", p))
+		}
+		known[p] = true
+	}
+	for p := range known {
+		for pos, r := range p {
+			if r == '/' && known[p[:pos]] {
+				result = append(result, fmt.Sprintf("'%s' is prefix of '%s'", p[:pos], p))
+			}
+		}
+	}
+	slices.Sort(result)
+	return result
+}
+
 func sliceInsertSorted[E constraints.Ordered](data []E, v E) []E {
 	var dummy E
 	i, _ := slices.BinarySearch(data, v) // find slot
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 891fc86..2bf0985 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -370,11 +370,14 @@ func (i *InventoryBase) checkManifest() error {
 	digests := []string{}
 	allPaths := []string{}
 	for digest, paths := range i.Manifest.Manifest {
-		//		digest = strings.ToLower(digest)
-		if slices.Contains(digests, digest) {
+		if len(paths) == 0 {
+			i.addValidationError(E092, "no content path for digest '%s' in manifest", digest)
+		}
+		lowerDigest := strings.ToLower(digest)
+		if slices.Contains(digests, lowerDigest) {
 			i.addValidationError(E096, "manifest digest '%s' is duplicate", digest)
 		} else {
-			digests = sliceInsertSorted(digests, digest)
+			digests = sliceInsertSorted(digests, lowerDigest)
 			//digests = append(digests, digest)
 			if !slices.Contains(versionDigests, digest) {
 				i.addValidationError(E107, "digest '%s' does not appear in any version", digest)
@@ -405,12 +408,8 @@ func (i *InventoryBase) checkManifest() error {
 
 	}
 	i.logger.Debug().Msgf("[%s] checkManifest prefix", i.GetID())
-	slices.Sort(allPaths)
-	for j := 0; j < len(allPaths)-1; j++ {
-		prefix := strings.TrimRight(allPaths[j+1], "/") + "/"
-		if strings.HasPrefix(allPaths[j], prefix) {
-			i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", allPaths[j], prefix)
-		}
+	for _, conflict := range pathConflicts(allPaths) {
+		i.addValidationError(E101, "content path %s in manifest", conflict)
 	}
 	return nil
 }
@@ -604,17 +603,13 @@ func (i *InventoryBase) checkVersions() error {
 	}
 
 	// check logical paths
-	for _, version := range i.Versions.Versions {
+	for ver, version := range i.Versions.Versions {
 		logPaths := []string{}
 		for _, paths := range version.State.State {
 			logPaths = append(logPaths, paths...)
 		}
-		slices.Sort(logPaths)
-		for j := 0; j < len(logPaths)-1; j++ {
-			prefix := strings.TrimSuffix(logPaths[j], "/") + "/"
-			if strings.HasPrefix(logPaths[j+1], prefix) {
-				i.addValidationError(E095, "logical path '%s' is prefix of '%s'", logPaths[j], logPaths[j+1])
-			}
+		for _, conflict := range pathConflicts(logPaths) {
+			i.addValidationError(E095, "logical path %s in version '%s'", conflict, ver)
 		}
 	}
 
-- 
2.43.0


From 4d10a7bf9656f1313c11df3309f74501d73fe763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 032/108] fix: check all fixity blocks and ignore unknown
 fixity algorithms

---
 pkg/ocfl/inventorybase.go  | 59 +++++++++++++++++++++++---------------
 pkg/ocfl/inventorytypes.go | 23 +++++++++++++++
 pkg/ocfl/objectbase.go     | 11 +++++--
 3 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 2bf0985..c420ef2 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -26,14 +26,14 @@ type InventoryBase struct {
 	paddingLength          int
 	versionValue           map[string]uint
 	fixityDigestAlgorithms []checksum.DigestAlgorithm
-	Id                     string                                           `json:"id"`
-	Type                   InventorySpec                                    `json:"type"`
-	DigestAlgorithm        checksum.DigestAlgorithm                         `json:"digestAlgorithm"`
-	Head                   *OCFLString                                      `json:"head"`
-	ContentDirectory       string                                           `json:"contentDirectory,omitempty"`
-	Manifest               *OCFLManifest                                    `json:"manifest,omitempty"`
-	Versions               *OCFLVersions                                    `json:"versions"`
-	Fixity                 map[checksum.DigestAlgorithm]map[string][]string `json:"fixity,omitempty"`
+	Id                     string                   `json:"id"`
+	Type                   InventorySpec            `json:"type"`
+	DigestAlgorithm        checksum.DigestAlgorithm `json:"digestAlgorithm"`
+	Head                   *OCFLString              `json:"head"`
+	ContentDirectory       string                   `json:"contentDirectory,omitempty"`
+	Manifest               *OCFLManifest            `json:"manifest,omitempty"`
+	Versions               *OCFLVersions            `json:"versions"`
+	Fixity                 *OCFLFixity              `json:"fixity,omitempty"`
 	logger                 zLogger.ZLogger
 }
 
@@ -88,11 +88,11 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 			}
 		}
 	}
-	if len(i.Fixity) != len(i2.Fixity) {
+	if len(i.GetFixity()) != len(i2.GetFixity()) {
 		return false
 	}
-	for alg, fixity := range i.Fixity {
-		fixity2, ok := i2.Fixity[alg]
+	for alg, fixity := range i.GetFixity() {
+		fixity2, ok := i2.GetFixity()[alg]
 		if !ok || !equalDigestMap(fixity, fixity2) {
 			return false
 		}
@@ -110,9 +110,9 @@ func (i *InventoryBase) Init(id string, digest checksum.DigestAlgorithm, fixity
 			continue
 		}
 		if i.Fixity == nil {
-			i.Fixity = map[checksum.DigestAlgorithm]map[string][]string{}
+			i.Fixity = &OCFLFixity{Fixity: Fixity{}}
 		}
-		i.Fixity[alg] = map[string][]string{}
+		i.Fixity.Fixity[alg] = map[string][]string{}
 	}
 	// a new inventory has to be stored, even if the first version stays empty
 	i.modified = true
@@ -170,7 +170,11 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 			}
 		}
 	}
-	for alg := range i.Fixity {
+	for alg := range i.GetFixity() {
+		// unknown algorithms are ignored
+		if !checksum.HashExists(alg) {
+			continue
+		}
 		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
 			i.fixityDigestAlgorithms = append(i.fixityDigestAlgorithms, alg)
 		}
@@ -417,7 +421,11 @@ func (i *InventoryBase) checkManifest() error {
 func (i *InventoryBase) checkFixity() error {
 	i.logger.Debug().Msgf("[%s] checkFixity", i.GetID())
 	defer i.logger.Debug().Msgf("[%s] checkFixity done", i.GetID())
-	for digestAlg, digestMap := range i.Fixity {
+	if i.Fixity != nil && i.Fixity.err != nil {
+		i.addValidationError(E057, "invalid fixity block: %v", i.Fixity.err)
+		i.addValidationError(E111, "invalid fixity block: %v", i.Fixity.err)
+	}
+	for digestAlg, digestMap := range i.GetFixity() {
 		digests := []string{}
 		for digest, paths := range digestMap {
 			lowerDigest := strings.ToLower(digest)
@@ -640,6 +648,10 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	}
 	//check fixity
 	for digestAlg, fixity := range i.GetFixity() {
+		// unknown algorithms are ignored
+		if !checksum.HashExists(digestAlg) {
+			continue
+		}
 		csFiles, ok = fileManifest[digestAlg]
 		if !ok {
 			return errors.Errorf("checksum for '%s' not created", digestAlg)
@@ -698,7 +710,7 @@ func (i *InventoryBase) GetFixity() Fixity {
 	if i.Fixity == nil {
 		return map[checksum.DigestAlgorithm]map[string][]string{}
 	}
-	return i.Fixity
+	return i.Fixity.Fixity
 }
 func (i *InventoryBase) GetFilesFlat() []string {
 	filesV := i.GetFiles()
@@ -936,16 +948,17 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			continue
 		}
 		if i.Fixity == nil {
-			i.Fixity = map[checksum.DigestAlgorithm]map[string][]string{}
+			i.Fixity = &OCFLFixity{Fixity: Fixity{}}
 		}
-		if _, ok := i.Fixity[alg]; !ok {
-			i.Fixity[alg] = map[string][]string{}
+		fixity := i.Fixity.Fixity
+		if _, ok := fixity[alg]; !ok {
+			fixity[alg] = map[string][]string{}
 		}
-		if _, ok := i.Fixity[alg][fixityDigest]; !ok {
-			i.Fixity[alg][fixityDigest] = []string{}
+		if _, ok := fixity[alg][fixityDigest]; !ok {
+			fixity[alg][fixityDigest] = []string{}
 		}
-		if !slices.Contains(i.Fixity[alg][fixityDigest], manifestFilename) {
-			i.Fixity[alg][fixityDigest] = append(i.Fixity[alg][fixityDigest], manifestFilename)
+		if !slices.Contains(fixity[alg][fixityDigest], manifestFilename) {
+			fixity[alg][fixityDigest] = append(fixity[alg][fixityDigest], manifestFilename)
 			i.modified = true
 		}
 	}
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 61e727a..5f787c2 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -3,6 +3,7 @@ package ocfl
 import (
 	"emperror.dev/errors"
 	"encoding/json"
+	"github.com/je4/utils/v2/pkg/checksum"
 	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
 	"strings"
@@ -245,6 +246,28 @@ func (m *OCFLManifest) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m.Manifest)
 }
 
+type OCFLFixity struct {
+	Fixity Fixity
+	err    error
+}
+
+func (f *OCFLFixity) UnmarshalJSON(data []byte) error {
+	f.Fixity = Fixity{}
+	// any name of a digest algorithm is allowed
+	blocks := map[string]map[string][]string{}
+	if err := json.Unmarshal(data, &blocks); err != nil {
+		f.err = errors.Wrapf(err, "cannot unmarshal fixity '%s'", string(data))
+	}
+	for alg, block := range blocks {
+		f.Fixity[checksum.DigestAlgorithm(alg)] = block
+	}
+	return nil
+}
+
+func (f *OCFLFixity) MarshalJSON() ([]byte, error) {
+	return json.Marshal(f.Fixity)
+}
+
 type OCFLVersions struct {
 	Versions map[string]*Version
 	err      error
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 03518ec..8086537 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -10,6 +10,7 @@ import (
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
@@ -1428,11 +1429,15 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot get version inventories")
 	}
-	allDigestAlgs := []checksum.DigestAlgorithm{object.i.GetDigestAlgorithm()}
-	for _, vi := range versionInventories {
+	inventories := append(maps.Values(versionInventories), object.i)
+	allDigestAlgs := []checksum.DigestAlgorithm{}
+	for _, vi := range inventories {
 		allDigestAlgs = append(allDigestAlgs, vi.GetDigestAlgorithm())
 		for digestAlg, _ := range vi.GetFixity() {
-			allDigestAlgs = append(allDigestAlgs, digestAlg)
+			// unknown algorithms are ignored
+			if checksum.HashExists(digestAlg) {
+				allDigestAlgs = append(allDigestAlgs, digestAlg)
+			}
 		}
 	}
 	slices.Sort(allDigestAlgs)
-- 
2.43.0


From 1aeba237900ccb03ba4876a3c7c134baa726bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 033/108] fix: check the files of object, version and extension
 folders and the specification versions

---
 pkg/ocfl/extensionFactory.go |  3 ++
 pkg/ocfl/helper.go           |  2 +-
 pkg/ocfl/inventorybase.go    |  2 ++
 pkg/ocfl/objectbase.go       | 59 +++++++++++++++++++++---------------
 4 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 7fcc17b..3a2dd50 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -88,6 +88,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 	var result = []Extension{}
 	for _, file := range files {
 		if !file.IsDir() {
+			if validation != nil {
+				validation.addValidationError(E067, "extra file '%s' in extensions folder", file.Name())
+			}
 			continue
 		}
 		fName := file.Name()
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 2c9683a..0e6d2cc 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -166,7 +166,7 @@ func GetErrorStacktrace(err error) errors.StackTrace {
 }
 
 func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version OCFLVersion, err error) {
-	rString := fmt.Sprintf("0=%s([0-9]+\\.[0-9]+)", prefix)
+	rString := fmt.Sprintf("^0=%s([0-9]+\\.[0-9]+)$", prefix)
 	r, err := regexp.Compile(rString)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot compile %s", rString)
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index c420ef2..ab17e04 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -339,6 +339,8 @@ func (i *InventoryBase) check() error {
 	}
 	if i.Type == "" {
 		i.addValidationError(E036, "invalid field \"type\" for object")
+	} else if i.Type != InventorySpec1_0 && i.Type != InventorySpec1_1 {
+		i.addValidationError(E038, "invalid type '%s'", i.Type)
 	}
 	if i.DigestAlgorithm == "" {
 		i.addValidationError(E036, "invalid field \"digestAlgorithm\" for object")
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 8086537..cd67e2c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1075,12 +1075,12 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
-					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
+					if path != ver && path != versionContent && !strings.HasPrefix(path, versionContent+"/") {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
 				} else {
 					objectFilesFlat = append(objectFilesFlat, path)
-					if strings.HasPrefix(path, versionContent) {
+					if strings.HasPrefix(path, versionContent+"/") {
 						objectContentFiles[ver] = append(objectContentFiles[ver], path)
 						objectContentFilesFlat = append(objectContentFilesFlat, path)
 					} else {
@@ -1125,19 +1125,22 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 
 	contentDir := object.i.GetRealContentDir()
 	for _, ver := range versionStrings {
+		// without inventory there are no files allowed
+		allowedFiles := []string{}
+		allowedDirs := []string{object.i.GetContentDir()}
 		inv := versionInventories[ver]
-		if inv == nil {
-			continue
+		if inv != nil {
+			allowedFiles = append(allowedFiles, "inventory.json", "inventory.json."+string(inv.GetDigestAlgorithm()))
+			allowedDirs = append(allowedDirs, inv.GetContentDir())
 		}
-		if contentDir != inv.GetRealContentDir() {
+		if inv != nil && contentDir != inv.GetRealContentDir() {
 			object.addValidationError(E019, "content directory '%s' of version '%s' not the same as '%s' in root inventory", inv.GetRealContentDir(), ver, contentDir)
 		}
-		if err := inv.CheckFiles(csDigestFiles); err != nil {
-			return errors.Wrapf(err, "cannot check file digests for version '%s'", ver)
+		if inv != nil {
+			if err := inv.CheckFiles(csDigestFiles); err != nil {
+				return errors.Wrapf(err, "cannot check file digests for version '%s'", ver)
+			}
 		}
-		digestAlg := inv.GetDigestAlgorithm()
-		allowedFiles := []string{"inventory.json", "inventory.json." + string(digestAlg)}
-		allowedDirs := []string{inv.GetContentDir()}
 		versionEntries, err := fs.ReadDir(object.fsys, ver)
 		if err != nil {
 			object.addValidationError(E010, "cannot read version folder '%s'", ver)
@@ -1157,23 +1160,26 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		}
 	}
 
-	for key := 0; key < len(versionStrings)-1; key++ {
-		v1 := versionStrings[key]
-		vi1, ok := versionInventories[v1]
-		if !ok {
-			object.addValidationWarning(W010, "no inventory for version '%s'", versionStrings[key])
-			continue
-			// return errors.Errorf("no inventory for version '%s'", versionStrings[key])
-		}
-		v2 := versionStrings[key+1]
-		vi2, ok := versionInventories[v2]
+	// compare every version with the next one which has got an inventory
+	var lastSpecVersion string
+	var lastSpec InventorySpec
+	for _, ver := range versionStrings {
+		vi, ok := versionInventories[ver]
 		if !ok {
-			object.addValidationWarning(W000, "no inventory for version '%s'", versionStrings[key+1])
+			object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 			continue
 		}
-		if !SpecIsLessOrEqual(vi1.GetSpec(), vi2.GetSpec()) {
-			object.addValidationError(E103, "spec in version '%s' (%s) greater than spec in version '%s' (%s)", v1, vi1.GetSpec(), v2, vi2.GetSpec())
+		if lastSpecVersion != "" && !SpecIsLessOrEqual(lastSpec, vi.GetSpec()) {
+			object.addValidationError(E103, "spec in version '%s' (%s) greater than spec in version '%s' (%s)", lastSpecVersion, lastSpec, ver, vi.GetSpec())
 		}
+		lastSpecVersion, lastSpec = ver, vi.GetSpec()
+	}
+	if lastSpecVersion != "" && !SpecIsLessOrEqual(lastSpec, object.i.GetSpec()) {
+		object.addValidationError(E103, "spec in version '%s' (%s) greater than spec of object (%s)", lastSpecVersion, lastSpec, object.i.GetSpec())
+	}
+	// the spec of the root inventory has to be the one of the object declaration
+	if spec := InventorySpec(fmt.Sprintf("https://ocfl.io/%s/spec/#inventory", object.version)); object.version != Version2_0 && object.i.GetSpec() != spec {
+		object.addValidationError(E038, "type '%s' of root inventory is not '%s'", object.i.GetSpec(), spec)
 	}
 
 	if len(versionStrings) > 0 {
@@ -1284,6 +1290,11 @@ func (object *ObjectBase) Check() error {
 
 	// check for allowed files and directories
 	allowedDirs := append(versions, "logs", "extensions")
+	allowedFiles := []string{
+		"0=ocfl_object_" + string(object.version),
+		"inventory.json",
+		"inventory.json." + string(object.i.GetDigestAlgorithm()),
+	}
 	versionCounter := 0
 	entries, err := fs.ReadDir(object.fsys, ".")
 	if err != nil {
@@ -1312,7 +1323,7 @@ func (object *ObjectBase) Check() error {
 				versionCounter++
 			}
 		} else {
-			if !allowedFilesRegexp.MatchString(entry.Name()) {
+			if !slices.Contains(allowedFiles, entry.Name()) {
 				object.addValidationError(E001, "invalid file '%s' found", entry.Name())
 			}
 		}
-- 
2.43.0


From 5cdeeba5ab6a2eb4005b5f383bdf2cf111072920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 034/108] fix: check the keys and types of inventories and
 empty content folders

---
 pkg/ocfl/inventory.go      | 34 ++++++++++++++++++++++++++++++++++
 pkg/ocfl/inventorybase.go  |  7 +++++++
 pkg/ocfl/inventorytypes.go |  5 +++--
 pkg/ocfl/objectbase.go     | 12 ++++++++++++
 4 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index e572747..a9661e5 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"emperror.dev/errors"
 	"encoding/json"
+	"fmt"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
@@ -73,6 +74,39 @@ func newInventory(ctx context.Context, object Object, folder string, version OCF
 	}
 }
 
+// checkInventoryKeys looks for missing and unknown keys of an inventory. in contrast to go, the keys are case-sensitive
+func checkInventoryKeys(inventory map[string]any, version OCFLVersion, addError func(errno ValidationErrorCode, format string, a ...any)) {
+	check := func(name string, data map[string]any, errno ValidationErrorCode, must []string, optional ...string) {
+		for _, key := range must {
+			if _, ok := data[key]; !ok {
+				addError(errno, "no key '%s' in %s", key, name)
+			}
+		}
+		// up to version 1.0 additional keys were not forbidden
+		if version == Version1_0 {
+			return
+		}
+		for key := range data {
+			if !slices.Contains(must, key) && !slices.Contains(optional, key) {
+				addError(E102, "unknown key '%s' in %s", key, name)
+			}
+		}
+	}
+	check("inventory", inventory, E036, []string{"id", "type", "digestAlgorithm", "head", "manifest", "versions"}, "contentDirectory", "fixity")
+	versions, _ := inventory["versions"].(map[string]any)
+	for ver, versionAny := range versions {
+		data, ok := versionAny.(map[string]any)
+		if !ok {
+			addError(E047, "version '%s' is not an object", ver)
+			continue
+		}
+		check(fmt.Sprintf("version '%s'", ver), data, E048, []string{"created", "state"}, "message", "user")
+		if user, ok := data["user"].(map[string]any); ok {
+			check(fmt.Sprintf("user of version '%s'", ver), user, E054, []string{"name"}, "address")
+		}
+	}
+}
+
 func InventoryIsEqual(i1, i2 Inventory) bool {
 	data1, err := json.Marshal(i1)
 	if err != nil {
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index ab17e04..1959712 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -137,6 +137,13 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.Head = NewOCFLString("")
 	}
 
+	if i.Manifest.err != nil && !inCreation {
+		i.addValidationError(E092, "invalid manifest: %v", i.Manifest.err)
+	}
+	if i.Versions.err != nil && !inCreation {
+		i.addValidationError(E044, "invalid versions: %v", i.Versions.err)
+	}
+
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
 		if vInt, err := strconv.Atoi(strings.TrimPrefix(ver, "v")); err != nil || !vRegexp.MatchString(ver) {
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 5f787c2..899aa36 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -86,8 +86,9 @@ func (t *OCFLTime) UnmarshalJSON(data []byte) error {
 		t.err = errors.Wrapf(err, "cannot unmarshal time '%s'", string(data))
 		return nil
 	}
-	tt, err := time.Parse(time.RFC3339, str)
-	if err != nil {
+	// in contrast to time.Parse() this allows the format of RFC 3339 only
+	var tt time.Time
+	if err := tt.UnmarshalText([]byte(str)); err != nil {
 		t.err = errors.Wrapf(err, "cannot parse time %s", string(data))
 		return nil
 	}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index cd67e2c..9a934b7 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -262,6 +262,9 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create empty inventory")
 	}
+	checkInventoryKeys(anyMap, version, func(errno ValidationErrorCode, format string, a ...any) {
+		addValidationErrors(object.ctx, GetValidationError(version, errno).AppendDescription(format, a...).AppendDescription("(%s/inventory.json)", folder).AppendContext("object '%v'", object.fsys))
+	})
 	if err := json.Unmarshal(data, inventory); err != nil {
 		// now lets try it again
 		jsonMap := map[string]any{}
@@ -273,6 +276,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 			if _, ok := jsonMap["head"].(string); !ok {
 				addValidationErrors(object.ctx, GetValidationError(version, E040).AppendDescription("head is not of string type: %v", jsonMap["head"]).AppendContext("object '%v'", object.fsys))
 			}
+			addValidationErrors(object.ctx, GetValidationError(version, E033).AppendDescription("invalid structure: %v", err).AppendContext("object '%v'", object.fsys))
 		}
 		//return nil, errors.Wrapf(err, "cannot marshal data - '%s'", string(data))
 	}
@@ -1055,6 +1059,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 	objectContentFiles := map[string][]string{}
 	objectContentFilesFlat := []string{}
 	objectFilesFlat := []string{}
+	emptyDirs := map[string]bool{}
 	for ver, cont := range versionContents {
 		// load all object version content files
 		versionContent := ver + "/" + cont
@@ -1074,7 +1079,11 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
 				}
 				path = filepath.ToSlash(path)
+				delete(emptyDirs, filepath.ToSlash(filepath.Dir(path)))
 				if d.IsDir() {
+					if strings.HasPrefix(path, versionContent+"/") {
+						emptyDirs[path] = true
+					}
 					if path != ver && path != versionContent && !strings.HasPrefix(path, versionContent+"/") {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
@@ -1109,6 +1118,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			}
 		}
 	}
+	for dir := range emptyDirs {
+		object.addValidationError(E024, "empty folder '%s'", dir)
+	}
 	// load all inventories
 	versionInventories, err := object.getVersionInventories()
 	if err != nil {
-- 
2.43.0


From 0eea5297e61fee416981f672d63602215fd6f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 035/108] fix: allow unused manifest digests in inventories of
 version 1.0

---
 pkg/ocfl/inventorybase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 1959712..72f803a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -392,7 +392,8 @@ func (i *InventoryBase) checkManifest() error {
 		} else {
 			digests = sliceInsertSorted(digests, lowerDigest)
 			//digests = append(digests, digest)
-			if !slices.Contains(versionDigests, digest) {
+			// up to version 1.0 unused digests were not forbidden
+			if i.Type != InventorySpec1_0 && !slices.Contains(versionDigests, digest) {
 				i.addValidationError(E107, "digest '%s' does not appear in any version", digest)
 			}
 		}
-- 
2.43.0


From 648814e2a7b408ea0a1ec2ba067d0fe542ce615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 036/108] fix: continue objects with upper case digests

---
 pkg/ocfl/inventorybase.go  |  8 ++++++++
 pkg/ocfl/inventorytypes.go | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 72f803a..28f3304 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -747,6 +747,14 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 			return errors.New(fmt.Sprintf("version '%s' already writeable", i.GetHead()))
 		}
 	*/
+	// digests are case-insensitive, new content is always added with lower case digests
+	i.Manifest.Manifest = lowerDigests(i.Manifest.Manifest)
+	for _, version := range i.Versions.Versions {
+		version.State.State = lowerDigests(version.State.State)
+	}
+	for alg, fixity := range i.GetFixity() {
+		i.Fixity.Fixity[alg] = lowerDigests(fixity)
+	}
 	lastHead := i.Head.string
 	var lastVersion *Version
 	if lastHead == "" {
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 899aa36..158b381 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -178,6 +178,19 @@ func equalDigestMap(m1, m2 map[string][]string) bool {
 	return true
 }
 
+// lowerDigests converts all digests to lower case
+func lowerDigests(m map[string][]string) map[string][]string {
+	result := make(map[string][]string, len(m))
+	for digest, paths := range m {
+		lower := strings.ToLower(digest)
+		if existing, ok := result[lower]; ok {
+			paths = append(slices.Clone(existing), paths...)
+		}
+		result[lower] = paths
+	}
+	return result
+}
+
 // pathDigests returns the digest of every logical path
 func (v *Version) pathDigests() map[string]string {
 	result := map[string]string{}
-- 
2.43.0


From c091b9c443e9654497a71c7904e18533fffcbd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 037/108] fix: refuse versions which do not fit into the zero
 padding

---
 pkg/ocfl/inventorybase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 28f3304..267eda1 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -779,6 +779,10 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 			i.Head.string = fmt.Sprintf("v%d", v+1)
 		} else {
 			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
+			if len(i.Head.string) != len(lastHead) {
+				i.Head.string = lastHead
+				return errors.Errorf("no version after '%s' possible for object '%s'", lastHead, i.GetID())
+			}
 		}
 	}
 	i.Versions.Versions[i.Head.string] = &Version{
-- 
2.43.0


From 99c23fc76541adb629bb04389e57753387612c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 038/108] fix: do not add missing users and messages to older
 versions

---
 pkg/ocfl/inventorybase.go  |  2 ++
 pkg/ocfl/inventorytypes.go | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 267eda1..a6bbfe6 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -163,11 +163,13 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
+			version.noUser = true
 		}
 		version.User.Finalize()
 		if version.Message == nil {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
+			version.noMessage = true
 		}
 		if version.State == nil {
 			i.addValidationError(E048, "no state key in version '%s'", ver)
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 158b381..063d56e 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -103,7 +103,16 @@ type User struct {
 }
 type OCFLUser struct {
 	User
-	err error
+	noAddress bool
+	err       error
+}
+
+func (u *OCFLUser) MarshalJSON() ([]byte, error) {
+	user := u.User
+	if u.noAddress && user.Address != nil && user.Address.string == "" {
+		user.Address = nil
+	}
+	return json.Marshal(user)
 }
 
 func NewOCFLUser(name, address string) *OCFLUser {
@@ -124,6 +133,7 @@ func (u *OCFLUser) UnmarshalJSON(data []byte) error {
 		return nil
 	}
 	u.User.Address = tu.Address
+	u.noAddress = tu.Address == nil
 	u.User.Name = tu.Name
 
 	return nil
@@ -143,6 +153,26 @@ type Version struct {
 	Message *OCFLString `json:"message"`
 	State   *OCFLState  `json:"state"`
 	User    *OCFLUser   `json:"user"`
+
+	// keys which were not part of the loaded inventory
+	noMessage bool
+	noUser    bool
+}
+
+func (v *Version) MarshalJSON() ([]byte, error) {
+	version := struct {
+		Created *OCFLTime   `json:"created"`
+		Message *OCFLString `json:"message,omitempty"`
+		State   *OCFLState  `json:"state"`
+		User    *OCFLUser   `json:"user,omitempty"`
+	}{Created: v.Created, State: v.State}
+	if !v.noMessage {
+		version.Message = v.Message
+	}
+	if !v.noUser {
+		version.User = v.User
+	}
+	return json.Marshal(version)
 }
 
 func (v *Version) EqualMeta(v2 *Version) bool {
-- 
2.43.0


From 306f628d8bf255904b2cf81916f4ffe46001fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 039/108] fix: sort validation results consistently

---
 pkg/ocfl/validationerror.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 492e269..5011904 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -158,7 +158,10 @@ func validationSort(E1, E2 *ValidationError) int {
 	sr1 := strings.HasPrefix(E1.Context, "storage root")
 	sr2 := strings.HasPrefix(E2.Context, "storage root")
 	if sr1 != sr2 {
-		return -1 // sr1 && !sr2
+		if sr1 {
+			return -1
+		}
+		return 1
 	}
 	return cmp.Compare(E1.Context+string(E1.Code)+E1.Description2, E2.Context+string(E2.Code)+E2.Description2)
 }
@@ -287,8 +290,11 @@ func GetValidationError(version OCFLVersion, errno ValidationErrorCode) *Validat
 		}
 		errno = errnomap
 		err, ok = errlist[errno]
-		if ok {
-			return err
+		if !ok {
+			return &ValidationError{
+				Code:        E000,
+				Description: fmt.Sprintf("unknown error %s", errno),
+			}
 		}
 	}
 	return err
-- 
2.43.0


From 6388800c22e1cc922ea93f0986d005e5805a3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 040/108] fix: keep the creation time of older versions as it
 is

---
 pkg/ocfl/inventorybase.go  | 2 +-
 pkg/ocfl/inventorytypes.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a6bbfe6..f53066e 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -788,7 +788,7 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		}
 	}
 	i.Versions.Versions[i.Head.string] = &Version{
-		Created: &OCFLTime{time.Now(), nil},
+		Created: &OCFLTime{Time: time.Now()},
 		Message: NewOCFLString(msg),
 		State:   &OCFLState{State: map[string][]string{}},
 		User:    NewOCFLUser(UserName, UserAddress),
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 063d56e..77bdd49 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -73,11 +73,15 @@ func (s *OCFLString) String() string {
 
 type OCFLTime struct {
 	time.Time
-	err error
+	loaded string // original text, older versions are not changed
+	err    error
 }
 
 func (t *OCFLTime) MarshalJSON() ([]byte, error) {
-	tstr := t.Format(time.RFC3339)
+	tstr := t.loaded
+	if tstr == "" {
+		tstr = t.Format(time.RFC3339)
+	}
 	return json.Marshal(tstr)
 }
 func (t *OCFLTime) UnmarshalJSON(data []byte) error {
@@ -93,6 +97,7 @@ func (t *OCFLTime) UnmarshalJSON(data []byte) error {
 		return nil
 	}
 	t.Time = tt
+	t.loaded = str
 
 	return nil
 }
-- 
2.43.0


From 342af107c1b8e06206be8232f23d477684fc1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 041/108] fix: check the file name in sidecars exactly

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9a934b7..ec54bf5 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -284,7 +284,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	return inventory, inventory.Finalize(false)
 }
 
-var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory.json$`)
+var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory\.json$`)
 
 // loadInventory loads inventory from existing Object
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
-- 
2.43.0


From 9105cf40b49d9f93ddf471ffc29935ed36b1c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 042/108] fix: accept creation times of RFC 3339 only

---
 pkg/ocfl/inventorytypes.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 77bdd49..d356517 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -6,6 +6,7 @@ import (
 	"github.com/je4/utils/v2/pkg/checksum"
 	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
+	"regexp"
 	"strings"
 	"time"
 )
@@ -71,6 +72,8 @@ func (s *OCFLString) String() string {
 	return s.string
 }
 
+var rfc3339Regexp = regexp.MustCompile(`^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[+-]\d{2}:\d{2})$`)
+
 type OCFLTime struct {
 	time.Time
 	loaded string // original text, older versions are not changed
@@ -90,9 +93,13 @@ func (t *OCFLTime) UnmarshalJSON(data []byte) error {
 		t.err = errors.Wrapf(err, "cannot unmarshal time '%s'", string(data))
 		return nil
 	}
-	// in contrast to time.Parse() this allows the format of RFC 3339 only
-	var tt time.Time
-	if err := tt.UnmarshalText([]byte(str)); err != nil {
+	// time.Parse() is not as strict as RFC 3339
+	if !rfc3339Regexp.MatchString(str) {
+		t.err = errors.Errorf("time %s is not RFC 3339", string(data))
+		return nil
+	}
+	tt, err := time.Parse(time.RFC3339, str)
+	if err != nil {
 		t.err = errors.Wrapf(err, "cannot parse time %s", string(data))
 		return nil
 	}
-- 
2.43.0


From 221a285c4f56e40b210e8a4891a816a8cc33bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 043/108] fix: refuse incomplete records in the data files of
 extensions

---
 pkg/extension/NNNN-filesystem.go | 6 ++++++
 pkg/extension/NNNN-migration.go  | 3 +++
 pkg/extension/NNNN-thumbnail.go  | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index fcc3cab..d30a232 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -257,8 +257,14 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			if err := json.Unmarshal([]byte(lineStr), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, lineStr)
 			}
+			if meta == nil || meta.Meta == nil {
+				return nil, errors.Errorf("no metadata in line of '%s' %s - [%s]", object.GetID(), v, lineStr)
+			}
 			lines = append(lines, meta)
 		}
+		if err := r.Err(); err != nil {
+			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
+		}
 		if err := inventory.IterateStateFiles(v, func(internals, externals []string, digest string) error {
 			for _, line := range lines {
 				if slices.Contains(externals, line.Path) {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 34cbe4f..f738044 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -444,6 +444,9 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
+			if meta.Migration == nil {
+				return nil, errors.Errorf("no migration in line of '%s' %s - [%s]", object.GetID(), v, line)
+			}
 			var digest string
 			for cs, names := range manifest {
 				for _, name := range names {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index f36a08e..cd0456f 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -467,6 +467,9 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 			// old versions do not have a filename
 			if meta.Filename == "" {
+				if len([]rune(meta.SourceDigest)) < 2 {
+					return nil, errors.Errorf("invalid source digest '%s' in object '%s'", meta.SourceDigest, object.GetID())
+				}
 				meta.Filename = fmt.Sprintf("data/%s/%s/%s.%s", string([]rune(meta.SourceDigest)[0]), string([]rune(meta.SourceDigest)[1]), meta.SourceDigest, strings.ToLower(thumb.ThumbnailConfig.Ext))
 			}
 			switch strings.ToLower(thumb.StorageType) {
-- 
2.43.0


From cb3f874a27aaedc99856b4913c9233fca0c2d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 044/108] fix: report metadata of extensions without folder as
 missing

---
 pkg/ocfl/helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 0e6d2cc..7111fb6 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -379,6 +379,9 @@ func ReadFile(object Object, name, version, storageType, storageName string, fsy
 		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
 		fsys = object.GetFS()
 	case "extension":
+		if fsys == nil {
+			return nil, errors.Errorf("[%s/%s] %s: fsys is nil", object.GetID(), version, name)
+		}
 		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
 	default:
 		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
-- 
2.43.0


From 0f16401f5cded36ac07e5f3762b67304cdf2fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 045/108] fix: extract no two contents to one path

---
 pkg/ocfl/objectbase.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ec54bf5..49b881a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1472,6 +1472,8 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 	var manifest strings.Builder
 	var err error
 	var digestAlg = object.i.GetDigestAlgorithm()
+	manifestName := fmt.Sprintf("manifest.%s", digestAlg)
+	extracted := map[string]string{}
 	if err := object.i.IterateStateFiles(version, func(internals, externals []string, digest string) error {
 		for _, external := range externals {
 			external, err = object.extensionManager.BuildObjectExtractPath(object, external, area)
@@ -1486,6 +1488,13 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			if !fs.ValidPath(external) || external == "." {
 				return errors.Errorf("invalid path '%s'", external)
 			}
+			if withManifest && external == manifestName {
+				return errors.Errorf("cannot extract '%s': name is needed for the manifest file", external)
+			}
+			if other, ok := extracted[external]; ok && other != digest {
+				return errors.Errorf("path '%s' has different contents [%s] and [%s]", external, other, digest)
+			}
+			extracted[external] = digest
 			if err := func() error {
 				if len(internals) == 0 {
 					return errors.Errorf("no internal paths for '%v'", externals)
@@ -1538,7 +1547,6 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 		return errors.Wrap(err, "cannot iterate external files")
 	}
 	if withManifest {
-		manifestName := fmt.Sprintf("manifest.%s", digestAlg)
 		fp, err := writefs.Create(fsys, manifestName)
 		if err != nil {
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
-- 
2.43.0


From e82150b70b4aea52aa33701ded95c4a9b16b7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 046/108] fix: make a new version visible after everything else
 is stored

---
 pkg/extension/NNNN-metafile.go |  2 +-
 pkg/extension/config.go        | 22 ++++++++++++++++++----
 pkg/ocfl/objectbase.go         |  7 ++++---
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index f6435d6..ba3c09e 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -155,7 +155,7 @@ func (sl *MetaFile) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	if _, err := writefs.WriteFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
+	if err := storeFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
 		return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
 	}
 	return errors.WithStack(writeJSON(sl.fsys, "config.json", sl.MetaFileConfig))
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 9b0895a..14a0909 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -1,6 +1,7 @@
 package extension
 
 import (
+	"bytes"
 	"emperror.dev/errors"
 	"encoding/json"
 	"github.com/je4/filesystem/v3/pkg/writefs"
@@ -15,15 +16,28 @@ type Config struct {
 
 // writeJSON stores a value as an indented json file
 func writeJSON(fsys fs.FS, name string, value any) error {
+	var buf bytes.Buffer
+	jenc := json.NewEncoder(&buf)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(value); err != nil {
+		return errors.Wrapf(err, "cannot encode '%v/%s'", fsys, name)
+	}
+	return errors.WithStack(storeFile(fsys, name, buf.Bytes()))
+}
+
+// storeFile stores a file. A file which already has the content is left alone,
+// so that an interrupted update cannot damage it.
+func storeFile(fsys fs.FS, name string, data []byte) error {
+	if old, err := fs.ReadFile(fsys, name); err == nil && bytes.Equal(old, data) {
+		return nil
+	}
 	writer, err := writefs.Create(fsys, name)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create '%v/%s'", fsys, name)
 	}
-	jenc := json.NewEncoder(writer)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(value); err != nil {
+	if _, err := writer.Write(data); err != nil {
 		writer.Close()
-		return errors.Wrapf(err, "cannot encode '%v/%s'", fsys, name)
+		return errors.Wrapf(err, "cannot write '%v/%s'", fsys, name)
 	}
 	return errors.Wrapf(writer.Close(), "cannot close '%v/%s'", fsys, name)
 }
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 49b881a..060e611 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -539,12 +539,13 @@ func (object *ObjectBase) Close() error {
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
 	}
-	if err := object.StoreInventory(false, true); err != nil {
-		return errors.Wrap(err, "cannot store inventory")
-	}
+	// the root inventory comes last, since it makes the new version visible
 	if err := object.StoreExtensions(); err != nil {
 		return errors.Wrap(err, "cannot store extensions")
 	}
+	if err := object.StoreInventory(false, true); err != nil {
+		return errors.Wrap(err, "cannot store inventory")
+	}
 	return nil
 }
 
-- 
2.43.0


From 0842c596ed7a02c67900b1cd3a42b8642e44d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 047/108] fix: no panic if the root inventory cannot be created

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 060e611..db6d122 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -365,10 +365,10 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	if objectRoot {
 		iWriter, err := writefs.Create(object.fsys, iFileName)
 		if err != nil {
-			iWriter.Close()
 			return errors.Wrap(err, "cannot create inventory.json")
 		}
 		if _, err := iWriter.Write(jsonBytes); err != nil {
+			iWriter.Close()
 			return errors.Wrap(err, "cannot write to inventory.json")
 		}
 		if err := iWriter.Close(); err != nil {
-- 
2.43.0


From f0977fc26c26a1affed5ec6e22197439b3b91c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 048/108] fix: report failing writes of content instead of
 waiting forever

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 10 +++---
 pkg/ocfl/helper.go                            | 18 ++++++++++
 pkg/ocfl/objectbase.go                        | 35 ++++++++++---------
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 932e571..393ca8e 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -559,22 +559,22 @@ func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io
 	}
 	multiWriter := io.MultiWriter(ws...)
 	_, err := io.Copy(multiWriter, reader)
+	var errs = []error{}
+	if err != nil {
+		errs = append(errs, errors.Wrap(err, "cannot copy stream to actions"))
+	}
 	for _, w := range ws {
 		// it's sure that w is a bufio.Writer
 		if err := w.(*bufio.Writer).Flush(); err != nil {
-			return errors.Wrap(err, "cannot flush buffer")
+			errs = append(errs, errors.Wrap(err, "cannot flush buffer"))
 		}
 	}
 	for _, w := range writer {
 		w.ForceClose()
 	}
-	if err != nil {
-		return errors.Wrap(err, "cannot copy stream to actions")
-	}
 	// wait for all actions to finish
 	wg.Wait()
 	close(extErrors)
-	var errs = []error{}
 	for err := range extErrors {
 		errs = append(errs, err)
 	}
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 7111fb6..c8e1d31 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -239,6 +239,24 @@ func pathConflicts(paths []string) []string {
 	return result
 }
 
+// errorKeeper remembers the first error of a writer and discards all further data.
+// a target, which stops accepting data, would block checksum.Copy() forever
+type errorKeeper struct {
+	writer io.Writer
+	err    error
+}
+
+func (ek *errorKeeper) Write(p []byte) (int, error) {
+	if ek.err == nil {
+		var n int
+		n, ek.err = ek.writer.Write(p)
+		if ek.err == nil && n < len(p) {
+			ek.err = io.ErrShortWrite
+		}
+	}
+	return len(p), nil
+}
+
 func sliceInsertSorted[E constraints.Ordered](data []E, v E) []E {
 	var dummy E
 	i, _ := slices.BinarySearch(data, v) // find slot
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index db6d122..3e0eae4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -668,14 +668,11 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
 	}
-	defer writer.Close()
+	target := &errorKeeper{writer: writer}
 
 	var checksums map[checksum.DigestAlgorithm]string
 	if noExtensionHook {
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer)
-		if err != nil {
-			return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
-		}
+		checksums, err = checksum.Copy(digestAlgorithms, r, target)
 	} else {
 		wg := sync.WaitGroup{}
 		wg.Add(1)
@@ -686,22 +683,28 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 			if err := object.extensionManager.StreamObject(object, pr, names.ExternalPaths, names.InternalPath); err != nil {
 				extErrors <- err
 			}
+			// never let the writer wait for a reader
+			_, _ = io.Copy(io.Discard, pr)
 		}()
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer, pw)
-		_ = pw.Close()
-		if err != nil {
-			return "", errors.Wrapf(err, "cannot copy '%s' -> '%s'", names.ExternalPaths, names.ManifestPath)
-		}
+		checksums, err = checksum.Copy(digestAlgorithms, r, target, pw)
+		_ = pw.CloseWithError(err)
 		wg.Wait()
 		close(extErrors)
-		select {
-		case err, ok := <-extErrors:
-			if ok {
-				return "", errors.Wrapf(err, "error on StreamObject() extension hook for object '%s'", object.GetID())
-			}
-		default:
+		if extErr := <-extErrors; extErr != nil && err == nil {
+			writer.Close()
+			return "", errors.Wrapf(extErr, "error on StreamObject() extension hook for object '%s'", object.GetID())
 		}
 	}
+	if err == nil {
+		err = target.err
+	}
+	if err != nil {
+		writer.Close()
+		return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
+	}
+	if err := writer.Close(); err != nil {
+		return "", errors.Wrapf(err, "cannot close '%s'", names.ManifestPath)
+	}
 
 	if digest == "" {
 		var ok bool
-- 
2.43.0


From bcd2c779aa09314f3a877336c4abe93a4013d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 049/108] fix: close source files and report errors when adding
 files

---
 pkg/ocfl/objectbase.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3e0eae4..61306a2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -754,6 +754,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot create names for '%v'", files)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
@@ -899,16 +902,21 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			// do the checksum
 			digest, err = checksum.Checksum(file, object.i.GetDigestAlgorithm())
 			if err != nil {
+				file.Close()
 				return errors.Wrapf(err, "cannot create digest of '%s'", path)
 			}
 			// set filepointer to beginning
 			if seeker, ok := file.(io.Seeker); ok {
 				// if we have a seeker, we just seek
 				if _, err := seeker.Seek(0, 0); err != nil {
-					panic(err)
+					file.Close()
+					return errors.Wrapf(err, "cannot seek in file '%v/%s'", fsys, path)
 				}
 			} else {
 				// otherwise reopen it
+				if err := file.Close(); err != nil {
+					return errors.Wrapf(err, "cannot close file '%v/%s'", fsys, path)
+				}
 				file, err = fsys.Open(path)
 				if err != nil {
 					return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
@@ -917,14 +925,17 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			// if file is already there we do nothing
 			dup, err := object.i.AlreadyExists(newPath, digest)
 			if err != nil {
+				file.Close()
 				return errors.Wrapf(err, "cannot check duplicate for '%s' [%s]", names.InternalPath, digest)
 			}
 			if dup {
+				file.Close()
 				object.logger.Info().Msgf("[%s] '%s' already exists. ignoring", object.GetID(), newPath)
 				return nil
 			}
 			// file already ingested, but new virtual name
 			if dups := object.i.GetDuplicates(digest); len(dups) > 0 {
+				file.Close()
 				object.logger.Info().Msgf("[%s] file with same content as '%s' already exists. creating virtual copy", object.GetID(), newPath)
 				if err := object.i.CopyFile(newPath, digest); err != nil {
 					return errors.Wrapf(err, "cannot append '%s' to inventory as '%s'", path, names.InternalPath)
@@ -938,6 +949,7 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		}
 		if !noExtensionHook {
 			if err := object.extensionManager.AddFileBefore(object, nil, path, names.InternalPath, area, isDir); err != nil {
+				file.Close()
 				return errors.Wrapf(err, "error on AddFileBefore() extension hook")
 			}
 		}
-- 
2.43.0


From 09c1b83cd9997b09b5846f48ef03b371d63d0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 050/108] fix: report errors on closing jsonl files

---
 pkg/ocfl/helper.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index c8e1d31..1f0055a 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -492,12 +492,12 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		brotliReader := brotli.NewReader(bufReader)
 		pr, pw := io.Pipe()
 		go func() {
-			defer pw.Close()
 			gzipWriter := gzip.NewWriter(pw)
-			defer gzipWriter.Close()
-			if _, err := io.Copy(gzipWriter, brotliReader); err != nil {
-				pw.CloseWithError(errors.Wrapf(err, "error on gzip compressor"))
+			_, err := io.Copy(gzipWriter, brotliReader)
+			if closeErr := gzipWriter.Close(); err == nil {
+				err = closeErr
 			}
+			pw.CloseWithError(errors.Wrapf(err, "error on gzip compressor"))
 		}()
 		reader = pr
 	case "none":
@@ -530,10 +530,13 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
 		}
-		defer fp.Close()
 		if _, err := io.Copy(fp, reader); err != nil {
+			fp.Close()
 			return errors.Wrapf(err, "cannot write '%v/%s'", fsys, targetname)
 		}
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close '%v/%s'", fsys, targetname)
+		}
 	default:
 		return errors.Errorf("unsupported storage type '%s'", storageType)
 	}
-- 
2.43.0


From 3b6c29cd2078fd22e67318a7fefc88515da02789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 051/108] fix: never overwrite content stored earlier in a
 session

---
 pkg/ocfl/objectbase.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 61306a2..1cdc32d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -664,6 +664,11 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		digestAlgorithms = append(digestAlgorithms, object.i.GetDigestAlgorithm())
 	}
 
+	// never overwrite content, which is already part of the object
+	if slices.Contains(object.i.GetFilesFlat(), names.ManifestPath) {
+		return "", errors.Errorf("content '%s' of '%v' already exists", names.ManifestPath, names.ExternalPaths)
+	}
+
 	writer, err := writefs.Create(object.fsys, names.ManifestPath)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
-- 
2.43.0


From 9259b1e44a48a33a80a900e0625ee607c9a3d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 052/108] fix: report extensions which cannot be read instead
 of ignoring them

---
 pkg/ocfl/extensionFactory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 3a2dd50..1be1441 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -101,6 +101,13 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 
 		ext, err := f.Create(sub)
 		if err != nil {
+			// an extension, which cannot be read, must not be ignored
+			var pathErr *fs.PathError
+			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) {
+				if fi, statErr := fs.Stat(sub, "config.json"); statErr != nil || !fi.IsDir() {
+					return nil, errors.Wrapf(err, "cannot load extension %s", fName)
+				}
+			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
 			if validation != nil {
 				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
-- 
2.43.0


From cf0d56be3135d970a5ee9fbe41431116193c6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 053/108] fix: report errors while storing the configuration of
 a storage root

---
 pkg/ocfl/storagerootbase.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 0db2016..ff82660 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -131,11 +131,12 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 	}
 
 	subfs, err := writefs.SubFSCreate(osr.fsys, "extensions")
-	if err == nil {
-		osr.extensionManager.SetFS(subfs, true)
-		if err := osr.extensionManager.WriteConfig(); err != nil {
-			return errors.Wrap(err, "cannot store extension configs")
-		}
+	if err != nil {
+		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", osr.fsys, "extensions")
+	}
+	osr.extensionManager.SetFS(subfs, true)
+	if err := osr.extensionManager.WriteConfig(); err != nil {
+		return errors.Wrap(err, "cannot store extension configs")
 	}
 	if err := osr.extensionManager.StoreRootLayout(osr.fsys); err != nil {
 		return errors.Wrap(err, "cannot store ocfl layout")
@@ -219,8 +220,12 @@ func (osr *StorageRootBase) StoreExtensionConfig(name string, config any) error
 		return errors.Wrapf(err, "cannot create file %s", extConfig)
 	}
 	if _, err := w.Write(cfgJson); err != nil {
+		w.Close()
 		return errors.Wrapf(err, "cannot write file %s - %s", extConfig, string(cfgJson))
 	}
+	if err := w.Close(); err != nil {
+		return errors.Wrapf(err, "cannot close file %s", extConfig)
+	}
 	return nil
 }
 
-- 
2.43.0


From a96dbd2077abb044ce1769abd9364e4f74f5dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 054/108] fix: report failing writes of extracted content
 instead of waiting forever

---
 pkg/ocfl/objectbase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 1cdc32d..a903bb4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1540,7 +1540,11 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 					}
 				}()
 				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
-				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
+				keeper := &errorKeeper{writer: target}
+				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, keeper)
+				if err == nil {
+					err = keeper.err
+				}
 				if err != nil {
 					return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				}
-- 
2.43.0


From 0aa4e5fa3c2cb0414bcfd1a6e2518222b524d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 055/108] fix: store the name of the extension manager in the
 initial extension

---
 pkg/extension/initial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index c40faf1..92b15ef 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -76,7 +76,7 @@ func (sl *Initial) Terminate() error {
 }
 
 func (sl *Initial) SetExtension(ext string) {
-	sl.ExtensionName = ext
+	sl.InitialConfig.Extension = ext
 }
 
 func (sl *Initial) GetExtension() string {
-- 
2.43.0


From 3f4bd2c7505f9ffb1737ea24c53479529dc822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 056/108] fix: name the manager in ocfl_layout.json if several
 layouts are active

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 393ca8e..4b15c5b 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -285,12 +285,7 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 
 // StorageRootPath
 func (manager *GOCFLExtensionManager) StoreRootLayout(fsys fs.FS) error {
-	for _, ext := range manager.storageRootPath {
-		if err := ext.WriteLayout(fsys); err != nil {
-			return errors.Wrapf(err, "cannot store '%v'", ext)
-		}
-	}
-	return nil
+	return errors.Wrap(manager.WriteLayout(fsys), "cannot store ocfl layout")
 }
 func (manager *GOCFLExtensionManager) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
 	var errs = []error{}
-- 
2.43.0


From 47606395a302f1f8fcea5e5e61ee1bec62a41534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 057/108] fix: store empty parameters of the mets extension

---
 pkg/extension/NNNN-mets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index b579194..33e5d4f 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -107,9 +107,9 @@ type MetsConfig struct {
 	*ocfl.ExtensionConfig
 	StorageType                string `json:"storageType"`
 	StorageName                string `json:"storageName"`
-	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata,omitempty"`
-	MetsFile                   string `json:"metsFile,omitempty"`
-	PremisFile                 string `json:"premisFile,omitempty"`
+	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata"`
+	MetsFile                   string `json:"metsFile"`
+	PremisFile                 string `json:"premisFile"`
 }
 type Mets struct {
 	*MetsConfig
-- 
2.43.0


From 982f01c7035aa0bfb86ef71ae3ac2aa15516d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 058/108] fix: do not extract files of areas whose folder name
 starts like the area's

---
 pkg/extension/NNNN-content-subpath.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index edc7bd3..6364f2e 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -177,11 +177,15 @@ func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPat
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	originalPath = strings.TrimLeft(originalPath, "/")
-	if !strings.HasPrefix(originalPath, subpath.Path) {
+	areaPath := strings.Trim(filepath.ToSlash(filepath.Clean(subpath.Path)), "/")
+	if areaPath == "." {
+		return originalPath, nil
+	}
+	areaPath += "/"
+	if !strings.HasPrefix(originalPath, areaPath) {
 		return "", errors.Wrapf(ocfl.ExtensionObjectExtractPathWrongAreaError, "'%s' does not belong to area '%s'", originalPath, area)
 	}
-	originalPath = strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")
-	return originalPath, nil
+	return strings.TrimPrefix(originalPath, areaPath), nil
 }
 
 func (sl *ContentSubPath) GetAreaPath(object ocfl.Object, area string) (string, error) {
-- 
2.43.0


From ac8ddfd7a57cfa6002e6704b40ef5fecc4440ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 059/108] fix: refuse paths which leave the folder of their
 area

---
 pkg/extension/NNNN-content-subpath.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 6364f2e..ac90b47 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -112,6 +112,11 @@ func (sl *ContentSubPath) WriteConfig() error {
 }
 
 func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
+	return sl.areaPath(originalPath, area)
+}
+
+// areaPath puts a path below the folder of an area
+func (sl *ContentSubPath) areaPath(originalPath string, area string) (string, error) {
 	if area == "" {
 		area = sl.area
 	}
@@ -122,6 +127,9 @@ func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPa
 	if !ok {
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
+	if p := filepath.ToSlash(filepath.Clean(strings.TrimLeft(originalPath, "/"))); p == ".." || strings.HasPrefix(p, "../") {
+		return "", errors.Errorf("path '%s' is not within area '%s'", originalPath, area)
+	}
 	path := filepath.ToSlash(filepath.Join(subpath.Path, originalPath))
 	return path, nil
 }
@@ -151,18 +159,7 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 }
 
 func (sl *ContentSubPath) BuildObjectStatePath(object ocfl.Object, originalPath string, area string) (string, error) {
-	if area == "" {
-		area = sl.area
-	}
-	if area == "full" {
-		return originalPath, nil
-	}
-	subpath, ok := sl.Paths[area]
-	if !ok {
-		return "", errors.Errorf("invalid area '%s'", area)
-	}
-	path := filepath.ToSlash(filepath.Join(subpath.Path, originalPath))
-	return path, nil
+	return sl.areaPath(originalPath, area)
 }
 
 func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPath string, area string) (string, error) {
-- 
2.43.0


From 8187e5f8a9afcda1185714ffdb1ce9596f918346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 060/108] fix: describe areas in the same order in every
 version

---
 pkg/extension/NNNN-content-subpath.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index ac90b47..3abc34c 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"github.com/atsushinee/go-markdown-generator/doc"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -143,7 +145,10 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 	readme.WriteTitle("Description of folders", doc.LevelTitle).
 		WriteLines(2)
 	var row int
-	for _, entry := range sl.Paths {
+	areas := maps.Keys(sl.Paths)
+	slices.Sort(areas)
+	for _, area := range areas {
+		entry := sl.Paths[area]
 		readme.WriteTitle(entry.Path, doc.LevelNormal)
 		readme.Write(entry.Description)
 		readme.Write("\n\n")
-- 
2.43.0


From 1f66ff6c37e91e95ea4c7455d2521fb791a34806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 061/108] fix: read data files of extensions from where they
 were stored

---
 pkg/extension/NNNN-metafile.go | 10 ++-----
 pkg/ocfl/helper.go             | 54 +++++++++++++++-------------------
 2 files changed, 25 insertions(+), 39 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index ba3c09e..b80615c 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -305,14 +305,8 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, sl.StorageName, sl.MetaName)), "/")
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "", true, false); err != nil {
+		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName)), "/")
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 1f0055a..10ac634 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -379,22 +379,21 @@ func CleanPath(fname string, MaxFilenameLength, MaxPathnameLength int) (string,
 
 func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
 	var targetname string
-	switch storageType {
+	switch strings.ToLower(storageType) {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
+		names, err := object.BuildNames([]string{name}, storageName)
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
+			return nil, errors.Wrapf(err, "cannot build name of '%s' in area '%s'", name, storageName)
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s", path, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
+		targetname = object.GetInventory().BuildManifestNameVersion(names.InternalPath, version)
 		fsys = object.GetFS()
 	case "path":
-		path, err := object.GetAreaPath("content")
+		path := strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
+		names, err := object.BuildNames([]string{path}, "content")
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
+			return nil, errors.Wrapf(err, "cannot build name of '%s' in area '%s'", path, "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s", path, storageName, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
+		targetname = object.GetInventory().BuildManifestNameVersion(names.InternalPath, version)
 		fsys = object.GetFS()
 	case "extension":
 		if fsys == nil {
@@ -409,9 +408,6 @@ func ReadFile(object Object, name, version, storageType, storageName string, fsy
 }
 
 func ReadJsonL(object Object, name, version, compress, storageType, storageName string, fsys fs.FS) ([]byte, error) {
-	if fsys == nil {
-		return nil, errors.Errorf("[%s/%s] %s: fsys is nil", object.GetID(), version, name)
-	}
 	var ext string
 	switch compress {
 	case "brotli":
@@ -422,26 +418,28 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 	default:
 		return nil, errors.Errorf("invalid compression '%s'", compress)
 	}
-	var targetname string
-	switch storageType {
+	var targetname = fmt.Sprintf("%s_%s.jsonl%s", name, version, ext)
+	switch strings.ToLower(storageType) {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
+		names, err := object.BuildNames([]string{targetname}, storageName)
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
+			return nil, errors.Wrapf(err, "cannot build name of '%s' in area '%s'", targetname, storageName)
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s_%s.jsonl%s", path, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
+		targetname = object.GetInventory().BuildManifestNameVersion(names.InternalPath, version)
 		fsys = object.GetFS()
 	case "path":
-		path, err := object.GetAreaPath("content")
+		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, targetname), "/")
+		names, err := object.BuildNames([]string{targetname}, "content")
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
+			return nil, errors.Wrapf(err, "cannot build name of '%s' in area '%s'", targetname, "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
+		targetname = object.GetInventory().BuildManifestNameVersion(names.InternalPath, version)
 		fsys = object.GetFS()
 	case "extension":
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, version, ext), "/")
+		if fsys == nil {
+			return nil, errors.Errorf("[%s/%s] %s: fsys is nil", object.GetID(), version, name)
+		}
+		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, targetname), "/")
 	default:
 		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
 	}
@@ -514,14 +512,8 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname := fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, head, ext)
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "", true, false); err != nil {
+		targetname := strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, head, ext), "/")
+		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
-- 
2.43.0


From 6ec6f5064cc9583eb40195a322e10c77ec0e8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 062/108] fix: keep the files of folders in echo updates and in
 their area

---
 pkg/extension/NNNN-filesystem.go | 39 ++++++++------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index d30a232..657e325 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -9,7 +9,6 @@ import (
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
-	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
 	"io"
@@ -115,18 +114,6 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 	inventory := object.GetInventory()
 
-	var err error
-	var emptyChecksum string
-	var emptyExists bool
-	if isDir && extFS.Folders != "" {
-		emptyChecksum, err = checksum.Checksum(bytes.NewReader([]byte{}), inventory.GetDigestAlgorithm())
-		if err != nil {
-			return errors.Wrap(err, "cannot calculate checksum for empty file")
-		}
-		manifest := inventory.GetManifest()
-		_, emptyExists = manifest[emptyChecksum]
-	}
-
 	head := inventory.GetHead()
 	if _, ok := extFS.buffer[head]; !ok {
 		extFS.buffer[head] = &bytes.Buffer{}
@@ -160,26 +147,18 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 		if isDir {
 			newEmptyFile := filepath.ToSlash(filepath.Join(src, extFS.Folders))
-			if !emptyExists {
-				if _, err := object.AddReader(io.NopCloser(bytes.NewReader([]byte{})), []string{newEmptyFile}, area, true, false); err != nil {
+			// the folder may have a file of this name already
+			if _, err := fs.Stat(sourceFS, newEmptyFile); errors.Is(err, fs.ErrNotExist) {
+				if err := object.AddData([]byte{}, newEmptyFile, true, area, true, false); err != nil {
 					return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
 				}
-				emptyExists = true
-			} else {
-				// todo: make it more elegant
-				names, err := object.BuildNames([]string{newEmptyFile}, area)
-				if err != nil {
-					return errors.Wrapf(err, "cannot build names for '%s'", newEmptyFile)
-				}
-				if len(names.ExternalPaths) == 0 {
-					return errors.Errorf("cannot build external names for '%s'", newEmptyFile)
-				}
-				newEmptyFile = names.ExternalPaths[0]
-				if err := inventory.CopyFile(names.ExternalPaths[0], emptyChecksum); err != nil {
-					return errors.Wrapf(err, "cannot copy empty file to '%s'", newEmptyFile)
-				}
+			} else if err != nil {
+				return errors.Wrapf(err, "cannot stat '%s'", newEmptyFile)
+			}
+			newSrc, err = object.GetExtensionManager().BuildObjectStatePath(object, newEmptyFile, area)
+			if err != nil {
+				return errors.Wrapf(err, "cannot build object extract path for '%s'", newEmptyFile)
 			}
-			newSrc = newEmptyFile
 		}
 
 		fsLine := &FileSystemLine{
-- 
2.43.0


From ef3c07500b4fec57900321b2fcb997474bfd765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 063/108] fix: keep extension metadata readable while and after
 several versions are written

---
 pkg/extension/NNNN-filesystem.go | 41 ++++++++------------------------
 pkg/extension/NNNN-indexer.go    | 37 +++++++---------------------
 pkg/extension/config.go          | 14 +++++++++++
 3 files changed, 33 insertions(+), 59 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 657e325..46af2f9 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -6,12 +6,10 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
-	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -76,11 +74,8 @@ type FilesystemConfig struct {
 
 type Filesystem struct {
 	*FilesystemConfig
-	fsys        fs.FS
-	lastHead    string
-	currentHead string
-	buffer      map[string]*bytes.Buffer
-	writer      *brotli.Writer
+	fsys   fs.FS
+	buffer map[string]*bytes.Buffer // lines per version
 }
 
 func (extFS *Filesystem) Terminate() error {
@@ -118,10 +113,6 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 	if _, ok := extFS.buffer[head]; !ok {
 		extFS.buffer[head] = &bytes.Buffer{}
 	}
-	if extFS.currentHead != head {
-		extFS.writer = brotli.NewWriter(extFS.buffer[head])
-		extFS.currentHead = head
-	}
 
 	for _, src := range source {
 		fullpath, err := writefs.Fullpath(sourceFS, src)
@@ -169,9 +160,7 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 		if err != nil {
 			return errors.Errorf("cannot marshal result %v", fsLine)
 		}
-		if _, err := extFS.writer.Write(append(data, []byte("\n")...)); err != nil {
-			return errors.Errorf("cannot brotli %s", string(data))
-		}
+		extFS.buffer[head].Write(append(data, '\n'))
 	}
 	return nil
 }
@@ -211,12 +200,7 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 		var data []byte
 		if buf, ok := extFS.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
-			// need a new reader on the buffer
-			reader := brotli.NewReader(bytes.NewBuffer(buf.Bytes()))
-			data, err = io.ReadAll(reader)
-			if err != nil {
-				return nil, errors.Wrapf(err, "cannot read buffer for '%s' '%s'", object.GetID(), v)
-			}
+			data = buf.Bytes()
 		} else {
 			data, err = ocfl.ReadJsonL(object, "filesystem", v, extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys)
 			if err != nil {
@@ -273,27 +257,22 @@ func (extFS *Filesystem) UpdateObjectBefore(object ocfl.Object) error {
 }
 
 func (extFS *Filesystem) UpdateObjectAfter(object ocfl.Object) error {
-	if extFS.writer == nil {
-		return nil
-	}
-	if err := extFS.writer.Flush(); err != nil {
-		return errors.Wrap(err, "cannot flush brotli writer")
-	}
-	if err := extFS.writer.Close(); err != nil {
-		return errors.Wrap(err, "cannot close brotli writer")
-	}
 	head := object.GetInventory().GetHead()
 	if head == "" {
 		return errors.Errorf("no head for object '%s'", object.GetID())
 	}
 	buffer, ok := extFS.buffer[head]
-	if !ok {
+	if !ok || buffer.Len() == 0 {
 		return nil
 	}
+	data, err := brotliBytes(buffer.Bytes())
+	if err != nil {
+		return errors.Wrapf(err, "cannot compress metadata of '%s' '%s'", object.GetID(), head)
+	}
 	if err := ocfl.WriteJsonL(
 		object,
 		"filesystem",
-		buffer.Bytes(),
+		data,
 		extFS.FilesystemConfig.Compress,
 		extFS.StorageType,
 		extFS.StorageName,
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 3928433..d9fe261 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -7,7 +7,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/andybalholm/brotli"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
 	"github.com/je4/utils/v2/pkg/zLogger"
@@ -118,11 +117,9 @@ type Indexer struct {
 	*IndexerConfig
 	fsys           fs.FS
 	indexerURL     *url.URL
-	buffer         map[string]*bytes.Buffer
-	writer         *brotli.Writer
+	buffer         map[string]*bytes.Buffer // lines per version
 	active         bool
 	indexerActions *ironmaiden.ActionDispatcher
-	currentHead    string
 	localCache     bool
 	logger         zLogger.ZLogger
 }
@@ -217,29 +214,24 @@ func (sl *Indexer) UpdateObjectAfter(object ocfl.Object) error {
 		return errors.New("Please enable indexer in config file")
 	}
 
-	if sl.writer == nil {
-		return nil
-	}
 	//var err error
 	//	sl.active = false
-	if err := sl.writer.Flush(); err != nil {
-		return errors.Wrap(err, "cannot flush brotli writer")
-	}
-	if err := sl.writer.Close(); err != nil {
-		return errors.Wrap(err, "cannot close brotli writer")
-	}
 	head := object.GetInventory().GetHead()
 	if head == "" {
 		return errors.Errorf("no head for object '%s'", object.GetID())
 	}
 	buffer, ok := sl.buffer[head]
-	if !ok {
+	if !ok || buffer.Len() == 0 {
 		return nil
 	}
+	data, err := brotliBytes(buffer.Bytes())
+	if err != nil {
+		return errors.Wrapf(err, "cannot compress metadata of '%s' '%s'", object.GetID(), head)
+	}
 	if err := ocfl.WriteJsonL(
 		object,
 		"indexer",
-		buffer.Bytes(),
+		data,
 		sl.IndexerConfig.Compress,
 		sl.StorageType,
 		sl.StorageName,
@@ -266,12 +258,7 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		var data []byte
 		if buf, ok := sl.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
-			// need a new reader on the buffer
-			reader := brotli.NewReader(bytes.NewBuffer(buf.Bytes()))
-			data, err = io.ReadAll(reader)
-			if err != nil {
-				return nil, errors.Wrapf(err, "cannot read buffer for '%s' '%s'", object.GetID(), v)
-			}
+			data = buf.Bytes()
 		} else {
 			data, err = ocfl.ReadJsonL(object, "indexer", v, sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys)
 			if err != nil {
@@ -311,10 +298,6 @@ func (sl *Indexer) StreamObject(object ocfl.Object, reader io.Reader, stateFiles
 	if _, ok := sl.buffer[head]; !ok {
 		sl.buffer[head] = &bytes.Buffer{}
 	}
-	if sl.currentHead != head {
-		sl.writer = brotli.NewWriter(sl.buffer[head])
-		sl.currentHead = head
-	}
 
 	var result *ironmaiden.ResultV2
 	var err error
@@ -352,9 +335,7 @@ func (sl *Indexer) StreamObject(object ocfl.Object, reader io.Reader, stateFiles
 		if err != nil {
 			return errors.Errorf("cannot marshal result %v", indexerline)
 		}
-		if _, err := sl.writer.Write(append(data, []byte("\n")...)); err != nil {
-			return errors.Errorf("cannot brotli %s", string(data))
-		}
+		sl.buffer[head].Write(append(data, '\n'))
 	}
 	return nil
 }
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 14a0909..a72fbfe 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"emperror.dev/errors"
 	"encoding/json"
+	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"io/fs"
 )
@@ -14,6 +15,19 @@ type Config struct {
 	ExtensionName string `json:"extensionName"`
 }
 
+// brotliBytes compresses data
+func brotliBytes(data []byte) ([]byte, error) {
+	var buf bytes.Buffer
+	writer := brotli.NewWriter(&buf)
+	if _, err := writer.Write(data); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if err := writer.Close(); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return buf.Bytes(), nil
+}
+
 // writeJSON stores a value as an indented json file
 func writeJSON(fsys fs.FS, name string, value any) error {
 	var buf bytes.Buffer
-- 
2.43.0


From 3bdf41ef17a8d51528d2e6cc745cea1e0db4f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 064/108] fix: report extension metadata which cannot be read,
 expect none of versions without

---
 pkg/extension/NNNN-filesystem.go | 6 ++++--
 pkg/extension/NNNN-indexer.go    | 8 +++++++-
 pkg/extension/NNNN-migration.go  | 6 ++++--
 pkg/extension/NNNN-thumbnail.go  | 6 ++++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 46af2f9..4ee2fd9 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -203,9 +203,11 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			data = buf.Bytes()
 		} else {
 			data, err = ocfl.ReadJsonL(object, "filesystem", v, extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys)
+			if errors.Is(err, fs.ErrNotExist) {
+				continue // nothing recorded for this version
+			}
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index d9fe261..6306cc4 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -261,6 +261,9 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			data = buf.Bytes()
 		} else {
 			data, err = ocfl.ReadJsonL(object, "indexer", v, sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys)
+			if errors.Is(err, fs.ErrNotExist) {
+				continue // nothing recorded for this version
+			}
 			if err != nil {
 				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
@@ -276,7 +279,10 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
-			result[path2digest[meta.Path]] = meta.Indexer
+			// content which is no longer part of the object has no metadata
+			if digest, ok := path2digest[meta.Path]; ok {
+				result[digest] = meta.Indexer
+			}
 		}
 		if err := r.Err(); err != nil {
 			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index f738044..c715b37 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -428,9 +428,11 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			}
 		} else {
 			data, err = ocfl.ReadJsonL(object, "migration", v, mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys)
+			if errors.Is(err, fs.ErrNotExist) {
+				continue // nothing recorded for this version
+			}
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index cd0456f..c6c7413 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -427,9 +427,11 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 		} else {
 			data, err = ocfl.ReadJsonL(object, "thumbnail", v, thumb.ThumbnailConfig.Compress, thumb.StorageType, thumb.StorageName, thumb.fsys)
+			if errors.Is(err, fs.ErrNotExist) {
+				continue // nothing recorded for this version
+			}
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
-- 
2.43.0


From 1c28bea763799cd0df6a5e57bd1204079baf6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 065/108] fix: do not let an extension which closes its stream
 break the others

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 4b15c5b..1fe3509 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -539,9 +539,10 @@ func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io
 		wg.Add(1)
 		pr, pw := io.Pipe()
 		writer = append(writer, iou.NewWriteIgnoreCloser(pw))
-		go func(r io.Reader, extension ocfl.ExtensionStream) {
+		go func(r io.ReadCloser, extension ocfl.ExtensionStream) {
 			defer wg.Done()
-			if err := extension.StreamObject(object, r, stateFiles, dest); err != nil {
+			// closing the stream early would make writing fail for all extensions
+			if err := extension.StreamObject(object, iou.NewReadIgnoreCloser(r), stateFiles, dest); err != nil {
 				extErrors <- errors.Wrapf(err, "cannot call StreamObject() from extension '%s' for object '%s'", extension.GetName(), object.GetID())
 			}
 			// discard remaining data
-- 
2.43.0


From cff719994fcabe676cd624f33e7ff6a1447ea2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 066/108] fix: name the digest algorithm as such in the
 statistics report

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a903bb4..b4f48b2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -160,7 +160,7 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 }
 
 func (object *ObjectBase) Stat(w io.Writer, statInfo []StatInfo) error {
-	fmt.Fprintf(w, "[%s] Path: %s\n", object.GetID(), object.GetDigestAlgorithm())
+	fmt.Fprintf(w, "[%s] Digest: %s\n", object.GetID(), object.GetDigestAlgorithm())
 	i := object.GetInventory()
 	fmt.Fprintf(w, "[%s] Head: %s\n", object.GetID(), i.GetHead())
 	f := i.GetFixity()
-- 
2.43.0


From b5459cddf12f0cd722f7c92dfa729c016caf94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 067/108] fix: extract fixity digests of every copy of a
 content

---
 pkg/ocfl/objectbase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index b4f48b2..9e91f72 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -137,7 +137,12 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 			VersionName:  map[string][]string{},
 			Extension:    map[string]any{},
 		}
-		fm.Checksums = fixity.Checksums(fnames[0])
+		// not every copy of a content needs to have fixity digests
+		for _, fname := range fnames {
+			for alg, cs := range fixity.Checksums(fname) {
+				fm.Checksums[alg] = cs
+			}
+		}
 		for v, version := range versions {
 			for d, fnames := range version.State.State {
 				if digest == d {
-- 
2.43.0


From 8eeef2fee561691cadf3adcff086fa4c77941b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 068/108] fix: replace backslashes in cleaned file names

---
 pkg/ocfl/helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 10ac634..3c40740 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -60,7 +60,7 @@ import (
  * https://www.dwheeler.com/essays/fixing-unix-linux-filenames.html
  */
 func FixFilename(fname string) string {
-	rule_1_5 := regexp.MustCompile("[\x00-\x1F\x7F\n\r\t*?:\\[\\]\"<>|(){}&'!\\;]")
+	rule_1_5 := regexp.MustCompile("[\x00-\x1F\x7F\n\r\t*?:\\[\\]\"<>|(){}&'!\\\\;]")
 	rule_2_4_6 := regexp.MustCompile("^[\\s\\-~]*(.*?)\\s*$")
 
 	fname = strings.ToValidUTF8(fname, "")
@@ -342,7 +342,7 @@ func showStatus(ctx context.Context, logger zLogger.ZLogger) error {
  *
  * https://www.dwheeler.com/essays/fixing-unix-linux-filenames.html
  */
-var rule_1_5 = regexp.MustCompile("[\x00-\x1F\x7F\n\r\t*?:\\[\\]\"<>|(){}&'!\\;#@]")
+var rule_1_5 = regexp.MustCompile("[\x00-\x1F\x7F\n\r\t*?:\\[\\]\"<>|(){}&'!\\\\;#@]")
 var rule_2_4_6 = regexp.MustCompile("^[\\s\\-~]*(.*?)\\s*$")
 
 var ErrFilenameTooLong = errors.New("filename too long")
-- 
2.43.0


From 15d4c19d826952cd641c7eabb4a1d957e601ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 069/108] fix: keep relative file names relative when cleaning
 them

---
 pkg/ocfl/helper.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 3c40740..74418f0 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -63,6 +63,7 @@ func FixFilename(fname string) string {
 	rule_1_5 := regexp.MustCompile("[\x00-\x1F\x7F\n\r\t*?:\\[\\]\"<>|(){}&'!\\\\;]")
 	rule_2_4_6 := regexp.MustCompile("^[\\s\\-~]*(.*?)\\s*$")
 
+	absolute := strings.HasPrefix(fname, "/")
 	fname = strings.ToValidUTF8(fname, "")
 
 	names := strings.Split(fname, "/")
@@ -75,11 +76,8 @@ func FixFilename(fname string) string {
 	}
 
 	fname = filepath.ToSlash(filepath.Join(result...))
-	if len(result) > 0 {
-		if result[0] == "" {
-			fname = "/" + fname
-		}
-
+	if absolute {
+		fname = "/" + fname
 	}
 	return fname
 }
-- 
2.43.0


From 7a503379e14d04ebe405707105283aaa0cc835ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 070/108] fix: collect validation messages of concurrent
 operations safely

---
 pkg/ocfl/validationerror.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 5011904..c3b817d 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"golang.org/x/exp/slices"
 	"strings"
+	"sync"
 )
 
 type ValidationErrorCode string
@@ -152,6 +153,7 @@ type ValidationError struct {
 
 type ValidationStatus struct {
 	Errors []*ValidationError
+	mutex  sync.Mutex
 }
 
 func validationSort(E1, E2 *ValidationError) int {
@@ -168,6 +170,8 @@ func validationSort(E1, E2 *ValidationError) int {
 
 // removes duplicate errors
 func (status *ValidationStatus) Compact() {
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	slices.SortFunc(status.Errors, validationSort)
 	status.Errors = slices.CompactFunc(status.Errors, func(E1, E2 *ValidationError) bool {
 		return E1.Context == E2.Context && E1.Code == E2.Code && E1.Description2 == E2.Description2
@@ -207,6 +211,8 @@ func addValidationErrors(ctx context.Context, vErrs ...*ValidationError) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot add validation error")
 	}
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	status.Errors = append(status.Errors, vErrs...)
 	return nil
 }
@@ -217,6 +223,8 @@ func addValidationWarnings(ctx context.Context, vWarns ...*ValidationError) erro
 		return errors.Wrap(err, "cannot add validation error")
 	}
 	//	status.Warnings = append(status.Warnings, vWarns...)
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	status.Errors = append(status.Errors, vWarns...)
 	return nil
 }
-- 
2.43.0


From 0b39915b1cb939c638a006a2ff29513409fa77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 071/108] fix: mark storage roots as modified safely for
 concurrent sessions

---
 pkg/ocfl/storagerootbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index ff82660..5fad5d9 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -18,6 +18,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 )
 
 type StorageRootBase struct {
@@ -29,7 +30,7 @@ type StorageRootBase struct {
 	logger           zLogger.ZLogger
 	version          OCFLVersion
 	digest           checksum.DigestAlgorithm
-	modified         bool
+	modified         atomic.Bool
 }
 
 //var rootConformanceDeclaration = fmt.Sprintf("0=ocfl_%s", VERSION)
@@ -60,10 +61,10 @@ func (osr *StorageRootBase) String() string {
 }
 
 func (osr *StorageRootBase) IsModified() bool {
-	return osr.modified
+	return osr.modified.Load()
 }
 func (osr *StorageRootBase) setModified() {
-	osr.modified = true
+	osr.modified.Store(true)
 }
 
 func (osr *StorageRootBase) addValidationError(errno ValidationErrorCode, format string, a ...any) error {
-- 
2.43.0


From 98222aad97cc12629927d632d6f5e012d597d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 072/108] fix: use the documented default name of metadata
 files

---
 pkg/extension/NNNN-metafile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index b80615c..9fb0fbb 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -54,6 +54,9 @@ func NewMetaFileFS(fsys fs.FS) (*MetaFile, error) {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
 
+	if config.MetaName == "" {
+		config.MetaName = "info.json"
+	}
 	if config.MetaName == "config.json" {
 		return nil, errors.Errorf("config.json is not allowed for field name in %v/%s", fsys, "config.json")
 	}
-- 
2.43.0


From c425e93ef3eeb753364250b11f8299b2fde75b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 073/108] fix: do not panic without a metadata source parameter

---
 pkg/extension/NNNN-metafile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 9fb0fbb..0cbeeac 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -195,7 +195,7 @@ func toStringKeys(val interface{}) (interface{}, error) {
 }
 
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
-	if sl.metadataSource.Path == "" {
+	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
 	}
 	if sl.stored {
-- 
2.43.0


From 6c6da6e32cbefe7f00a06cba4c9de16082ffbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 074/108] fix: do not take http error pages for metadata
 documents

---
 pkg/extension/NNNN-metafile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 0cbeeac..83e7740 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -227,6 +227,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot get '%s'", fname)
 		}
 		rc = resp.Body
+		if resp.StatusCode != http.StatusOK {
+			rc.Close()
+			return errors.Errorf("cannot get '%s': %s", fname, resp.Status)
+		}
 	case "https":
 		fname = strings.Replace(sl.metadataSource.String(), "$ID", object.GetID(), -1)
 		resp, err := http.Get(fname)
@@ -234,6 +238,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot get '%s'", fname)
 		}
 		rc = resp.Body
+		if resp.StatusCode != http.StatusOK {
+			rc.Close()
+			return errors.Errorf("cannot get '%s': %s", fname, resp.Status)
+		}
 	case "file":
 		fname = strings.Replace(sl.metadataSource.Path, "$ID", object.GetID(), -1)
 		fname = "/" + strings.TrimLeft(fname, "/")
-- 
2.43.0


From 6477870a256e8520c350cc5e20bfa30348d5f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 075/108] fix: refuse metadata sources with more than one
 document

---
 pkg/extension/NNNN-metafile.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 83e7740..c4b8874 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -273,6 +273,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err := jr.Decode(&info); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
+		if _, err := jr.Token(); err != io.EOF {
+			return errors.Errorf("cannot decode info file: data after document in '%s'", fname)
+		}
 		if err := sl.compiledSchema.Validate(info); err != nil {
 			return errors.Wrap(err, "cannot validate info file")
 		}
@@ -281,6 +284,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err := jr.Decode(&info); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
+		var next any
+		if err := jr.Decode(&next); err != io.EOF {
+			return errors.Errorf("cannot decode info file: data after document in '%s'", fname)
+		}
 		info, err = toStringKeys(info)
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
-- 
2.43.0


From aa1d3b7d9455c6ec0adcbb31fc20805e832f172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 076/108] fix: keep numbers and structure of metadata documents

---
 pkg/extension/NNNN-metafile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index c4b8874..05f606a 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -270,6 +270,7 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	switch strings.ToLower(filepath.Ext(fname)) {
 	case ".json":
 		jr := json.NewDecoder(rc)
+		jr.UseNumber()
 		if err := jr.Decode(&info); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
@@ -379,8 +380,10 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	if metadata == nil {
 		return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
 	}
-	var metaStruct = map[string]any{}
-	if err := json.Unmarshal(metadata, &metaStruct); err != nil {
+	var metaStruct any
+	jr := json.NewDecoder(bytes.NewReader(metadata))
+	jr.UseNumber()
+	if err := jr.Decode(&metaStruct); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal '%s'", sl.MetaName)
 	}
 	result[""] = metaStruct
-- 
2.43.0


From 061bd5d5bd816f86004649e51468bebe22196238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 077/108] fix: extract metadata of objects without metadata
 file

---
 pkg/extension/NNNN-metafile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 05f606a..63b7dea 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -376,9 +376,13 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		if metadata, err = ocfl.ReadFile(object, sl.MetaName, ver, sl.StorageType, sl.StorageName, sl.fsys); err == nil {
 			break
 		}
+		if !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		}
 	}
 	if metadata == nil {
-		return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		// there is no metadata without a source
+		return result, nil
 	}
 	var metaStruct any
 	jr := json.NewDecoder(bytes.NewReader(metadata))
-- 
2.43.0


From 55340a1ad6db919ff974e982422860b96f91c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 078/108] fix: read metadata files from where they are written

---
 pkg/ocfl/helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 74418f0..0254c04 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -386,7 +386,7 @@ func ReadFile(object Object, name, version, storageType, storageName string, fsy
 		targetname = object.GetInventory().BuildManifestNameVersion(names.InternalPath, version)
 		fsys = object.GetFS()
 	case "path":
-		path := strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
+		path := strings.TrimLeft(filepath.ToSlash(filepath.Join(storageName, name)), "/")
 		names, err := object.BuildNames([]string{path}, "content")
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot build name of '%s' in area '%s'", path, "content")
@@ -397,7 +397,7 @@ func ReadFile(object Object, name, version, storageType, storageName string, fsy
 		if fsys == nil {
 			return nil, errors.Errorf("[%s/%s] %s: fsys is nil", object.GetID(), version, name)
 		}
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
+		targetname = strings.TrimLeft(filepath.ToSlash(filepath.Join(storageName, name)), "/")
 	default:
 		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
 	}
-- 
2.43.0


From e24aada0e08364acfeca8a00f7864198f91fd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 079/108] fix: validate the metadata document which is stored

---
 pkg/extension/NNNN-metafile.go | 51 ++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 63b7dea..ed55850 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -13,6 +13,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io"
 	"io/fs"
+	"math/big"
 	"net/http"
 	"net/url"
 	"os"
@@ -194,6 +195,39 @@ func toStringKeys(val interface{}) (interface{}, error) {
 	}
 }
 
+// decodeJSON keeps the precision of numbers, but accepts only those the schema validation can deal with
+func decodeJSON(data []byte) (any, error) {
+	var result any
+	jr := json.NewDecoder(bytes.NewReader(data))
+	jr.UseNumber()
+	if err := jr.Decode(&result); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return result, checkNumbers(result)
+}
+
+func checkNumbers(val any) error {
+	switch val := val.(type) {
+	case map[string]any:
+		for _, v := range val {
+			if err := checkNumbers(v); err != nil {
+				return err
+			}
+		}
+	case []any:
+		for _, v := range val {
+			if err := checkNumbers(v); err != nil {
+				return err
+			}
+		}
+	case json.Number:
+		if _, ok := new(big.Rat).SetString(val.String()); !ok {
+			return errors.Errorf("number '%s' not supported", val)
+		}
+	}
+	return nil
+}
+
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
@@ -277,9 +311,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if _, err := jr.Token(); err != io.EOF {
 			return errors.Errorf("cannot decode info file: data after document in '%s'", fname)
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	case ".yaml":
 		jr := yaml.NewDecoder(rc)
 		if err := jr.Decode(&info); err != nil {
@@ -293,9 +324,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	case ".toml":
 		jr := toml.NewDecoder(rc)
 		if _, err := jr.Decode(&info); err != nil {
@@ -305,9 +333,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	default:
 		return errors.Errorf("unknown file extension in '%s' only .json, .toml and .yaml supported", fname)
 	}
@@ -316,6 +341,14 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot marshal info json")
 	}
+	// the stored json is what has to be valid
+	info, err = decodeJSON(infoData)
+	if err != nil {
+		return errors.Wrap(err, "cannot decode info json")
+	}
+	if err := sl.compiledSchema.Validate(info); err != nil {
+		return errors.Wrap(err, "cannot validate info file")
+	}
 
 	switch strings.ToLower(sl.StorageType) {
 	case "area":
-- 
2.43.0


From 3b209380a5a92c463a1c0a07ffeb0608ed15962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 080/108] fix: do not ignore metadata sources which are no
 valid url

---
 pkg/extension/NNNN-metafile.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index ed55850..dd62bb0 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -111,12 +111,13 @@ type MetaFileConfig struct {
 }
 type MetaFile struct {
 	*MetaFileConfig
-	schema         []byte
-	metadataSource *url.URL
-	fsys           fs.FS
-	compiledSchema *jsonschema.Schema
-	stored         bool
-	info           map[string][]byte
+	schema            []byte
+	metadataSource    *url.URL
+	metadataSourceErr error
+	fsys              fs.FS
+	compiledSchema    *jsonschema.Schema
+	stored            bool
+	info              map[string][]byte
 }
 
 func (sl *MetaFile) Terminate() error {
@@ -139,11 +140,9 @@ func (sl *MetaFile) SetParams(params map[string]string) error {
 	if params != nil {
 		name := fmt.Sprintf("ext-%s-%s", MetaFileName, "source")
 		if urlString, ok := params[name]; ok {
+			// an invalid parameter must not prevent reading of objects, but it must not be ignored on update
 			u, err := url.Parse(urlString)
-			if err != nil {
-				return errors.Wrapf(err, "invalid url parameter '%s' - '%s'", name, urlString)
-			}
-			sl.metadataSource = u
+			sl.metadataSource, sl.metadataSourceErr = u, errors.Wrapf(err, "invalid url parameter '%s' - '%s'", name, urlString)
 		}
 	}
 	return nil
@@ -229,6 +228,9 @@ func checkNumbers(val any) error {
 }
 
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
+	if sl.metadataSourceErr != nil {
+		return sl.metadataSourceErr
+	}
 	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
 	}
-- 
2.43.0


From 7c575187a5e5095adaaf2c5e49218c202447c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 081/108] fix: do not try to migrate deleted files

---
 pkg/extension/NNNN-migration.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index c715b37..470cc91 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -194,6 +194,10 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 		if mi.alreadyMigrated(cs) {
 			continue
 		}
+		// content of older versions only is not migrated
+		if _, err := inventory.GetStateFiles("", cs); err != nil {
+			continue
+		}
 		mi.migrationFiles[cs] = migrationFunctions
 	}
 
-- 
2.43.0


From 84a4d852770f95ebb7c39dd58216cbf463bb6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 082/108] fix: keep migrated files next to their originals

---
 pkg/extension/NNNN-migration.go    | 10 ++++------
 pkg/subsystem/migration/migrate.go | 14 ++++++--------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 470cc91..7c5ecb8 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -362,14 +362,12 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 					}
 				}
 			case migration.StrategyFolder:
-				for _, src := range stateFiles {
-					if slices.Contains(targetNames, src) {
+				for i, src := range stateFiles {
+					// only originals are moved to the folder with their name
+					if filepath.ToSlash(filepath.Dir(targetNames[i])) != src {
 						continue
 					}
-					var dest string
-					if !isMigrated {
-						dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
-					}
+					dest := filepath.ToSlash(filepath.Join(src, filepath.Base(src)))
 					if err := object.RenameFile(src, dest, cs); err != nil {
 						return errors.Wrapf(err, "cannot delete file '%s' in object '%s'", src, object.GetID())
 					}
diff --git a/pkg/subsystem/migration/migrate.go b/pkg/subsystem/migration/migrate.go
index 4e0f4b3..24afde7 100644
--- a/pkg/subsystem/migration/migrate.go
+++ b/pkg/subsystem/migration/migrate.go
@@ -38,19 +38,17 @@ type Function struct {
 	pronoms  []string
 }
 
-var migrationVersionRegexp = regexp.MustCompile(`^([^.]+)\.(.+)$`)
+var migrationVersionRegexp = regexp.MustCompile(`^v[0-9]+\.(.+)$`)
 
 func (f *Function) GetDestinationName(src string, head string, isMigrated bool) string {
 	dest := f.regexp.ReplaceAllString(src, f.replace)
 	if f.Strategy == StrategyFolder {
-		if isMigrated {
-			parts := migrationVersionRegexp.FindStringSubmatch(filepath.Base(src))
-			if parts == nil {
-				return ""
-			}
-			dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), fmt.Sprintf("%s.%s", head, parts[2])))
+		name := filepath.Base(dest)
+		// migrated files are already within the folder of the original file
+		if parts := migrationVersionRegexp.FindStringSubmatch(name); isMigrated && parts != nil {
+			dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), fmt.Sprintf("%s.%s", head, parts[1])))
 		} else {
-			dest = filepath.ToSlash(filepath.Join(src, fmt.Sprintf("%s.%s", head, dest)))
+			dest = filepath.ToSlash(filepath.Join(src, fmt.Sprintf("%s.%s", head, name)))
 		}
 	}
 	return dest
-- 
2.43.0


From f62c5555095e2e6bb2ea84828e155bee2a231652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 083/108] fix: migrate files of all areas

---
 pkg/extension/NNNN-migration.go   | 15 ++++-----------
 pkg/subsystem/migration/helper.go |  2 +-
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 7c5ecb8..fe8a137 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -320,20 +320,13 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 				return errors.Wrapf(err, "cannot build state path for file '%s' in object '%s'", targetNames[0], object.GetID())
 			}
 		*/
-		extractTargetNames := []string{}
-		for _, targetName := range targetNames {
-			extractTargetName, err := extensionManager.BuildObjectExtractPath(object, targetName, "")
-			if err != nil {
-				return errors.Wrapf(err, "cannot build extract path for file '%s' in object '%s'", targetName, object.GetID())
-			}
-			extractTargetNames = append(extractTargetNames, extractTargetName)
-		}
-		manifestName, err := object.GetExtensionManager().BuildObjectManifestPath(object, extractTargetNames[0], "content")
+		// the target names are full logical paths
+		manifestName, err := extensionManager.BuildObjectManifestPath(object, targetNames[0], "full")
 		if err != nil {
-			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", extractTargetNames[0], object.GetID())
+			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", targetNames[0], object.GetID())
 		}
 		path := inventory.BuildManifestName(manifestName)
-		if err := migration.DoMigrate(object, mig, ext, extractTargetNames, file); err != nil {
+		if err := migration.DoMigrate(object, mig, ext, targetNames, file); err != nil {
 			ml = &migrationLine{
 				Path: path,
 				Migration: &MigrationResult{
diff --git a/pkg/subsystem/migration/helper.go b/pkg/subsystem/migration/helper.go
index 505888e..42b19b3 100644
--- a/pkg/subsystem/migration/helper.go
+++ b/pkg/subsystem/migration/helper.go
@@ -100,7 +100,7 @@ func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []stri
 	if err != nil {
 		return errors.Wrapf(err, "cannot open file '%s'", targetFilename)
 	}
-	if _, err := object.AddReader(mFile, targetNames, "content", false, false); err != nil {
+	if _, err := object.AddReader(mFile, targetNames, "full", false, false); err != nil {
 		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
 	}
 	if err := mFile.Close(); err != nil {
-- 
2.43.0


From 374edac08e28cab460c104a69c524e3aa144be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 084/108] fix: do not migrate files again if another file has
 the same migration result

---
 pkg/extension/NNNN-migration.go | 47 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index fe8a137..ba87b09 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -161,21 +161,14 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get metadata from object %s", object.GetID())
 	}
-	for _, m := range meta.Files {
-		// check whether already migrated
-		migrationMetaAny, ok := m.Extension[MigrationName]
-		if !ok {
-			continue
-		}
-		migrationMeta, ok := migrationMetaAny.(*MigrationResult)
-		if !ok {
-			continue
-		}
+	// all sources are already migrated, even if some of them have the same result
+	if err := mi.iterateResults(object, func(_ string, migrationMeta *MigrationResult) {
 		if _, ok := mi.migratedFiles[inventory.GetHead()]; !ok {
 			mi.migratedFiles[inventory.GetHead()] = map[string]string{}
 		}
 		mi.migratedFiles[inventory.GetHead()][migrationMeta.Source] = migrationMeta.ID
-
+	}); err != nil {
+		return errors.Wrapf(err, "cannot get migration metadata for object '%s'", object.GetID())
 	}
 	for cs, m := range meta.Files {
 		indexerMetaAny, ok := m.Extension[IndexerName]
@@ -400,8 +393,18 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 }
 
 func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
-	var err error
 	var result = map[string]any{}
+	if err := mi.iterateResults(object, func(digest string, migrationMeta *MigrationResult) {
+		result[digest] = migrationMeta
+	}); err != nil {
+		return nil, err
+	}
+	return result, nil
+}
+
+// iterateResults calls fn with the digest of the migrated file for every recorded migration
+func (mi *Migration) iterateResults(object ocfl.Object, fn func(digest string, result *MigrationResult)) error {
+	var err error
 
 	inventory := object.GetInventory()
 	manifest := inventory.GetManifest()
@@ -411,7 +414,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			path2digest[name] = checksum
 		}
 	}
-	for v := range inventory.GetVersions() {
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := mi.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
@@ -419,7 +422,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			reader := brotli.NewReader(bytes.NewBuffer(buf.Bytes()))
 			data, err = io.ReadAll(reader)
 			if err != nil {
-				return nil, errors.Wrapf(err, "cannot read buffer for '%s' '%s'", object.GetID(), v)
+				return errors.Wrapf(err, "cannot read buffer for '%s' '%s'", object.GetID(), v)
 			}
 		} else {
 			data, err = ocfl.ReadJsonL(object, "migration", v, mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys)
@@ -427,7 +430,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 				continue // nothing recorded for this version
 			}
 			if err != nil {
-				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				return errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
@@ -439,10 +442,10 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			line := r.Text()
 			var meta = migrationLine{}
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
-				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
+				return errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
 			if meta.Migration == nil {
-				return nil, errors.Errorf("no migration in line of '%s' %s - [%s]", object.GetID(), v, line)
+				return errors.Errorf("no migration in line of '%s' %s - [%s]", object.GetID(), v, line)
 			}
 			var digest string
 			for cs, names := range manifest {
@@ -454,23 +457,23 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 				}
 			}
 			if digest == "" {
-				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Migration.Source, object.GetID())
+				return errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Migration.Source, object.GetID())
 			}
 			cs, ok := path2digest[meta.Path]
 			if !ok && meta.Migration.Error != "" {
 				cs, ok = path2digest[meta.Migration.Source]
 			}
 			if !ok {
-				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
+				return errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
 			}
 			meta.Migration.Source = digest
-			result[cs] = meta.Migration
+			fn(cs, meta.Migration)
 		}
 		if err := r.Err(); err != nil {
-			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
+			return errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
 		}
 	}
-	return result, nil
+	return nil
 }
 
 var (
-- 
2.43.0


From 405441a7684eb505feb9eddffcc50c85b692ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 085/108] fix: report errors when writing the migration
 configuration

---
 pkg/extension/NNNN-migration.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index ba87b09..3919d5c 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/andybalholm/brotli"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
 	"github.com/je4/indexer/v3/pkg/indexer"
@@ -130,11 +129,7 @@ func (mi *Migration) WriteConfig() error {
 	if mi.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	jsonData, _ := json.MarshalIndent(mi.MigrationConfig, "", "  ")
-	if _, err := writefs.WriteFile(mi.fsys, "config.json", jsonData); err != nil {
-		return errors.Wrap(err, "cannot write config.json")
-	}
-	return nil
+	return errors.WithStack(writeJSON(mi.fsys, "config.json", mi.MigrationConfig))
 }
 
 func (mi *Migration) UpdateObjectBefore(ocfl.Object) error {
-- 
2.43.0


From bcaf39d05c5bf7ab9893130e3d03e8fc9413ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 086/108] fix: do not displace other files by migration results

---
 pkg/extension/NNNN-migration.go | 84 ++++++++++++++++++++++++++++++++-
 1 file changed, 82 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 3919d5c..e1e9a3d 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -17,6 +17,7 @@ import (
 	"io/fs"
 	"path/filepath"
 	"regexp"
+	"strings"
 )
 
 const MigrationName = "NNNN-migration"
@@ -232,7 +233,19 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	if _, ok := mi.migratedFiles[head]; !ok {
 		mi.migratedFiles[head] = map[string]string{}
 	}
-	for cs, mig := range mi.migrationFiles {
+	// results of previous migrations with their sources
+	results := map[string][]string{}
+	if err := mi.iterateResults(object, func(digest string, result *MigrationResult) {
+		if result.Error == "" {
+			results[digest] = append(results[digest], result.Source)
+		}
+	}); err != nil {
+		return errors.Wrapf(err, "cannot get migration metadata for object '%s'", object.GetID())
+	}
+	checksums := maps.Keys(mi.migrationFiles)
+	slices.Sort(checksums)
+	for _, cs := range checksums {
+		mig := mi.migrationFiles[cs]
 		var isMigrated bool
 		if slices.Contains(migratedChecksums, cs) {
 			isMigrated = true
@@ -314,7 +327,14 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", targetNames[0], object.GetID())
 		}
 		path := inventory.BuildManifestName(manifestName)
-		if err := migration.DoMigrate(object, mig, ext, targetNames, file); err != nil {
+		err = checkTargetNames(inventory, mig, cs, stateFiles, targetNames, results)
+		if err == nil && slices.Contains(inventory.GetFilesFlat(), path) {
+			err = errors.Errorf("content '%s' already exists", path)
+		}
+		if err == nil {
+			err = migration.DoMigrate(object, mig, ext, uniqueNames(targetNames), file)
+		}
+		if err != nil {
 			ml = &migrationLine{
 				Path: path,
 				Migration: &MigrationResult{
@@ -387,6 +407,66 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	return nil
 }
 
+func uniqueNames(names []string) []string {
+	var result = []string{}
+	for _, name := range names {
+		if !slices.Contains(result, name) {
+			result = append(result, name)
+		}
+	}
+	return result
+}
+
+// checkTargetNames makes sure, that the migration does not displace other files
+func checkTargetNames(inventory ocfl.Inventory, mig *migration.Function, cs string, stateFiles, targetNames []string, results map[string][]string) error {
+	// all other files of the current version
+	var digests = map[string]string{}
+	if err := inventory.IterateStateFiles("", func(_, external []string, digest string) error {
+		for _, name := range external {
+			digests[name] = digest
+		}
+		return nil
+	}); err != nil {
+		return errors.Wrap(err, "cannot iterate state files")
+	}
+	inUse := map[string]bool{}
+	for _, digest := range digests {
+		inUse[digest] = true
+	}
+	newNames := uniqueNames(targetNames)
+	for i, src := range stateFiles {
+		switch mig.Strategy {
+		case migration.StrategyReplace:
+			delete(digests, src)
+		case migration.StrategyFolder:
+			if filepath.ToSlash(filepath.Dir(targetNames[i])) == src {
+				delete(digests, src)
+				newNames = append(newNames, filepath.ToSlash(filepath.Join(src, filepath.Base(src))))
+			}
+		}
+	}
+	for i, name := range newNames {
+		if slices.Contains(newNames[:i], name) {
+			return errors.Errorf("name '%s' is used twice", name)
+		}
+		for other, digest := range digests {
+			if other == name {
+				// migration results of older content may be replaced
+				sources, ok := results[digest]
+				for _, source := range sources {
+					ok = ok && !inUse[source]
+				}
+				if !ok && digest != cs {
+					return errors.Errorf("name '%s' is already in use", name)
+				}
+			} else if strings.HasPrefix(other, name+"/") || strings.HasPrefix(name, other+"/") {
+				return errors.Errorf("name '%s' conflicts with '%s'", name, other)
+			}
+		}
+	}
+	return nil
+}
+
 func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	var result = map[string]any{}
 	if err := mi.iterateResults(object, func(digest string, migrationMeta *MigrationResult) {
-- 
2.43.0


From c87f07323e7b24988285e83ace85c5600410d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 087/108] fix: report errors when storing migrated files

---
 pkg/extension/NNNN-migration.go   |  5 +++++
 pkg/subsystem/migration/helper.go | 32 +++++++++++++++++++------------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index e1e9a3d..9b980cd 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -333,6 +333,11 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 		}
 		if err == nil {
 			err = migration.DoMigrate(object, mig, ext, uniqueNames(targetNames), file)
+			var toolErr *migration.ToolError
+			if err != nil && !errors.As(err, &toolErr) {
+				// the object is damaged, that's not a problem of the migration
+				return errors.Wrapf(err, "cannot store migration of '%s' in object '%s'", manifestFiles[0], object.GetID())
+			}
 		}
 		if err != nil {
 			ml = &migrationLine{
diff --git a/pkg/subsystem/migration/helper.go b/pkg/subsystem/migration/helper.go
index 42b19b3..c13c327 100644
--- a/pkg/subsystem/migration/helper.go
+++ b/pkg/subsystem/migration/helper.go
@@ -70,41 +70,49 @@ func GetMigrations(conf *config.GOCFLConfig) (*Migration, error) {
 	return m, nil
 }
 
+// ToolError reports that a file could not be migrated by the external tool
+type ToolError struct {
+	err error
+}
+
+func (e *ToolError) Error() string { return e.err.Error() }
+
+func (e *ToolError) Unwrap() error { return e.err }
+
 func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []string, file io.ReadCloser) error {
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
 		return errors.Wrap(err, "cannot create temp file")
 	}
+	tmpFilename := filepath.ToSlash(tmpFile.Name())
+	targetFilename := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), "target."+filepath.Base(tmpFilename)+filepath.Ext(targetNames[0])))
+	defer func() {
+		_ = os.Remove(tmpFilename)
+		_ = os.Remove(targetFilename)
+	}()
 	if _, err := io.Copy(tmpFile, file); err != nil {
 		_ = tmpFile.Close()
+		_ = file.Close()
 		return errors.Wrap(err, "cannot copy file")
 	}
 	if err := file.Close(); err != nil {
+		_ = tmpFile.Close()
 		return errors.Wrap(err, "cannot close file")
 	}
-	tmpFilename := filepath.ToSlash(tmpFile.Name())
-	targetFilename := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), "target."+filepath.Base(tmpFilename)+filepath.Ext(targetNames[0])))
-
 	if err := tmpFile.Close(); err != nil {
 		return errors.Wrap(err, "cannot close temp file")
 	}
-	defer func() {
-		_ = os.Remove(tmpFilename)
-		_ = os.Remove(targetFilename)
-	}()
 	if err := mig.Migrate(tmpFilename, targetFilename); err != nil {
-		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
+		return &ToolError{errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())}
 	}
 
 	mFile, err := os.Open(targetFilename)
 	if err != nil {
-		return errors.Wrapf(err, "cannot open file '%s'", targetFilename)
+		return &ToolError{errors.Wrapf(err, "cannot open file '%s'", targetFilename)}
 	}
+	defer mFile.Close()
 	if _, err := object.AddReader(mFile, targetNames, "full", false, false); err != nil {
 		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
 	}
-	if err := mFile.Close(); err != nil {
-		return errors.Wrapf(err, "cannot close file '%s'", targetFilename)
-	}
 	return nil
 }
-- 
2.43.0


From 6c9cc67abf06b09f9c6d3bdad668cfe567e336dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 088/108] fix: store METS and PREMIS files within the content
 area

---
 pkg/extension/NNNN-mets.go | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 33e5d4f..1374072 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -263,17 +263,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", me.PremisFile)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		metsNames, err = object.BuildNames([]string{metsName}, "")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.MetsFile)), "/")
+		metsNames, err = object.BuildNames([]string{metsName}, "content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", metsName)
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
-		premisNames, err = object.BuildNames([]string{premisName}, "")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.PremisFile)), "/")
+		premisNames, err = object.BuildNames([]string{premisName}, "content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
@@ -1303,30 +1299,26 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.MetsFile)), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.PremisFile)), "/")
 
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(metsBytes)), []string{metsName}, area, true, false); err != nil {
-		if err := object.AddData(metsBytes, metsName, false, "", true, false); err != nil {
+		if err := object.AddData(metsBytes, metsName, false, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", metsName)
 		}
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", premisName)
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.METSXSD)), []string{"schemas/mets.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.METSXSD, "schemas/mets.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.METSXSD, "schemas/mets.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/mets.xsd")
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.PremisXSD)), []string{"schemas/premis.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.PremisXSD, "schemas/premis.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.PremisXSD, "schemas/premis.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/premis.xsd")
 		}
 		//if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.XLinkXSD)), []string{"schemas/xlink.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.XLinkXSD, "schemas/xlink.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.XLinkXSD, "schemas/xlink.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
-- 
2.43.0


From 147745109f5dc7bb2d28729ee632719827535091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 089/108] fix: write METS and PREMIS documents of the extension
 folder to the configured files

---
 pkg/extension/NNNN-mets.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 1374072..3d0bc63 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -274,13 +274,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionFilename(me.MetsFile, head))), "/")
 		metsNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.MetsFile},
 			InternalPath:  metsName,
 			ManifestPath:  "",
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionFilename(me.PremisFile, head))), "/")
 		premisNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.PremisFile},
 			InternalPath:  premisName,
@@ -1322,12 +1322,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionFilename(me.MetsFile, head))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionFilename(me.PremisFile, head))), "/")
 		if _, err := writefs.WriteFile(me.fsys, metsName, metsBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, metsName)
 		}
-		if _, err := writefs.WriteFile(me.fsys, premisName, metsBytes); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, premisName, premisBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, premisName)
 		}
 		if _, err := writefs.WriteFile(me.fsys, "schemas/mets.xsd", specs.METSXSD); err != nil {
@@ -1346,6 +1346,11 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// versionFilename replaces the placeholder for the version of the object
+func versionFilename(name, version string) string {
+	return strings.ReplaceAll(name, "%s", version)
+}
+
 func newMDSec(id, groupid, href, loctype, otherloctype, mimetype, created string, size int64, mdType, othermdtype, checksum, checksumType string) *mets.MdSecType {
 	if mdType == "" {
 		mdType = "OTHER"
-- 
2.43.0


From b09656a54a278c6ceaed4f1066c8a628188d2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 090/108] fix: name the digest algorithm of the object within
 METS

---
 pkg/extension/NNNN-mets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 3d0bc63..567742c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -393,7 +393,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						SIZEAttr:         size,
 						CREATEDAttr:      creationString,
 						CHECKSUMAttr:     cs,
-						CHECKSUMTYPEAttr: "SHA-512",
+						CHECKSUMTYPEAttr: checksumTypeToMets(string(inventory.GetDigestAlgorithm())),
 					},
 					IDAttr:  uuidString,
 					USEAttr: "Datafile",
-- 
2.43.0


From e5b64776a19afc0aec81e820b343bf823c1a310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 091/108] fix: do not list the METS and PREMIS documents of the
 last version

---
 pkg/extension/NNNN-mets.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 567742c..c6be8d7 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -365,6 +365,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	for cs, metaFile := range metadata.Files {
 		if extNames, ok := metaFile.VersionName[head]; ok {
 			for _, extPath := range extNames {
+				// documents of the last version are going to be replaced
+				if strings.ToLower(me.StorageType) != "extension" && (extPath == metsNames.ExternalPaths[0] || extPath == premisNames.ExternalPaths[0]) {
+					continue
+				}
 				uuidString := internalFiledata[extPath].uuid
 				var size int64
 				var creationString string
@@ -686,21 +690,19 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 				}
 				if extArea == "metadata" && !isSchema {
-					if !slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath) {
-						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-ext-%s", uuidString),
-							"area-metadata",
-							extPath,
-							"URL",
-							"",
-							mimeType,
-							creationString,
-							size,
-							"",
-							"",
-							cs,
-							string(inventory.GetDigestAlgorithm())))
-					}
+					dmdSecs = append(dmdSecs, newMDSec(
+						fmt.Sprintf("dmdSec-ext-%s", uuidString),
+						"area-metadata",
+						extPath,
+						"URL",
+						"",
+						mimeType,
+						creationString,
+						size,
+						"",
+						"",
+						cs,
+						string(inventory.GetDigestAlgorithm())))
 					continue
 				}
 
-- 
2.43.0


From 7e319079f6a336fb18f16b527ae120dd0e852890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 092/108] fix: state the size of all files in METS and PREMIS

---
 pkg/extension/NNNN-mets.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index c6be8d7..0a090e0 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -390,6 +390,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 
 				}
 
+				if size == 0 && len(metaFile.InternalName) > 0 && object.GetFS() != nil {
+					if stat, err := fs.Stat(object.GetFS(), metaFile.InternalName[0]); err == nil {
+						size = stat.Size()
+					}
+				}
+
 				metsFile := &mets.FileType{
 					XMLName: xml.Name{},
 					FILECORE: &mets.FILECORE{
@@ -487,7 +493,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						Fixity: []*premis.FixityComplexType{
 							premis.NewFixityComplexType(string(metadata.DigestAlgorithm), cs, "gocfl "+version.VERSION),
 						},
-						Size:   int64(extIndexer.Size),
+						Size:   size,
 						Format: []*premis.FormatComplexType{},
 					}
 					if extIndexer.Mimetype != "" {
@@ -935,6 +941,11 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				}
 			}
 		}
+		if foundSize == 0 && len(found.InternalName) > 0 && object.GetFS() != nil {
+			if stat, err := fs.Stat(object.GetFS(), found.InternalName[0]); err == nil {
+				foundSize = stat.Size()
+			}
+		}
 		var foundMimetype string = "application/octet-stream"
 
 		if ext, ok := found.Extension[IndexerName]; ok {
-- 
2.43.0


From 4fde0e465efc87846cfd39dda00d5a61efac9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 093/108] fix: state the checksum of all files in PREMIS

---
 pkg/extension/NNNN-mets.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 0a090e0..3cb4179 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -585,8 +585,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					premisFile.ObjectCharacteristics = append(premisFile.ObjectCharacteristics, &premis.ObjectCharacteristicsComplexType{
 						XMLName:          xml.Name{},
 						CompositionLevel: nil,
-						Fixity:           []*premis.FixityComplexType{},
-						Size:             size,
+						Fixity: []*premis.FixityComplexType{
+							premis.NewFixityComplexType(string(metadata.DigestAlgorithm), cs, "gocfl "+version.VERSION),
+						},
+						Size: size,
 						Format: []*premis.FormatComplexType{
 							&premis.FormatComplexType{
 								XMLName: xml.Name{},
-- 
2.43.0


From 3d355be1cbe8495c0105625e76566594bd2dca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 094/108] fix: state location and checksum type of the PREMIS
 document

---
 pkg/extension/NNNN-mets.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 3cb4179..bae5ac3 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -168,7 +168,7 @@ func checksumTypeToMets(t string) string {
 	// Adler-32 CRC32 HAVAL MD5 MNP SHA-1 SHA-256 SHA-384 SHA-512 TIGER WHIRLPOOL
 	t = strings.ToUpper(t)
 	switch t {
-	case "SHA512":
+	case "SHA512", "SHA-512":
 		return "SHA-512"
 	case "SHA384":
 		return "SHA-384"
@@ -1086,6 +1086,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	var amdSecs = []*mets.AmdSecType{}
 	if premisNames != nil {
 		id := "amdSec-int-uuid-" + uuid.NewString()
+		premisLocation := premisNames.ManifestPath
+		if premisLocation == "" {
+			premisLocation = premisNames.InternalPath
+		}
 		sec := &mets.AmdSecType{
 			XMLName: xml.Name{},
 			IDAttr:  "uuid-" + uuid.NewString(),
@@ -1093,7 +1097,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				newMDSec(
 					id,
 					"",
-					premisNames.InternalPath,
+					premisLocation,
 					"OTHER",
 					"URL:internal",
 					"application/xml",
-- 
2.43.0


From 8cc03c2565c8a10c00311e49353a63c3fb2e27e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 095/108] fix: list metadata files with the content of the
 primary metadata

---
 pkg/extension/NNNN-mets.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index bae5ac3..cb9c612 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -915,15 +915,16 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			}
 		*/
 
-		// remove any existing mdSecs with the same checksum
-		// todo: do it for internal and external name separately
+		// remove any existing mdSecs with the same location
 		mdSecs2 := dmdSecs
 		dmdSecs = make([]*mets.MdSecType, 0, len(mdSecs2))
 		for i := 0; i < len(mdSecs2); i++ {
-			if mdSecs2[i].MdRef.CHECKSUMAttr != foundChecksum {
-				dmdSecs = append(dmdSecs, mdSecs2[i])
-				structPhysical["metadata"] = append(structPhysical["metadata"], mdSecs2[i].IDAttr)
+			ref := mdSecs2[i].MdRef
+			if ref.CHECKSUMAttr == foundChecksum &&
+				(ref.LOCTYPEAttr == "URL" && ref.XlinkHrefAttr == metaFilename || ref.LOCTYPEAttr != "URL" && ref.XlinkHrefAttr == found.InternalName[0]) {
+				continue
 			}
+			dmdSecs = append(dmdSecs, mdSecs2[i])
 		}
 		mdSecs2 = nil
 
@@ -973,14 +974,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				otherMetaType,
 				foundChecksum,
 				string(inventory.GetDigestAlgorithm())))
-			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 		if len(found.VersionName[head]) > 0 {
 			id := fmt.Sprintf("dmdSec-ext-%s-%s", slug.Make(object.GetID()), head)
 			dmdSecs = append(dmdSecs, newMDSec(
 				id,
 				"primary-metadata",
-				found.VersionName[head][0],
+				metaFilename,
 				"URL",
 				"",
 				foundMimetype,
@@ -990,9 +990,11 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				otherMetaType,
 				foundChecksum,
 				string(inventory.GetDigestAlgorithm())))
-			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 	}
+	for _, dmdSec := range dmdSecs {
+		structPhysical["metadata"] = append(structPhysical["metadata"], dmdSec.IDAttr)
+	}
 
 	agentIdentifier := metafilePersonAgentIdentifier
 	agentName := metafilePersonAgentName
-- 
2.43.0


From 28e55b385d70d283d6cc0ea3f09d538581ec07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 096/108] fix: refer to all files of all areas in METS

---
 pkg/extension/NNNN-mets.go | 102 ++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 65 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index cb9c612..638dc9b 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -601,34 +601,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						},
 					})
 				}
-				for _, intPath := range metaFile.InternalName {
-					parts := strings.Split(intPath, "/")
-					if len(parts) <= 2 {
-						return errors.Wrapf(err, "invalid path %s", intPath)
-					}
-					if parts[1] != "content" {
-						return errors.Wrapf(err, "no content in %s", intPath)
-					}
-					var intArea = "content"
-					var isSchema bool
-					//					var intSemantic = "Other Payload"
-					if len(parts) > 3 {
-						if contentSubPath != nil {
-							intArea = parts[2]
-							// intSemantic = ""
-							for area, cse := range contentSubPath {
-								if cse.Path == intArea {
-									intArea = area
-									// intSemantic = cse.Description
-									isSchema = parts[3] == "schemas"
-									break
-								}
-							}
-						}
-					}
-					if intArea == "metadata" && !isSchema {
+				extArea, isSchema := metsArea(contentSubPath, extPath)
+				isMetadata := extArea == "metadata" && !isSchema
+				for i, intPath := range metaFile.InternalName {
+					if isMetadata {
 						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-int-%s", uuidString),
+							fmt.Sprintf("dmdSec-int-%s-%d", uuidString, i),
 							"area-metadata",
 							intPath,
 							"OTHER",
@@ -642,18 +620,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 							string(inventory.GetDigestAlgorithm())))
 						continue
 					}
-
-					if isSchema {
-						structPhysical["schemas"] = append(structPhysical["schemas"], uuidString)
-					} else {
-						structPhysical[intArea] = append(structPhysical[intArea], uuidString)
-					}
-					/*
-						if intSemantic != "" {
-							structSemantical[intSemantic] = append(structSemantical[intSemantic], uuidString)
-						}
-					*/
-					href := intPath
 					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
 						LOCATION: &mets.LOCATION{
 							LOCTYPEAttr:      "OTHER",
@@ -662,7 +628,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						SimpleLink: &mets.SimpleLink{
 							//XMLName:          xml.Name{},
 							TypeAttr:      "simple",
-							XlinkHrefAttr: href,
+							XlinkHrefAttr: intPath,
 						},
 						IDAttr:  "",
 						USEAttr: "",
@@ -674,30 +640,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 								XMLName:              xml.Name{},
 								SimpleLinkAttr:       "",
 								ContentLocationType:  premis.NewStringPlusAuthority("internal", "", "", ""),
-								ContentLocationValue: href,
+								ContentLocationValue: intPath,
 							},
 							StorageMedium: premis.NewStringPlusAuthority("OCFL Object Root", "", "", ""),
 						})
 					*/
 				}
-				//		if extNames, ok := metaFile.VersionName[head]; ok {
-				//			for _, extPath := range extNames {
-				parts := strings.Split(extPath, "/")
-				var extArea = "content"
-				var isSchema bool
-				if len(parts) > 1 {
-					if contentSubPath != nil {
-						extArea = parts[0]
-						for area, cse := range contentSubPath {
-							if cse.Path == extArea {
-								extArea = area
-								isSchema = parts[1] == "schemas"
-								break
-							}
-						}
-					}
-				}
-				if extArea == "metadata" && !isSchema {
+				if isMetadata {
 					dmdSecs = append(dmdSecs, newMDSec(
 						fmt.Sprintf("dmdSec-ext-%s", uuidString),
 						"area-metadata",
@@ -834,13 +783,15 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					premisEvents = append(premisEvents, eventMigration)
 				}
-				if len(metsFile.FLocat) > 0 {
-					a := extArea
-					if isSchema {
-						a = "schemas"
-					}
-					metsFiles[a] = append(metsFiles[a], metsFile)
+				a := extArea
+				if isSchema {
+					a = "schemas"
+				}
+				if _, ok := fileGrpUUID[a]; !ok {
+					fileGrpUUID[a] = uuid.NewString()
 				}
+				metsFiles[a] = append(metsFiles[a], metsFile)
+				structPhysical[a] = append(structPhysical[a], uuidString)
 				premisFiles = append(premisFiles, premisFile)
 			}
 		}
@@ -1367,6 +1318,27 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// metsArea returns the area of a logical path, and whether it is a metadata schema
+func metsArea(contentSubPath map[string]ContentSubPathEntry, path string) (area string, isSchema bool) {
+	areas := maps.Keys(contentSubPath)
+	slices.Sort(areas)
+	var areaPath string
+	for _, a := range areas {
+		p := strings.Trim(filepath.ToSlash(filepath.Clean(contentSubPath[a].Path)), "/") + "/"
+		if strings.HasPrefix(path, p) && len(p) > len(areaPath) {
+			area, areaPath = a, p
+		}
+	}
+	if areaPath != "" {
+		return area, strings.HasPrefix(strings.TrimPrefix(path, areaPath), "schemas/")
+	}
+	// the first folder serves as area
+	if parts := strings.SplitN(path, "/", 2); len(parts) > 1 {
+		return parts[0], false
+	}
+	return "content", false
+}
+
 // versionFilename replaces the placeholder for the version of the object
 func versionFilename(name, version string) string {
 	return strings.ReplaceAll(name, "%s", version)
-- 
2.43.0


From b6990fabefb786e83aaa888097c3668b7b9fd7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 097/108] fix: use the documented default of the primary
 descriptive metadata

---
 pkg/extension/NNNN-mets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 638dc9b..e52a226 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -82,7 +82,7 @@ func NewMetsFS(fsys fs.FS, logger zLogger.ZLogger) (*Mets, error) {
 		ExtensionConfig:            &ocfl.ExtensionConfig{ExtensionName: METSName},
 		StorageType:                "area",
 		StorageName:                "metadata",
-		PrimaryDescriptiveMetadata: "metadata:info.json",
+		PrimaryDescriptiveMetadata: "info:metadata:info.json",
 		MetsFile:                   "mets.xml",
 		PremisFile:                 "premis.xml",
 	}
-- 
2.43.0


From 601781be7295fa30e18a6cee257c2adb47354475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 098/108] fix: do not panic when a thumbnail gets a folder
 number below 16

---
 pkg/extension/NNNN-thumbnail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index c6c7413..3949bfc 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -176,7 +176,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	if thumb.SingleDirectory {
 		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	} else {
-		cs := fmt.Sprintf("%x", rand.Intn(64))
+		cs := fmt.Sprintf("%02x", rand.Intn(64))
 		targetName = fmt.Sprintf("%s/%s/%s/%s/%05d.%s", subfolder, head, string([]rune(cs)[0]), string([]rune(cs)[1]), thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	}
 	switch strings.ToLower(thumb.StorageType) {
-- 
2.43.0


From d7bc1f6b9e5fef1c000d72f4b9460631b7e4eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 099/108] fix: fit thumbnails into the configured size, also
 those of narrow images

---
 pkg/extension/NNNN-thumbnail_imagick.go |  8 ++++----
 pkg/extension/NNNN-thumbnail_native.go  | 12 ++++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 529383b..ae8f01d 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -59,14 +59,14 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	}
 	thumb.logger.Info().Msgf("image '%s' format: %s, size: %d x %d", stateFiles[0], mw.GetFormat(), width, height)
 
-	rectAspect := width / height
-	thumbAspect := uint(thumb.Width) / uint(thumb.Height)
+	rectAspect := float64(width) / float64(height)
+	thumbAspect := float64(thumb.Width) / float64(thumb.Height)
 	newHeight := uint(thumb.Height)
 	newWidth := uint(thumb.Width)
 	if rectAspect > thumbAspect {
-		newHeight = uint(height * uint(thumb.Width) / width)
+		newHeight = max(uint(height*uint(thumb.Width)/width), 1)
 	} else {
-		newWidth = uint(width * uint(thumb.Height) / height)
+		newWidth = max(uint(width*uint(thumb.Height)/height), 1)
 	}
 
 	if err := mw.ResizeImage(newWidth, newHeight, imagick.FILTER_LANCZOS); err != nil {
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index 8dc0f7f..a3fbf2a 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -51,14 +51,18 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	rect := img.Bounds()
 	thumb.logger.Info().Msgf("image format: %s, size: %d x %d", format, rect.Dx(), rect.Dy())
 
-	rectAspect := rect.Dx() / rect.Dy()
-	thumbAspect := int(thumb.Width) / int(thumb.Height)
+	if rect.Empty() {
+		thumb.logger.Info().Msgf("image '%s' has zero size", stateFiles[0])
+		return nil
+	}
+	rectAspect := float64(rect.Dx()) / float64(rect.Dy())
+	thumbAspect := float64(thumb.Width) / float64(thumb.Height)
 	newHeight := uint(thumb.Height)
 	newWidth := uint(thumb.Width)
 	if rectAspect > thumbAspect {
-		newHeight = uint(rect.Dy() * int(thumb.Width) / rect.Dx())
+		newHeight = max(uint(rect.Dy()*int(thumb.Width)/rect.Dx()), 1)
 	} else {
-		newWidth = uint(rect.Dx() * int(thumb.Height) / rect.Dy())
+		newWidth = max(uint(rect.Dx()*int(thumb.Height)/rect.Dy()), 1)
 	}
 
 	newImg := resize.Resize(newWidth, newHeight, img, resize.Lanczos3)
-- 
2.43.0


From 0e627160dd14974e15a6328c3140eda9026e8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 100/108] fix: record thumbnails of files whose content path
 differs from their logical path

---
 pkg/extension/NNNN-thumbnail_imagick.go | 3 +--
 pkg/extension/NNNN-thumbnail_native.go  | 3 +--
 pkg/extension/NNNN-thumbnail_vips.go    | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index ae8f01d..633194a 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"gopkg.in/gographics/imagick.v3/imagick"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index a3fbf2a..154102d 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/nfnt/resize"
 	_ "golang.org/x/image/bmp"
@@ -36,7 +35,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/extension/NNNN-thumbnail_vips.go b/pkg/extension/NNNN-thumbnail_vips.go
index b397941..414b140 100644
--- a/pkg/extension/NNNN-thumbnail_vips.go
+++ b/pkg/extension/NNNN-thumbnail_vips.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/davidbyttow/govips/v2/vips"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
-- 
2.43.0


From 3cdb792e5f49a28af0b5230f170c1bc46637d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 101/108] fix: store and report thumbnails under the folder
 configured, not one doubled

---
 pkg/extension/NNNN-thumbnail.go | 58 +++++++++------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 3949bfc..528bbef 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -181,26 +181,9 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	}
 	switch strings.ToLower(thumb.StorageType) {
 	case "area":
-		if digest, err = object.AddReader(mFile, []string{targetName}, thumb.StorageName, true, false); err != nil {
-			return "", "", errors.Wrapf(err, "cannot write '%s'", targetName)
-		}
-		areaPath, err := object.GetAreaPath(thumb.StorageName)
-		if err != nil {
-			return "", "", errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-		}
-		return fmt.Sprintf("%s/%s", areaPath, targetName), digest, nil
+		return thumb.addThumbnail(object, mFile, targetName, thumb.StorageName)
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return "", "", errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, thumb.StorageName, targetName)), "/")
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if digest, err = object.AddReader(mFile, []string{targetname}, "", true, false); err != nil {
-			return "", "", errors.Wrapf(err, "cannot write '%s'", targetname)
-		}
-		return targetname, digest, nil
+		return thumb.addThumbnail(object, mFile, strings.TrimLeft(targetName, "/"), "content")
 	case "extension":
 		fp, err := writefs.Create(thumb.fsys, targetName)
 		if err != nil {
@@ -218,6 +201,18 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	}
 }
 
+// addThumbnail adds a thumbnail to an area of the object and returns its logical path
+func (thumb *Thumbnail) addThumbnail(object ocfl.Object, mFile io.ReadCloser, name, area string) (target string, digest string, err error) {
+	names, err := object.BuildNames([]string{name}, area)
+	if err != nil {
+		return "", "", errors.Wrapf(err, "cannot create names for '%s'", name)
+	}
+	if digest, err = object.AddReader(mFile, []string{name}, area, true, false); err != nil {
+		return "", "", errors.Wrapf(err, "cannot write '%s'", name)
+	}
+	return names.ExternalPaths[0], digest, nil
+}
+
 func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *thumbnail.Function, ext string, file io.ReadCloser) (string, string, error) {
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
@@ -468,35 +463,12 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 				result[meta.ThumbDigest] = meta
 			}
 			// old versions do not have a filename
-			if meta.Filename == "" {
+			if meta.Filename == "" && meta.Error == "" {
 				if len([]rune(meta.SourceDigest)) < 2 {
 					return nil, errors.Errorf("invalid source digest '%s' in object '%s'", meta.SourceDigest, object.GetID())
 				}
 				meta.Filename = fmt.Sprintf("data/%s/%s/%s.%s", string([]rune(meta.SourceDigest)[0]), string([]rune(meta.SourceDigest)[1]), meta.SourceDigest, strings.ToLower(thumb.ThumbnailConfig.Ext))
 			}
-			switch strings.ToLower(thumb.StorageType) {
-			case "area":
-				areaPath, err := object.GetAreaPath(thumb.StorageName)
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				meta.Filename = fmt.Sprintf("%s/%s", areaPath, meta.Filename)
-			case "path":
-				areaPath, err := object.GetAreaPath("content")
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				if areaPath == "" {
-					meta.Filename = fmt.Sprintf("%s/%s", thumb.StorageName, meta.Filename)
-				} else {
-					meta.Filename = fmt.Sprintf("%s/%s/%s", areaPath, thumb.StorageName, meta.Filename)
-				}
-			case "extension":
-				//				meta.Filename = fmt.Sprintf("extension/%s", meta.Filename)
-			default:
-				return nil, errors.Errorf("unsupported storage type '%s'", thumb.StorageType)
-			}
-
 			meta.StorageType = thumb.StorageType
 			result[meta.SourceDigest] = &meta
 		}
-- 
2.43.0


From 422adb5fd0b27158265f0d819937f09913153c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 102/108] fix: state the size of the content in METS and
 PREMIS, not that of a folder

---
 pkg/extension/NNNN-mets.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index e52a226..2e6e039 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -390,7 +390,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 
 				}
 
-				if size == 0 && len(metaFile.InternalName) > 0 && object.GetFS() != nil {
+				// the first file recorded need not be a file with this content but a folder
+				if len(metaFile.InternalName) > 0 && object.GetFS() != nil {
 					if stat, err := fs.Stat(object.GetFS(), metaFile.InternalName[0]); err == nil {
 						size = stat.Size()
 					}
@@ -895,7 +896,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				}
 			}
 		}
-		if foundSize == 0 && len(found.InternalName) > 0 && object.GetFS() != nil {
+		if len(found.InternalName) > 0 && object.GetFS() != nil {
 			if stat, err := fs.Stat(object.GetFS(), found.InternalName[0]); err == nil {
 				foundSize = stat.Size()
 			}
-- 
2.43.0


From a599667109993603bb63f3db80d76e3de98e4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:07 +0000
Subject: [PATCH 103/108] fix: refuse a version with conflicting logical paths

---
 pkg/ocfl/objectbase.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9e91f72..1a69bed 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -598,6 +598,17 @@ func (object *ObjectBase) EndUpdate() error {
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
 	}
+	// a path of the state must not be a folder of another one, even if both come from different versions
+	statePaths := []string{}
+	if err := object.i.IterateStateFiles(object.i.GetHead(), func(_, external []string, _ string) error {
+		statePaths = append(statePaths, external...)
+		return nil
+	}); err != nil {
+		return errors.Wrap(err, "cannot read state")
+	}
+	if conflicts := pathConflicts(statePaths); len(conflicts) > 0 {
+		return errors.Errorf("conflicting paths in version '%s' of object '%s': %v", object.i.GetHead(), object.GetID(), conflicts)
+	}
 	if err := object.StoreInventory(true, false); err != nil {
 		return errors.Wrap(err, "cannot store inventory")
 	}
-- 
2.43.0


From 800d9e335414257d50ce6c62f89b63b3a92a7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 104/108] fix: remove what an interrupted update has left in
 the folder of the next version

---
 pkg/ocfl/objectbase.go | 45 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 1a69bed..af8c0f7 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -565,9 +565,15 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	}
 	object.extensionManager.SetFS(subfs, true)
 
+	lastHead := object.i.GetHead()
 	if err := object.i.NewVersion(msg, UserName, UserAddress); err != nil {
 		return nil, errors.Wrap(err, "cannot create new object version")
 	}
+	if lastHead != "" {
+		if err := object.removeUnfinished(lastHead); err != nil {
+			return nil, errors.Wrapf(err, "cannot remove unfinished versions of object '%s'", object.GetID())
+		}
+	}
 	if err := object.extensionManager.UpdateObjectBefore(object); err != nil {
 		return nil, errors.Wrapf(err, "cannot execute ext.UpdateObjectBefore()")
 	}
@@ -575,6 +581,45 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	return versionFS, nil
 }
 
+var versionFolderRegexp = regexp.MustCompile("^v[0-9]+$")
+
+// removeUnfinished removes what an interrupted update has left behind.
+// content of a version folder must not be missing in the manifest of the version, which will be created there
+func (object *ObjectBase) removeUnfinished(lastHead string) error {
+	last, err := strconv.Atoi(strings.TrimPrefix(lastHead, "v"))
+	if err != nil {
+		return errors.Wrapf(err, "invalid head '%s'", lastHead)
+	}
+	entries, err := fs.ReadDir(object.fsys, ".")
+	if err != nil {
+		return errors.Wrap(err, "cannot read object folder")
+	}
+	for _, entry := range entries {
+		if !entry.IsDir() || !versionFolderRegexp.MatchString(entry.Name()) {
+			continue
+		}
+		if number, err := strconv.Atoi(strings.TrimPrefix(entry.Name(), "v")); err != nil || number <= last {
+			continue
+		}
+		object.logger.Warn().Msgf("object '%s' - removing unfinished version '%s'", object.GetID(), entry.Name())
+		paths := []string{}
+		if err := fs.WalkDir(object.fsys, entry.Name(), func(path string, _ fs.DirEntry, err error) error {
+			paths = append(paths, path)
+			return err
+		}); err != nil {
+			return errors.Wrapf(err, "cannot read folder '%s'", entry.Name())
+		}
+		// folders after their content
+		slices.Reverse(paths)
+		for _, path := range paths {
+			if err := writefs.Remove(object.fsys, path); err != nil {
+				return errors.Wrapf(err, "cannot remove '%s'", path)
+			}
+		}
+	}
+	return nil
+}
+
 func (object *ObjectBase) EndUpdate() error {
 	object.logger.Info().Msgf(fmt.Sprintf("EndUpdate of object '%s'", object.GetID()))
 	if !(object.i.IsWriteable()) {
-- 
2.43.0


From bd751b820daf0469e9366d99d110586b32b9105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 105/108] fix: validate ocfl_layout.json

---
 pkg/ocfl/storagerootbase.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 5fad5d9..0db98e8 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -534,8 +534,35 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 	} else {
 		osr.version = version
 	}
+	return osr.checkLayout()
+}
+
+// checkLayout checks the optional layout description of the storage root
+func (osr *StorageRootBase) checkLayout() error {
+	data, err := fs.ReadFile(osr.fsys, "ocfl_layout.json")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrap(err, "cannot read 'ocfl_layout.json'")
+	}
+	var layout map[string]any
+	if err := json.Unmarshal(data, &layout); err != nil {
+		if err := osr.addValidationError(E070, "no JSON object in 'ocfl_layout.json': %v", err); err != nil {
+			return errors.Wrapf(err, "cannot add validation error %s", E070)
+		}
+		return nil
+	}
+	for _, key := range []string{"extension", "description"} {
+		if _, ok := layout[key].(string); !ok {
+			if err := osr.addValidationError(E070, "no '%s' in 'ocfl_layout.json'", key); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E070)
+			}
+		}
+	}
 	return nil
 }
+
 func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
 	fmt.Printf("object folder '%s'\n", objectFolder)
 	object, err := osr.LoadObjectByFolder(objectFolder)
-- 
2.43.0


From afb814afe8506305d9ef24859468e35667e25f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 106/108] fix: report empty folders of the storage root on
 validation

---
 pkg/ocfl/storagerootbase.go | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 0db98e8..8b04c6f 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -595,7 +595,45 @@ func (osr *StorageRootBase) CheckObjectByID(objectID string) error {
 	return nil
 }
 
+// checkEmptyFolders looks for empty folders in the hierarchy above the objects
+func (osr *StorageRootBase) checkEmptyFolders(folder string) error {
+	entries, err := fs.ReadDir(osr.fsys, folder)
+	if err != nil {
+		return errors.Wrapf(err, "cannot read content of '%s'", folder)
+	}
+	if len(entries) == 0 {
+		if err := osr.addValidationError(E073, "empty folder '%s'", folder); err != nil {
+			return errors.Wrapf(err, "cannot add validation error %s", E073)
+		}
+		return nil
+	}
+	for _, entry := range entries {
+		// folders with files are objects
+		if !entry.IsDir() {
+			return nil
+		}
+	}
+	for _, entry := range entries {
+		if err := osr.checkEmptyFolders(filepath.ToSlash(filepath.Join(folder, entry.Name()))); err != nil {
+			return errors.WithStack(err)
+		}
+	}
+	return nil
+}
+
 func (osr *StorageRootBase) CheckObjects() error {
+	folders, err := osr.GetFolders()
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	for _, folder := range folders {
+		if folder == "extensions" {
+			continue
+		}
+		if err := osr.checkEmptyFolders(folder); err != nil {
+			return errors.WithStack(err)
+		}
+	}
 	objectFolders, err := osr.GetObjectFolders()
 	if err != nil {
 		return errors.Wrapf(err, "cannot get object folders")
-- 
2.43.0


From 763728b1a184e8913aa1a47a892976f3b50e0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:13 +0000
Subject: [PATCH 107/108] fix: report objects with the same id on validation

---
 pkg/ocfl/storagerootbase.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 8b04c6f..c95a96a 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -564,19 +564,25 @@ func (osr *StorageRootBase) checkLayout() error {
 }
 
 func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
+	_, err := osr.checkObjectFolder(objectFolder)
+	return errors.WithStack(err)
+}
+
+// checkObjectFolder checks an object and returns its id, if it could be loaded
+func (osr *StorageRootBase) checkObjectFolder(objectFolder string) (string, error) {
 	fmt.Printf("object folder '%s'\n", objectFolder)
 	object, err := osr.LoadObjectByFolder(objectFolder)
 	if err != nil {
 		if err := osr.addValidationError(E001, "invalid folder '%s': %v", objectFolder, err); err != nil {
-			return errors.Wrapf(err, "cannot add validation error %s", E001)
+			return "", errors.Wrapf(err, "cannot add validation error %s", E001)
 		}
 		//			return errors.Wrapf(err, "cannot load object from folder '%s'", objectFolder)
-	} else {
-		if err := object.Check(); err != nil {
-			return errors.Wrapf(err, "check of '%s' failed", object.GetID())
-		}
+		return "", nil
 	}
-	return nil
+	if err := object.Check(); err != nil {
+		return "", errors.Wrapf(err, "check of '%s' failed", object.GetID())
+	}
+	return object.GetID(), nil
 }
 
 func (osr *StorageRootBase) CheckObjectByID(objectID string) error {
@@ -638,10 +644,21 @@ func (osr *StorageRootBase) CheckObjects() error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get object folders")
 	}
+	idFolders := map[string]string{}
 	for _, objectFolder := range objectFolders {
-		if err := osr.CheckObjectByFolder(objectFolder); err != nil {
+		id, err := osr.checkObjectFolder(objectFolder)
+		if err != nil {
 			return errors.WithStack(err)
 		}
+		if id == "" {
+			continue
+		}
+		if folder, ok := idFolders[id]; ok {
+			if err := osr.addValidationError(E037, "id '%s' of folder '%s' not unique, also used in folder '%s'", id, objectFolder, folder); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E037)
+			}
+		}
+		idFolders[id] = objectFolder
 	}
 	return nil
 }
-- 
2.43.0


From bf31af6b7578151916758246ffcc9463fddcc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:24 +0000
Subject: [PATCH 108/108] fix: report content outside of the content directory

---
 pkg/ocfl/inventorybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index f53066e..6f5f214 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -419,6 +419,9 @@ func (i *InventoryBase) checkManifest() error {
 					i.addValidationError(E099, "invalid path '%s' in manifest", path)
 				}
 			}
+			if len(elements) < 3 || elements[1] != i.GetContentDir() {
+				i.addValidationError(E016, "path '%s' in manifest is not within a content directory '%s'", path, i.GetContentDir())
+			}
 
 		}
 
-- 
2.43.0

