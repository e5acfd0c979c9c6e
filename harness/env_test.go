package zzverif

// Setting up the code under test the way gocfl/cmd does: extension factory,
// extension managers, storage roots and sessions.

import (
	"context"
	"encoding/json"
	"io/fs"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"
)

var nop = zerolog.Nop()
var logger zLogger.ZLogger = &nop

type digestAlg = checksum.DigestAlgorithm

// extCfg is the configuration of one extension (its config.json).
type extCfg map[string]any

func (c extCfg) name() string { s, _ := c["extensionName"].(string); return s }

func ext(name string, kv ...any) extCfg {
	c := extCfg{"extensionName": name}
	for i := 0; i+1 < len(kv); i += 2 {
		c[kv[i].(string)] = kv[i+1]
	}
	return c
}

type factoryOpts struct {
	params    map[string]string
	migration *migration.Migration
	thumbnail *thumbnail.Thumbnail
	creators  map[string]func(fsys fs.FS) (ocfl.Extension, error)
}

func newFactory(o factoryOpts) *ocfl.ExtensionFactory {
	if o.params == nil {
		o.params = map[string]string{}
	}
	f, err := ocfl.NewExtensionFactory(o.params, logger)
	if err != nil {
		infra("NewExtensionFactory: %v", err)
	}
	f.AddCreator(extension.InitialName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewInitialFS(fsys) })
	f.AddCreator(extension.GOCFLExtensionManagerName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewGOCFLExtensionManagerFS(fsys) })
	f.AddCreator(extension.DigestAlgorithmsName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewDigestAlgorithmsFS(fsys) })
	f.AddCreator(extension.StorageLayoutFlatDirectName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutFlatDirectFS(fsys) })
	f.AddCreator(extension.StorageLayoutHashAndIdNTupleName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewStorageLayoutHashAndIdNTupleFS(fsys)
	})
	f.AddCreator(extension.StorageLayoutHashedNTupleName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashedNTupleFS(fsys) })
	f.AddCreator(extension.FlatOmitPrefixStorageLayoutName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewFlatOmitPrefixStorageLayoutFS(fsys)
	})
	f.AddCreator(extension.NTupleOmitPrefixStorageLayoutName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewNTupleOmitPrefixStorageLayoutFS(fsys)
	})
	f.AddCreator(extension.DirectCleanName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewDirectCleanFS(fsys) })
	f.AddCreator(extension.PathDirectName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewPathDirectFS(fsys) })
	f.AddCreator(extension.StorageLayoutPairTreeName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutPairTreeFS(fsys) })
	f.AddCreator(extension.ContentSubPathName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(fsys) })
	f.AddCreator(extension.MetaFileName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewMetaFileFS(fsys) })
	f.AddCreator(extension.FilesystemName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewFilesystemFS(fsys, logger) })
	f.AddCreator(extension.METSName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewMetsFS(fsys, logger) })
	if o.migration != nil {
		f.AddCreator(extension.MigrationName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewMigrationFS(fsys, o.migration, logger) })
	}
	if o.thumbnail != nil {
		f.AddCreator(extension.ThumbnailName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(fsys, o.thumbnail, logger) })
	}
	for n, c := range o.creators {
		f.AddCreator(n, c)
	}
	return f
}

// writeExtDir puts the configurations into an extensions folder of w.
func writeExtDir(w *world, dir string, cfgs []extCfg) {
	w.mkdir(dir)
	for _, c := range cfgs {
		folder := c.name()
		if f, ok := c["__folder"].(string); ok {
			folder = f
		}
		d := map[string]any{}
		for k, v := range c {
			if !strings.HasPrefix(k, "__") {
				d[k] = v
			}
		}
		b, err := json.MarshalIndent(d, "", "  ")
		if err != nil {
			infra("config %v: %v", c, err)
		}
		w.put(dir+"/"+folder+"/config.json", b)
		if files, ok := c["__files"].(map[string]string); ok {
			for n, s := range files {
				w.put(dir+"/"+folder+"/"+n, []byte(s))
			}
		}
	}
}

// newManager builds an extension manager from configurations, as
// initDefaultExtensions does from a folder.
func newManager(f *ocfl.ExtensionFactory, cfgs []extCfg) (ocfl.ExtensionManager, error) {
	w := newWorld()
	writeExtDir(w, "/cfg", cfgs)
	return f.LoadExtensions(w.mount("/cfg"), nil)
}

func mustManager(t fataler, f *ocfl.ExtensionFactory, cfgs []extCfg) ocfl.ExtensionManager {
	m, err := newManager(f, cfgs)
	if err != nil {
		t.Fatalf("cannot build extension manager from %s: %v", j(cfgs), err)
	}
	return m
}

func newCtx() context.Context { return ocfl.NewContextValidation(context.Background()) }

// vErrors returns the validation errors (codes E...) collected in ctx.
func vErrors(ctx context.Context) []string {
	st, err := ocfl.GetValidationStatus(ctx)
	if err != nil || st == nil {
		return []string{"no validation status"}
	}
	res := []string{}
	for _, e := range st.Errors {
		if e == nil {
			res = append(res, "E??? nil error")
			continue
		}
		if strings.HasPrefix(string(e.Code), "E") {
			res = append(res, string(e.Code)+" "+e.Description2+" "+e.Context)
		}
	}
	return res
}

// loadRoot loads a storage root (ctx collects validation messages).
func loadRoot(ctx context.Context, fsys fs.FS, f *ocfl.ExtensionFactory) (ocfl.StorageRoot, error) {
	sr, err := ocfl.LoadStorageRoot(ctx, fsys, f, logger)
	if err != nil {
		return nil, err
	}
	sr.SetDigest(checksum.DigestSHA512)
	return sr, nil
}

// validate runs the full validation of a storage root and returns its errors.
func validate(fsys fs.FS, f *ocfl.ExtensionFactory) (errs []string) {
	ctx := newCtx()
	sr, err := ocfl.LoadStorageRoot(ctx, fsys, f, logger)
	if err != nil {
		return append(vErrors(ctx), "load: "+err.Error())
	}
	if err := sr.Check(); err != nil {
		return append(vErrors(ctx), "check: "+err.Error())
	}
	return vErrors(ctx)
}

// validateObject validates one object, by folder or (if folder is empty) by id.
func validateObject(fsys fs.FS, f *ocfl.ExtensionFactory, folder, id string) (errs []string) {
	ctx := newCtx()
	sr, err := ocfl.LoadStorageRoot(ctx, fsys, f, logger)
	if err != nil {
		return append(vErrors(ctx), "load: "+err.Error())
	}
	if folder != "" {
		err = sr.CheckObjectByFolder(folder)
	} else {
		err = sr.CheckObjectByID(id)
	}
	if err != nil {
		return append(vErrors(ctx), "check: "+err.Error())
	}
	return vErrors(ctx)
}

// brokenObjects are the object folders with violations of their own.
func brokenObjects(files map[string]string) map[string][]string {
	res := map[string][]string{}
	for _, o := range objectFolders(files) {
		if _, pr := checkObject(sub(files, o), false); len(pr) > 0 {
			res[o] = pr
		}
	}
	return res
}
