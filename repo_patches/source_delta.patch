From 52fe409062c1aecc6edce31928b113fbdf4456d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 01/33] fix: keep language-tagged texts that contain a quote
 and an at sign

The raw nquads parser looks for the language of a literal only after
unescaping it, so texts starting with '@' or containing '"@' were torn apart.
---
 internal/sparkl/index_source.go | 62 ++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..515261b 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -1,6 +1,8 @@
 package sparkl
 
 import (
+	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 
@@ -51,30 +53,75 @@ type Token struct {
 // QuadSource reads triples from a quad file
 type QuadSource struct {
 	Reader io.ReadSeeker
-	reader *nquads.Reader
+	reader *bufio.Reader
 }
 
 func (qs *QuadSource) Open() error {
 	// if we previously had a reader
 	// then we need to reset the state
 	if qs.reader != nil {
-		if err := qs.reader.Close(); err != nil {
-			return err
-		}
 		_, err := qs.Reader.Seek(0, io.SeekStart)
 		if err != nil {
 			return err
 		}
 	}
 
-	qs.reader = nquads.NewReader(qs.Reader, true)
+	qs.reader = bufio.NewReader(qs.Reader)
 	return nil
 }
 
+// readLine reads the next line that is neither empty nor a comment.
+func (qs *QuadSource) readLine() (string, error) {
+	for {
+		var buffer []byte
+		for more := true; more; {
+			var chunk []byte
+			var err error
+			if chunk, more, err = qs.reader.ReadLine(); err != nil {
+				return "", err
+			}
+			buffer = append(buffer, chunk...)
+		}
+		if line := bytes.TrimSpace(buffer); len(line) != 0 && line[0] != '#' {
+			return string(line), nil
+		}
+	}
+}
+
+// readQuad reads the next valid quad.
+func (qs *QuadSource) readQuad() (quad.Quad, error) {
+	for {
+		line, err := qs.readLine()
+		if err != nil {
+			return quad.Quad{}, err
+		}
+
+		value, err := nquads.ParseRaw(line)
+		if err != nil {
+			return quad.Quad{}, fmt.Errorf("failed to parse %q: %w", line, err)
+		}
+		if !value.IsValid() {
+			continue
+		}
+
+		// The raw parser finds the language of a literal only after unescaping it.
+		// It gets confused when the text itself contains a quote followed by an '@', or starts with an '@'.
+		// The typed parser does not, so ask it about everything that might have a language.
+		if _, isURI := asURILike(value.Object); !isURI {
+			if typed, err := nquads.Parse(line); err == nil {
+				if literal, ok := typed.Object.(quad.LangString); ok {
+					value.Object = literal
+				}
+			}
+		}
+		return value, nil
+	}
+}
+
 // Next reads the next token from the QuadSource
 func (qs *QuadSource) Next() Token {
 	for {
-		value, err := qs.reader.ReadQuad()
+		value, err := qs.readQuad()
 		if err != nil {
 			return Token{Err: err}
 		}
@@ -117,9 +164,6 @@ func (qs *QuadSource) Next() Token {
 }
 
 func (qs *QuadSource) Close() error {
-	if qs.reader != nil {
-		return qs.reader.Close()
-	}
 	return nil
 }
 
-- 
2.43.0


From e4e37e8a44cd9acf23a7cbaf4aacc6e4e9ce5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 02/33] fix: return the parents of children of top-level
 bundles from disk storage

The URI of a top-level entity is at index 0 of the path, which was mistaken for 'no parent requested'.
---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..d0f5f15 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex > -1 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From 23c06d977cb49442be9f4773308229a405af450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 03/33] fix: list entities reached along several paths once,
 and under every parent

In memory such entities were listed repeatedly (and all but one time without
fields), on disk they only kept their last parent.
---
 internal/sparkl/storages/disk.go     | 69 +++++++++++++++++++---------
 internal/sparkl/storages/entity.go   | 12 +++--
 internal/sparkl/storages/memory.go   | 34 ++++++++++----
 internal/sparkl/storages/storages.go | 18 ++++++++
 4 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index d0f5f15..6dbb230 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -48,24 +48,37 @@ type Disk struct {
 	l             sync.RWMutex // protects modifying data on disk
 }
 
-func (ds *Disk) put(f func(*sEntity) error) error {
+// put creates or updates the entity with the given uri.
+func (ds *Disk) put(uri impl.Label, f func(se *sEntity, exists bool) error) error {
 	entity := sEntityPool.Get().(*sEntity)
 	entity.Reset()
 	defer sEntityPool.Put(entity)
 
-	if err := f(entity); err != nil {
+	ds.l.Lock()
+	defer ds.l.Unlock()
+
+	// load the entity, if it exists
+	data, err := ds.DB.Get([]byte(uri), nil)
+	exists := err == nil
+	if err != nil && err != errors.ErrNotFound {
 		return err
 	}
+	if exists {
+		if err := entity.Decode(data); err != nil {
+			return err
+		}
+	}
 
-	data, err := entity.Encode()
-	if err != nil {
+	if err := f(entity, exists); err != nil {
 		return err
 	}
 
-	ds.l.Lock()
-	defer ds.l.Unlock()
+	data, err = entity.Encode()
+	if err != nil {
+		return err
+	}
 
-	return ds.DB.Put([]byte(entity.URI), data, nil)
+	return ds.DB.Put([]byte(uri), data, nil)
 }
 
 func (ds *Disk) get(uri impl.Label, f func(*sEntity) error) error {
@@ -145,8 +158,16 @@ func (ds *Disk) update(uri impl.Label, update func(*sEntity) error) error {
 
 // Add adds an entity to this BundleSlice
 func (ds *Disk) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
-	atomic.AddInt64(&ds.count, 1)
-	return ds.put(func(se *sEntity) error {
+	return ds.put(uri, func(se *sEntity, exists bool) error {
+		// the same entity was found along a different path
+		if exists {
+			se.OtherPaths = append(se.OtherPaths, se.Path)
+			se.Path = path
+			se.Triples = triples
+			return nil
+		}
+
+		atomic.AddInt64(&ds.count, 1)
 		se.URI = uri
 		se.Path = path
 		se.Triples = triples
@@ -198,25 +219,29 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 		defer it.Release()
 
 		for it.Next() {
-			var uri LabelWithParent
-			var err error
-
-			if parentPathIndex > -1 {
-				err = ds.decode(it.Value(), func(se *sEntity) error {
-					uri.Label = se.URI
-					uri.Parent = se.Path[parentPathIndex]
-					return nil
-				})
-			} else {
-				uri.Label = impl.Label(it.Key())
+			uri := impl.Label(it.Key())
+
+			// no parent requested
+			if parentPathIndex < 0 {
+				if !sender.Yield(LabelWithParent{Label: uri}) {
+					return
+				}
+				continue
 			}
 
+			var parents []impl.Label
+			err := ds.decode(it.Value(), func(se *sEntity) error {
+				parents = parentsOf(parentPathIndex, se.Path, se.OtherPaths)
+				return nil
+			})
 			if !sender.YieldError(err) {
 				return
 			}
 
-			if !sender.Yield(uri) {
-				return
+			for _, parent := range parents {
+				if !sender.Yield(LabelWithParent{Label: uri, Parent: parent}) {
+					return
+				}
 			}
 		}
 
diff --git a/internal/sparkl/storages/entity.go b/internal/sparkl/storages/entity.go
index ea14068..f29aa26 100644
--- a/internal/sparkl/storages/entity.go
+++ b/internal/sparkl/storages/entity.go
@@ -25,16 +25,18 @@ var bufferPool = sync.Pool{
 
 // sEntity represents a stored entity that does not hold references to child entities
 type sEntity struct {
-	Fields   map[string][]wisski.FieldValue
-	Children map[string][]impl.Label // child entities
-	URI      impl.Label
-	Path     []impl.Label
-	Triples  []igraph.Triple
+	Fields     map[string][]wisski.FieldValue
+	Children   map[string][]impl.Label // child entities
+	URI        impl.Label
+	Path       []impl.Label
+	OtherPaths [][]impl.Label // other paths leading to the same entity
+	Triples    []igraph.Triple
 }
 
 // Reset resets this stored entity
 func (s *sEntity) Reset() {
 	s.Path = nil
+	s.OtherPaths = nil
 	s.Children = nil
 	s.Triples = nil
 	s.Fields = nil
diff --git a/internal/sparkl/storages/memory.go b/internal/sparkl/storages/memory.go
index df642ba..cb0d64f 100644
--- a/internal/sparkl/storages/memory.go
+++ b/internal/sparkl/storages/memory.go
@@ -17,7 +17,8 @@ func (MemoryEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error
 		bundle:        bundle,
 		childStorages: make(map[string]BundleStorage),
 
-		lookup: make(map[impl.Label]int),
+		lookup:     make(map[impl.Label]int),
+		otherPaths: make(map[impl.Label][][]impl.Label),
 	}, nil
 }
 
@@ -26,6 +27,7 @@ type Memory struct {
 	bundle        *pathbuilder.Bundle
 	childStorages map[string]BundleStorage
 	lookup        map[impl.Label]int
+	otherPaths    map[impl.Label][][]impl.Label // other paths leading to the same entity
 	Entities      []wisski.Entity
 	addField      sync.Mutex
 	addChild      sync.Mutex
@@ -33,6 +35,14 @@ type Memory struct {
 
 // Add adds an entity to this BundleSlice
 func (bs *Memory) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
+	// the same entity was found along a different path
+	if id, ok := bs.lookup[uri]; ok {
+		bs.otherPaths[uri] = append(bs.otherPaths[uri], bs.Entities[id].Path)
+		bs.Entities[id].Path = path
+		bs.Entities[id].Triples = triples
+		return nil
+	}
+
 	bs.lookup[uri] = len(bs.Entities)
 	entity := wisski.Entity{
 		URI:      uri,
@@ -104,16 +114,21 @@ func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 		defer sender.Return()
 
 		for _, entity := range bs.Entities {
-			var parent impl.Label
-			if parentPathIndex > -1 {
-				parent = entity.Path[parentPathIndex]
+			// no parent requested
+			if parentPathIndex < 0 {
+				if !sender.Yield(LabelWithParent{Label: entity.URI}) {
+					return
+				}
+				continue
 			}
 
-			if !sender.Yield(LabelWithParent{
-				Label:  entity.URI,
-				Parent: parent,
-			}) {
-				break
+			for _, parent := range parentsOf(parentPathIndex, entity.Path, bs.otherPaths[entity.URI]) {
+				if !sender.Yield(LabelWithParent{
+					Label:  entity.URI,
+					Parent: parent,
+				}) {
+					return
+				}
 			}
 		}
 	})
@@ -133,6 +148,7 @@ func (bs *Memory) Load(uri impl.Label) (entity wisski.Entity, err error) {
 
 func (bs *Memory) Close() error {
 	bs.lookup = nil
+	bs.otherPaths = nil
 	bs.childStorages = nil
 	return nil
 }
diff --git a/internal/sparkl/storages/storages.go b/internal/sparkl/storages/storages.go
index 0258361..40333d5 100644
--- a/internal/sparkl/storages/storages.go
+++ b/internal/sparkl/storages/storages.go
@@ -10,6 +10,7 @@ import (
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
 	"github.com/FAU-CDI/hangover/internal/wisski"
 	"github.com/tkw1536/pkglib/traversal"
+	"golang.org/x/exp/slices"
 )
 
 // BundleEngine is a function that initializes and returns a new BundleStorage
@@ -34,6 +35,7 @@ type BundleStorage interface {
 
 	// Add adds a new entity with the given URI (and optional path information)
 	// to this bundle.
+	// The same entity may be added several times if different paths lead to it.
 	//
 	// Calls to add for a specific bundle storage are serialized.
 	Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error
@@ -61,9 +63,11 @@ type BundleStorage interface {
 	Finalize() error
 
 	// Get returns an iterator that iterates over the url of every entity in this bundle, along with their parent URIs.
+	// An entity with several parents is returned once for every (distinct) parent.
 	// The iterator is guaranteed to iterate in some consistent order, but no further guarantees beyond that.
 	//
 	// parentPathIndex returns the index of the parent uri in child paths.
+	// If it is negative, no parents are returned and every entity is returned exactly once.
 	Get(parentPathIndex int) traversal.Iterator[LabelWithParent]
 
 	// Count counts the number of entities in this storage.
@@ -83,3 +87,17 @@ type LabelWithParent struct {
 	Label  impl.Label
 	Parent impl.Label
 }
+
+// parentsOf returns the distinct elements of the given paths at the given index.
+func parentsOf(index int, path []impl.Label, others [][]impl.Label) []impl.Label {
+	parents := make([]impl.Label, 0, 1+len(others))
+	for _, other := range others {
+		if parent := other[index]; !slices.Contains(parents, parent) {
+			parents = append(parents, parent)
+		}
+	}
+	if parent := path[index]; !slices.Contains(parents, parent) {
+		parents = append(parents, parent)
+	}
+	return parents
+}
-- 
2.43.0


From 8aebb0e850dee1671f386a5d4c5a9a0d528410b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 04/33] fix: keep statements that reach a pathbuilder's
 properties via identities, inverses or resources

The mask was computed before identities and inverses were known and compared
literal names, so statements using an equivalent or inverse property were
skipped, as were resources given as the value of a datatype property.
---
 internal/sparkl/index.go             | 19 +++++++----
 internal/triplestore/igraph/index.go | 48 ++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..72e5583 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this needs to know all the identities and inverses.
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
@@ -144,7 +145,11 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	addPathArrayToMasks(pmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
-		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
+		if datatype := field.Datatype(); datatype != "" {
+			// the value may be either a literal or a resource
+			dmask[impl.Label(datatype)] = struct{}{}
+			pmask[impl.Label(datatype)] = struct{}{}
+		}
 	}
 	for _, child := range bundle.ChildBundles {
 		addBundleToMasks(pmask, dmask, child)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..85c120b 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
+	"golang.org/x/exp/maps"
 )
 
 // cSpell:words igraph imap
@@ -173,28 +174,55 @@ func (index *Index) Reset(engine Engine) (err error) {
 	return nil
 }
 
-// SetPredicateMask sets the masks for predicates
+// SetPredicateMask sets the masks for predicates.
+// A predicate is contained in the mask if it, or its inverse, is semantically equivalent to one of the provided predicates.
+//
+// Should be called after any calls to MarkIdentical and MarkInverse.
 func (index *Index) SetPredicateMask(predicates map[impl.Label]struct{}) error {
-	return index.setMask(predicates, &index.pMask)
+	mask, err := index.makeMask(predicates)
+	if err != nil {
+		return err
+	}
+
+	// predicates may also be reached via their inverses
+	for _, id := range maps.Keys(mask) {
+		inverse, ok, err := index.inverses.Get(id)
+		if err != nil {
+			return err
+		}
+		if ok {
+			mask[inverse] = struct{}{}
+		}
+	}
+
+	index.pMask = mask
+	return nil
 }
 
-// SetDataMask sets the masks for data
+// SetDataMask sets the masks for data.
+// A predicate is contained in the mask if it is semantically equivalent to one of the provided predicates.
+//
+// Should be called after any calls to MarkIdentical.
 func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
-	return index.setMask(predicates, &index.dMask)
+	mask, err := index.makeMask(predicates)
+	if err != nil {
+		return err
+	}
+	index.dMask = mask
+	return nil
 }
 
-func (index *Index) setMask(predicates map[impl.Label]struct{}, dest *map[impl.ID]struct{}) error {
+// makeMask returns the set of (canonical) ids for the given predicates
+func (index *Index) makeMask(predicates map[impl.Label]struct{}) (map[impl.ID]struct{}, error) {
 	mask := make(map[impl.ID]struct{}, len(predicates))
 	for label := range predicates {
 		ids, err := index.labels.Add(label)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		mask[ids.Canonical] = struct{}{}
 	}
-
-	*dest = mask
-	return nil
+	return mask, nil
 }
 
 func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (imap.TripleID, bool, error) {
@@ -214,7 +242,7 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
 	return ids, ok, nil
 }
 
-- 
2.43.0


From 2c5b8f4ba3dd1716228e6d7bf583e565518d9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 05/33] fix: count every conflicting triple only once

Both the pso and the pos index reported each conflict.
---
 internal/triplestore/igraph/index.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 85c120b..51228ef 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -408,8 +408,6 @@ func (index *Index) resolveLabelConflict(old, new impl.ID) (impl.ID, error) {
 		return old, nil
 	}
 
-	index.stats.ConflictTriples++
-
 	// lod the old triple
 	ot, ok, err := index.triples.Get(old)
 	if !ok {
@@ -447,7 +445,13 @@ func (index *Index) insert(subject, predicate, object impl.ID, label impl.ID) (c
 	if conflicted2, err = index.posIndex.Add(predicate, object, subject, label, index.resolveLabelConflict); err != nil {
 		return false, err
 	}
-	return conflicted1 || conflicted2, err
+
+	// both indexes hold the same triples, so count a conflict only once
+	conflicted = conflicted1 || conflicted2
+	if conflicted {
+		index.stats.ConflictTriples++
+	}
+	return conflicted, nil
 }
 
 // MarkIdentical identifies the new and old labels.
-- 
2.43.0


From 7e21181959ce5431862dd346aa7b8318b5be8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 06/33] fix: report errors of adding entities and field values

The error of adding an entity was ignored; those of adding field values went
through a variable shared by all fields of a bundle.
---
 internal/sparkl/context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
@@ -187,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From c485fbab770ccdad19a8169fb627b76541c1ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 07/33] fix: finalize storages before extraction is done, and
 close all of them

Storages were finalized after Wait() returned and the error was ignored.
Handing them to an unbuffered channel that nobody read leaked them, along with
a goroutine each.
---
 internal/sparkl/context.go       | 47 ++++++++++++++++----------------
 internal/sparkl/pathbuilder.go   | 14 ++++++++--
 internal/sparkl/storages/disk.go | 12 ++++----
 3 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..39a9a2d 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -1,6 +1,7 @@
 package sparkl
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"sync/atomic"
@@ -20,9 +21,6 @@ import (
 // The storage for this bundle is returned.
 func StoreBundle(bundle *pathbuilder.Bundle, index *igraph.Index, engine storages.BundleEngine, st *stats.Stats) (storages.BundleStorage, func() error, error) {
 	storages, closer, err := StoreBundles([]*pathbuilder.Bundle{bundle}, index, engine, st)
-	if err != nil {
-		return nil, nil, err
-	}
 	return storages[0], closer, err
 }
 
@@ -76,7 +74,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closers      []io.Closer    // what to close when done
+	closersLock  sync.Mutex     // protects closers
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +88,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -103,19 +101,19 @@ func (context *Context) Wait() error {
 	return context.err
 }
 
-// Close closes this context
-func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
-		}
+// Close closes this context, and any storages created by it.
+// It should only be called once [Wait] has returned.
+func (context *Context) Close() error {
+	context.closersLock.Lock()
+	closers := context.closers
+	context.closers = nil
+	context.closersLock.Unlock()
+
+	errs := make([]error, len(closers))
+	for i, closer := range closers {
+		errs[i] = closer.Close()
 	}
+	return errors.Join(errs...)
 }
 
 // reportError stores an error in this context
@@ -146,6 +144,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -212,10 +215,12 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
+
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -224,7 +229,6 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
 					for children.Next() {
@@ -239,10 +243,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
diff --git a/internal/sparkl/pathbuilder.go b/internal/sparkl/pathbuilder.go
index 27e8e80..f2549f5 100644
--- a/internal/sparkl/pathbuilder.go
+++ b/internal/sparkl/pathbuilder.go
@@ -15,12 +15,16 @@ import (
 
 // Export loads all top-level paths from the given path-builder from the index into the given engine.
 // Afterwards it is exported into the given exporter.
-func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) error {
+func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) (err error) {
 	bundles := pb.Bundles()
 
 	storages, closer, err := StoreBundles(bundles, index, engine, stats)
 	if closer != nil {
-		defer closer()
+		defer func() {
+			if cErr := closer(); err == nil {
+				err = cErr
+			}
+		}()
 	}
 	if err != nil {
 		return err
@@ -38,7 +42,11 @@ func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.Bu
 			err := func() (e error) {
 				storage := storages[i]
 				bundle := bundles[i]
-				defer storage.Close()
+				defer func() {
+					if err := storage.Close(); e == nil {
+						e = err
+					}
+				}()
 
 				// count the number of elements
 				count, err := storage.Count()
diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 6dbb230..25c2a82 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -278,10 +278,12 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 }
 
 func (ds *Disk) Close() error {
-	if ds.DB != nil {
-		ds.DB.Close()
-		ds.DB = nil
-		ds.childStorages = nil
+	if ds.DB == nil {
+		return nil
 	}
-	return nil
+
+	err := ds.DB.Close()
+	ds.DB = nil
+	ds.childStorages = nil
+	return err
 }
-- 
2.43.0


From 688ed910021befe6bdcab4b270b8c8736aff7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 08/33] fix: keep the progress of extracting bundles from
 running backwards

Bundles finishing at the same time could report their numbers out of order, or
only after the stage had ended.
---
 internal/sparkl/context.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 39a9a2d..1f5db55 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -41,12 +41,17 @@ func StoreBundles(bundles []*pathbuilder.Bundle, index *igraph.Index, engine sto
 	st.SetCT(0, total)
 
 	// update the counter every time we finish a bundle
-	var counter atomic.Int64
+	// progress may not run backwards, so do this for one bundle at a time
+	var counter int
+	var counterLock sync.Mutex
 	storages := make([]storages.BundleStorage, len(bundles))
 	for i := range storages {
 		storages[i] = context.Store(bundles[i], func() {
-			current := int(counter.Add(1))
-			st.SetCT(current, total)
+			counterLock.Lock()
+			defer counterLock.Unlock()
+
+			counter++
+			st.SetCT(counter, total)
 		})
 	}
 	err := context.Wait()
@@ -139,8 +144,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	// create a new context
 	storage, err := context.Engine.NewStorage(bundle)
 	if context.reportError(err) {
-		context.extractWait.Done()
 		onFinish()
+		context.extractWait.Done()
 		return nil
 	}
 
@@ -150,8 +155,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	context.closersLock.Unlock()
 
 	go func() {
-		defer onFinish()
 		defer context.extractWait.Done()
+		defer onFinish()
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
-- 
2.43.0


From 61d55284e8ac685bec342507bbdb0e1328a0e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 09/33] fix: report errors of storing statements, identities
 and inverses while indexing

---
 internal/sparkl/index.go                   | 16 ++++++++++++----
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 12 ++++++++----
 internal/triplestore/imap/imap.go          |  8 ++++++--
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 72e5583..55bc427 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -197,7 +197,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -241,7 +243,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -274,9 +278,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 51228ef..5630329 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -280,10 +280,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -300,7 +302,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -316,7 +318,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..fa78678 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,12 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err := mp.forward.Set(label, ids); err != nil {
+		return ids, false, err
+	}
+	if err := mp.reverse.Set(ids.Literal, label); err != nil {
+		return ids, false, err
+	}
 
 	// return the id
 	return
-- 
2.43.0


From 60e4ae992b150c859d769f1ec14d99f889aa4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 10/33] fix: close the languages and triples of an index as
 well

---
 internal/triplestore/igraph/index.go | 43 +++++++++++++++++-----------
 internal/triplestore/imap/imap.go    |  7 +----
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 5630329..e9e2235 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -3,7 +3,6 @@ package igraph
 
 import (
 	"errors"
-	"io"
 	"sync"
 	"sync/atomic"
 
@@ -113,49 +112,41 @@ func (index *Index) Reset(engine Engine) (err error) {
 		return err
 	}
 
-	var closers []io.Closer
+	// if something goes wrong, close everything opened so far
 	defer func() {
 		if err != nil {
-			for _, closer := range closers {
-				closer.Close()
-			}
+			index.Close()
 		}
 	}()
 
 	if err := index.labels.Reset(engine); err != nil {
 		return err
 	}
-	closers = append(closers, &index.labels)
 
 	index.language, err = engine.Language()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.language)
 
 	index.data, err = engine.Data()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.data)
 
 	index.inverses, err = engine.Inverses()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.inverses)
 
 	index.psoIndex, err = engine.PSOIndex()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.psoIndex)
 
 	index.posIndex, err = engine.POSIndex()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.posIndex)
 
 	index.triples, err = engine.Triples()
 	if err != nil {
@@ -518,9 +509,9 @@ func (index *Index) Compact() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -552,6 +543,11 @@ func (index *Index) Compact() error {
 		errs[5] = index.triples.Compact()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Compact()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
@@ -569,9 +565,9 @@ func (index *Index) Finalize() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -603,13 +599,18 @@ func (index *Index) Finalize() error {
 		errs[5] = index.triples.Finalize()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Finalize()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -632,6 +633,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index fa78678..28ecc8b 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -3,7 +3,6 @@ package imap
 
 import (
 	"errors"
-	"io"
 	"sync"
 	"sync/atomic"
 
@@ -53,19 +52,15 @@ func (mp *IMap) Reset(engine Map) error {
 	}
 
 	var err error
-	var closers []io.Closer
 
 	mp.forward, err = engine.Forward()
 	if err != nil {
 		return err
 	}
-	closers = append(closers, mp.forward)
 
 	mp.reverse, err = engine.Reverse()
 	if err != nil {
-		for _, closer := range closers {
-			closer.Close()
-		}
+		mp.Close()
 		return err
 	}
 
-- 
2.43.0


From c41193f7a8e24b4a26afcf28ca3117521dcbfa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 11/33] fix: fail to load a dataset when extracting bundles
 fails

---
 internal/glass/glass.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..54e1661 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,12 +116,11 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	if err := st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
-	})
-	if err != nil {
-		return drincw, err
+	}); err != nil {
+		return Glass{}, err
 	}
 
 	// extract the cache
@@ -145,10 +144,6 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 		return Glass{}, err
 	}
 
-	if err != nil {
-		return drincw, err
-	}
-
 	index.Close()        // We close the index early, because it's no longer needed
 	debug.FreeOSMemory() // force returning memory to the os
 
-- 
2.43.0


From 17a6e05a6717ed8055abbaa77794388ee38b5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 12/33] fix: write exports completely, and report failures of
 doing so

---
 internal/glass/glass.go  | 27 ++++++++++++++++++++-------
 internal/stats/status.go |  5 +++++
 pkg/progress/progress.go |  9 ++++++++-
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 54e1661..562dce3 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -158,24 +158,35 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cErr := f.Close(); err == nil && cErr != nil {
+			st.LogError("close export", cErr)
+			err = cErr
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
-			Writer:     writer,
-			Rewritable: *st.Rewritable(),
+			Writer: writer,
+		}
+		if rewritable := st.Rewritable(); rewritable != nil {
+			counter.Rewritable = *rewritable
 		}
 
-		err = drincw.EncodeTo(gob.NewEncoder(counter))
+		err := drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write everything not yet written
+		if cErr := writer.Close(); err == nil {
+			err = cErr
+		}
+
 		if err != nil {
 			st.LogError("encode export", err)
 		}
@@ -204,8 +215,10 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 
 	err = st.DoStage(stats.StageImportIndex, func() error {
 		counter := &progress.Reader{
-			Reader:     reader,
-			Rewritable: *st.Rewritable(),
+			Reader: reader,
+		}
+		if rewritable := st.Rewritable(); rewritable != nil {
+			counter.Rewritable = *rewritable
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
 		counter.Flush(true)
diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..2474980 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -45,6 +45,11 @@ type Stats struct {
 	OnUpdate func(*Stats)
 }
 
+// GobEncode and GobDecode allow structs that refer to a Stats to be stored.
+// The Stats themselves are never stored.
+func (st *Stats) GobEncode() ([]byte, error) { return nil, nil }
+func (st *Stats) GobDecode([]byte) error     { return nil }
+
 // NewStats creates a new stats object that writes statistics to the given output.
 func NewStats(w io.Writer) *Stats {
 	if w == nil {
diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..70b7a78 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -55,6 +55,11 @@ func (rw *Rewritable) Write(value string) {
 }
 
 func (rw *Rewritable) Flush(force bool) {
+	// nothing to write to
+	if rw.Writer == nil {
+		return
+	}
+
 	if !(force || time.Since(rw.lastFlush) > rw.FlushInterval) {
 		return
 	}
@@ -77,7 +82,9 @@ func (rw *Rewritable) Flush(force bool) {
 func (rw *Rewritable) Close() {
 	rw.content = ""
 	rw.Flush(true)
-	rw.Writer.Write([]byte("\r"))
+	if rw.Writer != nil {
+		rw.Writer.Write([]byte("\r"))
+	}
 
 	rw.longestContent = 0
 }
-- 
2.43.0


From d89db484d6d2cd00ece9c005ad5d9c866244655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 13/33] fix: don't serve without a listener when exporting

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From 5d89921bac3a20f5a202efeac8fae2849e263fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 14/33] fix: stop answering API requests after the loading
 message

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From 8cf811d6f7649fd67e2a886e4859221f0432f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 15/33] fix: report everything that keeps n2j from writing its
 output

---
 cmd/n2j/json.go   |  2 +-
 cmd/n2j/n2j.go    |  6 +++---
 cmd/n2j/sqlite.go | 14 ++++++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..0353ae9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -21,7 +21,7 @@ import (
 
 // cspell:words nquads pathbuilder
 
-var errBothSqliteAndMysql = errors.New("both -sqlite and -mysql were given")
+var errMultipleOutputs = errors.New("more than one of -sqlite, -mysql and -csv were given")
 
 func main() {
 	// create a new status
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errMultipleOutputs)
 	}
 
 	// find the paths
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..b9be2cb 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -89,17 +89,20 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cErr := file.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +150,8 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// and write out everything remaining
+	writer.Flush()
+	return writer.Error()
 }
-- 
2.43.0


From 00b58b1600602297829e87c860252d7aa71d6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 16/33] fix: replace field tables when exporting into the same
 database again

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From ae5e9bb7295bad8f23de39a7f9657b660d36605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 17/33] fix: link to the first page of a bundle, and show
 bundles without entities

---
 internal/viewer/html.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..e705ade 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -273,12 +273,12 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 
 	total := len(entities)
 	// slice the entities received
-	if skip < total {
-		entities = entities[skip:]
-	} else {
+	// (the first page always exists, even if there are no entities)
+	if skip > 0 && skip >= total {
 		http.NotFound(w, r)
 		return
 	}
+	entities = entities[skip:]
 	if limit < len(entities) {
 		entities = entities[:limit]
 	}
@@ -305,9 +305,8 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	}
 
 	// add the previous link if there are previous pages
-	prev := skip - limit
-	if prev > 0 {
-		context.PrevLink = pageLink(prev)
+	if skip > 0 {
+		context.PrevLink = pageLink(skip - limit)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
-- 
2.43.0


From 325aa431ef4e9c16a4a499bded420f82fa549794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 18/33] fix: escape the uris of entities in redirects

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index e705ade..ee3e736 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -402,7 +402,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + bundle + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -426,7 +426,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From 4fb2bd029f46581ae38cd9fc3f1920408d00cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 19/33] fix: always find an entity of several bundles in the
 same one

---
 internal/sparkl/cache.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index fcbba81..7047adb 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -121,7 +121,12 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 	c.beIndex = Data
 	c.biIndex = make(map[string]map[impl.ID]int, len(c.beIndex))
 	c.ebIndex = make(map[impl.ID]string)
-	for bundle, entities := range c.beIndex {
+	c.bundleNames = maps.Keys(c.beIndex)
+	slices.Sort(c.bundleNames)
+
+	// go through the bundles in order, so that an entity in several bundles is always found in the same one
+	for _, bundle := range c.bundleNames {
+		entities := c.beIndex[bundle]
 		c.biIndex[bundle] = make(map[impl.ID]int, len(entities))
 		for i, entity := range entities {
 			id, err := c.uris.Add(entity.URI)
@@ -135,9 +140,6 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 		}
 	}
 
-	c.bundleNames = maps.Keys(c.beIndex)
-	slices.Sort(c.bundleNames)
-
 	sameAsCount, err := SameAs.Count()
 	if err != nil {
 		return c, err
-- 
2.43.0


From b7d08e372133f993d54fa6eddaf8e12ae77fcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 20/33] fix: write empty texts into downloads

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From f508a834a2df9fe21742f5d0158b38b83ce3bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 21/33] fix: store every bundle in a directory of its own
 inside of the cache

---
 internal/sparkl/storages/disk.go     | 9 ++++++---
 internal/sparkl/storages/storages.go | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 25c2a82..763324d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -3,6 +3,7 @@ package storages
 import (
 	"os"
 	"path/filepath"
+	"strconv"
 	"sync"
 	"sync/atomic"
 
@@ -16,11 +17,13 @@ import (
 )
 
 type DiskEngine struct {
-	Path string
+	Path  string
+	count atomic.Int64 // number of storages created
 }
 
-func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+func (de *DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
+	// identifiers of bundles need not be unique, or valid as the name of a directory.
+	path := filepath.Join(de.Path, strconv.FormatInt(de.count.Add(1), 10))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
diff --git a/internal/sparkl/storages/storages.go b/internal/sparkl/storages/storages.go
index 40333d5..0e66108 100644
--- a/internal/sparkl/storages/storages.go
+++ b/internal/sparkl/storages/storages.go
@@ -24,7 +24,7 @@ func NewBundleEngine(path string) BundleEngine {
 	if path == "" {
 		return MemoryEngine{}
 	}
-	return DiskEngine{
+	return &DiskEngine{
 		Path: filepath.Join(path, "bundles"),
 	}
 }
-- 
2.43.0


From 096e78ac9cd937b2999210e70a9844bd01939dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 22/33] fix: write out progress one update at a time

---
 internal/stats/status.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index 2474980..9d0c074 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -376,13 +376,13 @@ func (st *Stats) SetCT(current, total int) {
 		st.current.Current = current
 		st.current.Total = total
 		progress = st.current.Progress()
-	}
-	st.m.Unlock()
 
-	// and write out the rewritable
-	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		// and write out the rewritable
+		if st.rewritable != nil {
+			st.rewritable.Write(progress)
+		}
 	}
+	st.m.Unlock()
 }
 
 // Progress returns a string holding progress information on the current stage
-- 
2.43.0


From 9965a0ed26b807a5187a440914dfa8dd7c04069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 23/33] fix: find sources in directories with special
 characters in their name

---
 load.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..2152d00 100644
--- a/load.go
+++ b/load.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 // cspell:words nqauds
@@ -40,23 +41,15 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xml, err = findInDirectory(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
-		if len(xmls) != 1 {
-			return "", "", "", fmt.Errorf("need exactly one '*.xml' in %q, but got %d", base, len(xmls))
-		}
-		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nq, err = findInDirectory(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
-		if len(nqs) != 1 {
-			return "", "", "", fmt.Errorf("need exactly one '*.xml' in %q, but got %d", base, len(nqs))
-		}
-		nq = nqs[0]
 	}
 
 	// check for regular files
@@ -73,6 +66,26 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// findInDirectory finds the only entry of the directory base with the given extension.
+// Unlike filepath.Glob, no character of base is special.
+func findInDirectory(base, ext string) (string, error) {
+	entries, err := os.ReadDir(base)
+	if err != nil {
+		return "", err
+	}
+
+	var matches []string
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), ext) {
+			matches = append(matches, filepath.Join(base, entry.Name()))
+		}
+	}
+	if len(matches) != 1 {
+		return "", fmt.Errorf("need exactly one '*%s' in %q, but got %d", ext, base, len(matches))
+	}
+	return matches[0], nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 63a12ced676084437cf60a9a313e0c1a53dd1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 24/33] fix: release the iterator when counting a storage

---
 internal/triplestore/imap/map_disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..5844494 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,8 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
+
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From 452aade701d4870bba13b81fc1f3a3c58d1c39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 25/33] fix: set the options of the viewer before serving
 requests

---
 internal/headache/ui_run.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/headache/ui_run.go b/internal/headache/ui_run.go
index 968d91f..7730f61 100644
--- a/internal/headache/ui_run.go
+++ b/internal/headache/ui_run.go
@@ -67,6 +67,9 @@ func (h *Headache) setupRunWindow() {
 
 // runViewer
 func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel context.CancelFunc) {
+	// set the options before the first request is served
+	h.handler.RenderFlags = h.settings.Flags()
+
 	// create a new handler
 	h.done.Add(1)
 	go func() {
@@ -85,7 +88,6 @@ func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel
 		defer listener.Close()  // close the listener
 		defer h.handler.Close() // kill the cache
 
-		h.handler.RenderFlags = h.settings.Flags()
 		pb, nq := h.settings.Pathbuilder(), h.settings.Nquads()
 
 		// create the glass by indexing
-- 
2.43.0


From 0947a70cab8c7d9317b0cc0356261959c2e45b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 26/33] fix: stop extracting a bundle when its children can't
 be registered

---
 internal/sparkl/context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1f5db55..4f746cb 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -217,7 +217,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			err := storage.RegisterChildStorage(bundle.MachineName(), cstorages[i])
-			context.reportError(err)
+			if context.reportError(err) {
+				// children can't be added without their storage
+				return
+			}
 		}
 
 		context.childAddWait.Add(1)
-- 
2.43.0


From cb4c24a8704d9264997d76e48b5ae9c5a246f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 27/33] fix: end all iterators before closing the index or
 storage they read from

---
 internal/sparkl/storages/disk.go       |  6 ++-
 internal/sparkl/storages/memory.go     |  4 +-
 internal/triplestore/igraph/index.go   |  5 ++
 internal/triplestore/igraph/paths.go   | 24 +++++++--
 internal/triplestore/impl/iterators.go | 69 ++++++++++++++++++++++++++
 5 files changed, 101 insertions(+), 7 deletions(-)
 create mode 100644 internal/triplestore/impl/iterators.go

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 763324d..5d6344d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -48,7 +48,8 @@ type Disk struct {
 	DB            *leveldb.DB
 	childStorages map[string]BundleStorage
 	count         int64
-	l             sync.RWMutex // protects modifying data on disk
+	l             sync.RWMutex   // protects modifying data on disk
+	iterators     impl.Iterators // currently running iterators
 }
 
 // put creates or updates the entity with the given uri.
@@ -215,7 +216,7 @@ func (ds *Disk) Finalize() error {
 }
 
 func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
-	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
+	return impl.Iterate(&ds.iterators, func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
 		it := ds.DB.NewIterator(nil, nil)
@@ -285,6 +286,7 @@ func (ds *Disk) Close() error {
 		return nil
 	}
 
+	ds.iterators.Close()
 	err := ds.DB.Close()
 	ds.DB = nil
 	ds.childStorages = nil
diff --git a/internal/sparkl/storages/memory.go b/internal/sparkl/storages/memory.go
index cb0d64f..91aa77c 100644
--- a/internal/sparkl/storages/memory.go
+++ b/internal/sparkl/storages/memory.go
@@ -31,6 +31,7 @@ type Memory struct {
 	Entities      []wisski.Entity
 	addField      sync.Mutex
 	addChild      sync.Mutex
+	iterators     impl.Iterators // currently running iterators
 }
 
 // Add adds an entity to this BundleSlice
@@ -110,7 +111,7 @@ func (bs *Memory) Finalize() error {
 }
 
 func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
-	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
+	return impl.Iterate(&bs.iterators, func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
 		for _, entity := range bs.Entities {
@@ -147,6 +148,7 @@ func (bs *Memory) Load(uri impl.Label) (entity wisski.Entity, err error) {
 }
 
 func (bs *Memory) Close() error {
+	bs.iterators.Close()
 	bs.lookup = nil
 	bs.otherPaths = nil
 	bs.childStorages = nil
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index e9e2235..24a47f3 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -36,6 +36,7 @@ type Index struct {
 	pMask     map[impl.ID]struct{}                 // mask for predicates
 	dMask     map[impl.ID]struct{}                 // mask for data
 	labels    imap.IMap
+	queries   impl.Iterators // currently running queries
 	stats     Stats
 	finalized atomic.Bool
 	triple    impl.ID // id for a given triple
@@ -155,6 +156,7 @@ func (index *Index) Reset(engine Engine) (err error) {
 
 	index.triple.Reset()
 	index.finalized.Store(false)
+	index.queries = impl.Iterators{}
 
 	// reset mask and triples
 	index.pMask = nil
@@ -610,6 +612,9 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
+	// queries that were abandoned may still be running
+	index.queries.Close()
+
 	var errors [7]error
 	errors[0] = index.labels.Close()
 
diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..b23cf1c 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -61,7 +61,7 @@ func (index *Index) PathsStarting(predicate, object impl.Label) (*Paths, error)
 func (index *Index) newQuery(source func(sender traversal.Generator[element])) (q *Paths) {
 	q = &Paths{
 		index:    index,
-		elements: traversal.New(source),
+		elements: impl.Iterate(&index.queries, source),
 		size:     invalidSize,
 	}
 	return q
@@ -82,7 +82,7 @@ var errAborted = errors.New("paths: aborted")
 
 // expand expands the nodes in this query by adding a link to each element found in the index
 func (set *Paths) expand(p impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
+	set.elements = set.connect(func(subject element, sender traversal.Generator[element]) (ok bool) {
 		err := set.index.psoIndex.Fetch(p, subject.Node, func(object impl.ID, l impl.ID) error {
 			if !sender.Yield(element{
 				Node:    object,
@@ -120,7 +120,7 @@ func (set *Paths) Ending(predicate, object impl.Label) error {
 
 // restrict restricts the set of nodes by those mapped in the index
 func (set *Paths) restrict(p, o impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) bool {
+	set.elements = set.connect(func(subject element, sender traversal.Generator[element]) bool {
 		tid, has, err := set.index.posIndex.Has(p, o, subject.Node)
 		if err != nil {
 			return sender.YieldError(err)
@@ -157,8 +157,9 @@ func (set *Paths) Size() (int, error) {
 // Paths returns an iterator over paths contained in this Paths.
 // It may only be called once, afterwards further calls may be invalid.
 func (set *Paths) Paths() traversal.Iterator[Path] {
-	return traversal.New(func(generator traversal.Generator[Path]) {
+	return impl.Iterate(&set.index.queries, func(generator traversal.Generator[Path]) {
 		defer generator.Return()
+		defer set.elements.Close()
 
 		for set.elements.Next() {
 			element := set.elements.Datum()
@@ -175,6 +176,21 @@ func (set *Paths) Paths() traversal.Iterator[Path] {
 	})
 }
 
+// connect is like [traversal.Connect], applied to the elements of this set.
+func (set *Paths) connect(f func(subject element, sender traversal.Generator[element]) (ok bool)) traversal.Iterator[element] {
+	source := set.elements
+	return impl.Iterate(&set.index.queries, func(sender traversal.Generator[element]) {
+		defer source.Close()
+
+		for source.Next() {
+			if !f(source.Datum(), sender) {
+				return
+			}
+		}
+		sender.YieldError(source.Err())
+	})
+}
+
 // makePath creates a path from an element
 func (set *Paths) makePath(elem element) (path Path, err error) {
 	var rNodes, rTriples []impl.ID
diff --git a/internal/triplestore/impl/iterators.go b/internal/triplestore/impl/iterators.go
new file mode 100644
index 0000000..9d9ff8d
--- /dev/null
+++ b/internal/triplestore/impl/iterators.go
@@ -0,0 +1,69 @@
+package impl
+
+import (
+	"errors"
+	"sync"
+
+	"github.com/tkw1536/pkglib/traversal"
+)
+
+var errIteratorsClosed = errors.New("Iterators: already closed")
+
+// Iterators keeps track of iterators that read from a common resource.
+// Iterators do their work in the background, even for a moment after they have been abandoned.
+// Closing Iterators ends them all, and makes it safe to close the resource.
+//
+// The zero value is ready to use.
+type Iterators struct {
+	l       sync.Mutex
+	closed  bool
+	counter int
+	cancels map[int]func() error // closes the running iterators
+	wg      sync.WaitGroup       // waits for the running iterators
+}
+
+// Iterate is like [traversal.New], but keeps track of the new iterator using its.
+func Iterate[T any](its *Iterators, source func(traversal.Generator[T])) traversal.Iterator[T] {
+	its.l.Lock()
+	defer its.l.Unlock()
+
+	if its.closed {
+		return traversal.Empty[T](errIteratorsClosed)
+	}
+
+	id := its.counter
+	its.counter++
+	its.wg.Add(1)
+
+	it := traversal.New(func(sender traversal.Generator[T]) {
+		defer its.done(id)
+		source(sender)
+	})
+
+	if its.cancels == nil {
+		its.cancels = make(map[int]func() error)
+	}
+	its.cancels[id] = it.Close
+	return it
+}
+
+func (its *Iterators) done(id int) {
+	its.l.Lock()
+	defer its.l.Unlock()
+
+	delete(its.cancels, id)
+	its.wg.Done()
+}
+
+// Close closes all running iterators, and waits for them to end.
+// Multiple calls to Close are permitted.
+func (its *Iterators) Close() {
+	its.l.Lock()
+	its.closed = true
+	for _, cancel := range its.cancels {
+		_ = cancel()
+	}
+	its.l.Unlock()
+
+	its.wg.Wait()
+}
-- 
2.43.0


From b33e811735abb0061d43c579ebcbcd81a59e148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 28/33] fix: write downloads with any name and language

---
 internal/triplestore/igraph/triple.go | 74 +++++++++++++--------------
 internal/wisski/entity.go             | 20 ++++----
 2 files changed, 46 insertions(+), 48 deletions(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7ae9bea..720957a 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -3,10 +3,10 @@ package igraph
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
-	"github.com/anglo-korean/rdf"
 )
 
 // Stats holds statistics about triples in the index
@@ -88,54 +88,50 @@ type Triple struct {
 	Role Role
 }
 
-// Triple returns this Triple as an rdf triple
-func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
-	var subject, predicate string
-	if !canonical {
-		subject = string(triple.Subject)
-		predicate = string(triple.Predicate)
-	} else {
-		subject = string(triple.SSubject)
-		predicate = string(triple.SPredicate)
-	}
-
-	spo.Subj, err = rdf.NewIRI(subject)
-	if err != nil {
-		return rdf.Triple{}, err
+// NTriple returns this Triple as a line in the N-Triples format.
+func (triple Triple) NTriple(canonical bool) string {
+	subject, predicate, object := triple.Subject, triple.Predicate, triple.Object
+	if canonical {
+		subject, predicate, object = triple.SSubject, triple.SPredicate, triple.SObject
 	}
 
-	spo.Pred, err = rdf.NewIRI(predicate)
-	if err != nil {
-		return rdf.Triple{}, err
-	}
+	var builder strings.Builder
+	writeIRI(&builder, subject)
+	builder.WriteRune(' ')
+	writeIRI(&builder, predicate)
+	builder.WriteRune(' ')
 
 	if triple.Role != Data {
-		var object string
-		if !canonical {
-			object = string(triple.Object)
-		} else {
-			object = string(triple.SObject)
-		}
-
-		spo.Obj, err = rdf.NewIRI(object)
-		if err != nil {
-			return rdf.Triple{}, err
-		}
-
+		writeIRI(&builder, object)
 	} else {
-		var err error
+		builder.WriteRune('"')
+		literalEscaper.WriteString(&builder, string(triple.Datum))
+		builder.WriteRune('"')
 
 		if triple.Language != "" {
-			spo.Obj, err = rdf.NewLangLiteral(string(triple.Datum), string(triple.Language))
-		} else {
-			spo.Obj, err = rdf.NewLiteral(string(triple.Datum))
-		}
-		if err != nil {
-			return rdf.Triple{}, err
+			builder.WriteRune('@')
+			builder.WriteString(string(triple.Language))
 		}
 	}
 
-	return
+	builder.WriteString(" .\n")
+	return builder.String()
+}
+
+// literalEscaper escapes characters that may not occur inside of a literal.
+var literalEscaper = strings.NewReplacer("\\", `\\`, "\"", `\"`, "\n", `\n`, "\r", `\r`)
+
+// writeIRI writes label as an iri, escaping all characters that may not occur inside of one.
+func writeIRI(builder *strings.Builder, label impl.Label) {
+	builder.WriteRune('<')
+	for _, r := range string(label) {
+		if r <= ' ' || strings.ContainsRune("<>\"{}|^`\\", r) {
+			fmt.Fprintf(builder, `\u%04X`, r)
+			continue
+		}
+		builder.WriteRune(r)
+	}
+	builder.WriteRune('>')
 }
 
 // Compare compares this triple to another triple based on it's id
diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..88c2c14 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -1,6 +1,7 @@
 package wisski
 
 import (
+	"errors"
 	"io"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
@@ -20,18 +21,17 @@ type Entity struct {
 	Triples  []igraph.Triple
 }
 
-// WriteTo writes triples representing this entity into w.
+// WriteAllTriples writes triples representing this entity into w.
+//
+// N-Triples and Turtle are the only formats supported.
+// As every N-Triples document is also valid Turtle, names are not abbreviated in either of them.
 func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
-	writer := rdf.NewTripleEncoder(w, f)
-	defer writer.Close()
+	if f != rdf.NTriples && f != rdf.Turtle {
+		return errUnsupportedFormat
+	}
 
 	for _, triple := range entity.AllTriples() {
-		triple, err := triple.Triple(canonical)
-		if err != nil {
-			return err
-		}
-
-		if err := writer.Encode(triple); err != nil {
+		if _, err := io.WriteString(w, triple.NTriple(canonical)); err != nil {
 			return err
 		}
 	}
@@ -39,6 +39,8 @@ func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format)
 	return nil
 }
 
+var errUnsupportedFormat = errors.New("WriteAllTriples: unsupported format")
+
 // AllTriples returns all triples that are related to this entity.
 // Concretely this means:
 //
-- 
2.43.0


From 63884c231f946486b51857cbfe19a3b292b8f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 29/33] fix: ignore blank public addresses

---
 internal/viewer/viewer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..1c7b6fc 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -65,7 +65,12 @@ type RenderFlags struct {
 func (rf RenderFlags) PublicURIS() (public []string) {
 	// add all the public urls
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
-		url, err := url.Parse(strings.TrimSpace(raw))
+		raw = strings.TrimSpace(raw)
+		if raw == "" {
+			continue
+		}
+
+		url, err := url.Parse(raw)
 		if err != nil {
 			rf.Stats.LogError("parse url", err)
 			continue
-- 
2.43.0


From 0a1a71e273a972cd2b22d7d7598ecadf5c50da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 30/33] fix: escape addresses in the content security policy

---
 internal/viewer/viewer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index 1c7b6fc..d02d1b7 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -92,6 +92,9 @@ func (rf RenderFlags) Tipsy() string {
 	return ""
 }
 
+// cspEscaper escapes the characters that separate sources, directives and policies
+var cspEscaper = strings.NewReplacer(" ", "%20", "\t", "%09", "\n", "%0A", "\r", "%0D", "\f", "%0C", ";", "%3B", ",", "%2C")
+
 // CSPHeader returns the CSPHeader to be included in viewer responses
 func (rf RenderFlags) CSPHeader() string {
 	// don't allow anything by default
@@ -105,7 +108,7 @@ func (rf RenderFlags) CSPHeader() string {
 		header += "style-src 'self'; "
 	}
 	if tipsy := rf.Tipsy(); tipsy != "" {
-		header += "frame-src " + tipsy + "; "
+		header += "frame-src " + cspEscaper.Replace(tipsy) + "; "
 	}
 
 	// determine the source for media and images
@@ -113,7 +116,11 @@ func (rf RenderFlags) CSPHeader() string {
 	source := "*"
 
 	if rf.StrictCSP {
-		source = strings.Join(rf.PublicURIS(), " ")
+		sources := rf.PublicURIS()
+		for i, source := range sources {
+			sources[i] = cspEscaper.Replace(source)
+		}
+		source = strings.Join(sources, " ")
 	}
 
 	if rf.ImageRender || rf.HTMLRender {
-- 
2.43.0


From 55a89fa1017e65d2aca91228dfa32c5951f1e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 31/33] fix: insert fields and children of nested entities only
 once

---
 internal/sparkl/exporter/sql.go | 40 +++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index 65e6c7b..339fc44 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -26,6 +26,8 @@ type SQL struct {
 	MaxQueryVar     int    // Maximum number of query variables (overrides BatchSize)
 	dbLock          sync.Mutex
 	batchLock       sync.Mutex
+	inserted        map[string]map[impl.Label]struct{} // entities by table whose fields and children have been inserted
+	insertedLock    sync.Mutex
 	MakeFieldTables bool // create tables for field values (if false, they get joined with "separator")
 }
 
@@ -136,6 +138,7 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	if err := sql.exec("DROP TABLE IF EXISTS "+sql.BundleTable(bundle)+";", nil); err != nil {
 		return err
 	}
+	sql.resetInserted(bundle)
 
 	// create a table with fields for every field, and the child field
 	table := sqlbuilder.CreateTable(sql.BundleTable(bundle)).IfNotExists()
@@ -255,6 +258,10 @@ func (sql *SQL) insert(bundle *pathbuilder.Bundle, parent impl.Label, entities [
 		return err
 	}
 
+	// an entity with several parents has several rows in the bundle table
+	// but its fields and children are to be inserted only once.
+	entities = sql.markInserted(bundle, entities)
+
 	// 2. insert into the field table(s) (if any)
 	for _, field := range bundle.ChildFields {
 		if err := sql.insertFieldTables(bundle, field, entities); err != nil {
@@ -275,6 +282,39 @@ func (sql *SQL) insert(bundle *pathbuilder.Bundle, parent impl.Label, entities [
 	return nil
 }
 
+// resetInserted marks all entities of the given bundle as not yet inserted.
+func (sql *SQL) resetInserted(bundle *pathbuilder.Bundle) {
+	sql.insertedLock.Lock()
+	defer sql.insertedLock.Unlock()
+
+	if sql.inserted == nil {
+		sql.inserted = make(map[string]map[impl.Label]struct{})
+	}
+	sql.inserted[sql.BundleTable(bundle)] = make(map[impl.Label]struct{})
+}
+
+// markInserted marks the given entities as inserted, and returns those which had not been inserted before.
+func (sql *SQL) markInserted(bundle *pathbuilder.Bundle, entities []wisski.Entity) []wisski.Entity {
+	// entities of top-level bundles have no parent
+	if bundle.IsToplevel() {
+		return entities
+	}
+
+	sql.insertedLock.Lock()
+	defer sql.insertedLock.Unlock()
+
+	inserted := sql.inserted[sql.BundleTable(bundle)]
+	fresh := make([]wisski.Entity, 0, len(entities))
+	for _, entity := range entities {
+		if _, ok := inserted[entity.URI]; ok {
+			continue
+		}
+		inserted[entity.URI] = struct{}{}
+		fresh = append(fresh, entity)
+	}
+	return fresh
+}
+
 func (sql *SQL) insertFieldTables(bundle *pathbuilder.Bundle, field pathbuilder.Field, entities []wisski.Entity) error {
 	if !sql.MakeFieldTables {
 		// user requested *not* to make the field tables
-- 
2.43.0


From ef3ec1c8c88e4ebcc7936c5f8d54c3cd8638cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 32/33] fix: don't change progress anymore once it has been
 closed

---
 internal/stats/status.go | 45 ++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index 9d0c074..ad3d561 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -98,6 +98,14 @@ func (st *Stats) StoreIndexStats(stats igraph.Stats) {
 		return
 	}
 
+	st.m.Lock()
+	defer st.m.Unlock()
+
+	// closed in the meantime
+	if st.done.Load() {
+		return
+	}
+
 	st.istats.Set(stats)
 }
 
@@ -173,6 +181,11 @@ func (st *Stats) Close() {
 	if st == nil {
 		return
 	}
+
+	// wait for edits already taking place
+	st.m.Lock()
+	defer st.m.Unlock()
+
 	st.done.Store(true)
 }
 
@@ -250,6 +263,11 @@ func (st *Stats) Start(stage Stage) {
 	st.m.Lock()
 	defer st.m.Unlock()
 
+	// closed in the meantime
+	if st.done.Load() {
+		return
+	}
+
 	// end the previous stage (if any)
 	st.end()
 
@@ -277,6 +295,11 @@ func (st *Stats) End() (prev StageStats) {
 	st.m.Lock()
 	defer st.m.Unlock()
 
+	// closed in the meantime
+	if st.done.Load() {
+		return
+	}
+
 	return st.end()
 }
 
@@ -372,17 +395,21 @@ func (st *Stats) SetCT(current, total int) {
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
+	defer st.m.Unlock()
 
-		// and write out the rewritable
-		if st.rewritable != nil {
-			st.rewritable.Write(progress)
-		}
+	// closed in the meantime
+	if st.done.Load() {
+		return
+	}
+
+	st.current.Current = current
+	st.current.Total = total
+	progress = st.current.Progress()
+
+	// and write out the rewritable
+	if st.rewritable != nil {
+		st.rewritable.Write(progress)
 	}
-	st.m.Unlock()
 }
 
 // Progress returns a string holding progress information on the current stage
-- 
2.43.0


From cdc8af37beba5ce66ab055e16888119d0e0fef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 33/33] fix: wipe whatever is stored in the cache

---
 internal/sparkl/storages/disk.go           | 17 ++++++++++-------
 internal/triplestore/igraph/engine_disk.go |  9 +++------
 internal/triplestore/imap/map_disk.go      |  9 +++------
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 5d6344d..af89925 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -17,20 +17,23 @@ import (
 )
 
 type DiskEngine struct {
-	Path  string
+	Path string
+
+	wipe    sync.Once // removes whatever has been stored before
+	wipeErr error
+
 	count atomic.Int64 // number of storages created
 }
 
 func (de *DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
+	de.wipe.Do(func() { de.wipeErr = os.RemoveAll(de.Path) })
+	if de.wipeErr != nil {
+		return nil, de.wipeErr
+	}
+
 	// identifiers of bundles need not be unique, or valid as the name of a directory.
 	path := filepath.Join(de.Path, strconv.FormatInt(de.count.Add(1), 10))
 
-	if _, err := os.Stat(path); err == nil {
-		if err := os.RemoveAll(path); err != nil {
-			return nil, err
-		}
-	}
-
 	db, err := leveldb.OpenFile(path, nil)
 	if err != nil {
 		return nil, err
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index fb5631a..0055ed2 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -102,12 +102,9 @@ func (de DiskEngine) POSIndex() (ThreeStorage, error) {
 }
 
 func NewDiskHash(path string) (ThreeStorage, error) {
-	// If the path already exists, wipe it
-	_, err := os.Stat(path)
-	if err == nil {
-		if err := os.RemoveAll(path); err != nil {
-			return nil, err
-		}
+	// If something already exists at the path (even a dangling link), wipe it
+	if err := os.RemoveAll(path); err != nil {
+		return nil, err
 	}
 
 	level, err := leveldb.OpenFile(path, nil)
diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index 5844494..9168acc 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -68,12 +68,9 @@ func (de DiskMap) Reverse() (HashMap[impl.ID, impl.Label], error) {
 // If the filepath already exists, it is deleted.
 func NewDiskStorage[Key comparable, Value any](path string) (*DiskStorage[Key, Value], error) {
 
-	// If the path already exists, wipe it
-	_, err := os.Stat(path)
-	if err == nil {
-		if err := os.RemoveAll(path); err != nil {
-			return nil, err
-		}
+	// If something already exists at the path (even a dangling link), wipe it
+	if err := os.RemoveAll(path); err != nil {
+		return nil, err
 	}
 
 	db, err := leveldb.OpenFile(path, nil)
-- 
2.43.0

