From 6d76dfbe83d2a4c90b470e6575fa84d110a81d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 01/38] fix: list the triples of a path in the order of its
 steps

---
 internal/triplestore/igraph/paths.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..080e158 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -182,7 +182,9 @@ func (set *Paths) makePath(elem element) (path Path, err error) {
 	e := &elem
 	for {
 		rNodes = append(rNodes, e.Node)
-		rTriples = append(rTriples, e.Triples...)
+		for i := len(e.Triples) - 1; i >= 0; i-- { // reversed, like the nodes
+			rTriples = append(rTriples, e.Triples[i])
+		}
 		e = e.Parent
 		if e == nil {
 			break
-- 
2.43.0


From d116d383b84badb37304bd0f45bc12cf3b7441d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 02/38] fix: find the parents at the start of the path in disk
 storages

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..7c4013d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex >= 0 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From 0d58c53d59e463ff95e2694a456ba053277f414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 03/38] fix: keep every parent of an entity added more than
 once to a disk storage

---
 internal/sparkl/storages/disk.go   | 33 +++++++++++++++++++++++-------
 internal/sparkl/storages/entity.go |  2 ++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 7c4013d..2cbb727 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -145,10 +145,23 @@ func (ds *Disk) update(uri impl.Label, update func(*sEntity) error) error {
 
 // Add adds an entity to this BundleSlice
 func (ds *Disk) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
-	atomic.AddInt64(&ds.count, 1)
+	// the entity may have been added before, with a path through another parent
+	var earlier [][]impl.Label
+	switch err := ds.get(uri, func(se *sEntity) error {
+		earlier = append(se.Earlier, se.Path)
+		return nil
+	}); err {
+	case nil:
+	case ErrNoEntity:
+		atomic.AddInt64(&ds.count, 1)
+	default:
+		return err
+	}
+
 	return ds.put(func(se *sEntity) error {
 		se.URI = uri
 		se.Path = path
+		se.Earlier = earlier
 		se.Triples = triples
 		se.Fields = make(map[string][]wisski.FieldValue)
 		se.Children = make(map[string][]impl.Label)
@@ -198,25 +211,31 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 		defer it.Release()
 
 		for it.Next() {
-			var uri LabelWithParent
+			var uris []LabelWithParent
 			var err error
 
 			if parentPathIndex >= 0 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
-					uri.Label = se.URI
-					uri.Parent = se.Path[parentPathIndex]
+					for _, path := range append(se.Earlier, se.Path) {
+						uris = append(uris, LabelWithParent{
+							Label:  se.URI,
+							Parent: path[parentPathIndex],
+						})
+					}
 					return nil
 				})
 			} else {
-				uri.Label = impl.Label(it.Key())
+				uris = append(uris, LabelWithParent{Label: impl.Label(it.Key())})
 			}
 
 			if !sender.YieldError(err) {
 				return
 			}
 
-			if !sender.Yield(uri) {
-				return
+			for _, uri := range uris {
+				if !sender.Yield(uri) {
+					return
+				}
 			}
 		}
 
diff --git a/internal/sparkl/storages/entity.go b/internal/sparkl/storages/entity.go
index ea14068..79fe554 100644
--- a/internal/sparkl/storages/entity.go
+++ b/internal/sparkl/storages/entity.go
@@ -29,12 +29,14 @@ type sEntity struct {
 	Children map[string][]impl.Label // child entities
 	URI      impl.Label
 	Path     []impl.Label
+	Earlier  [][]impl.Label // paths of earlier additions of this entity
 	Triples  []igraph.Triple
 }
 
 // Reset resets this stored entity
 func (s *sEntity) Reset() {
 	s.Path = nil
+	s.Earlier = nil
 	s.Children = nil
 	s.Triples = nil
 	s.Fields = nil
-- 
2.43.0


From 60cbd4e2b929d3a1091cc6c97c6a2ca72ad4444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 04/38] fix: list an entity that was added more than once only
 once

---
 internal/sparkl/storages/memory.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/storages/memory.go b/internal/sparkl/storages/memory.go
index df642ba..e524e0a 100644
--- a/internal/sparkl/storages/memory.go
+++ b/internal/sparkl/storages/memory.go
@@ -103,10 +103,12 @@ func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
-		for _, entity := range bs.Entities {
+		for i, entity := range bs.Entities {
 			var parent impl.Label
 			if parentPathIndex > -1 {
 				parent = entity.Path[parentPathIndex]
+			} else if bs.lookup[entity.URI] != i {
+				continue // added again later on
 			}
 
 			if !sender.Yield(LabelWithParent{
@@ -120,7 +122,7 @@ func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 }
 
 func (bs *Memory) Count() (int64, error) {
-	return int64(len(bs.Entities)), nil
+	return int64(len(bs.lookup)), nil
 }
 
 func (bs *Memory) Load(uri impl.Label) (entity wisski.Entity, err error) {
-- 
2.43.0


From 65b5cada43390abebc59a03fe4820705d0877312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 05/38] fix: do not share one error variable between the
 goroutines of all fields

---
 internal/sparkl/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..1201cf3 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -187,7 +187,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From 95496fa3220960c0becc09c7f5dbc39d7963e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 06/38] fix: report a failure to store an entity

---
 internal/sparkl/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1201cf3..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
-- 
2.43.0


From ab1c61cf343885fff4a649776196eddd8914037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 07/38] fix: finalize all bundle storages before Wait returns
 and close all of them

---
 internal/sparkl/context.go | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..e7ef708 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -76,7 +76,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closers      []io.Closer    // what to close when done
+	closersLock  sync.Mutex     // protects closers
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +90,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -103,19 +103,20 @@ func (context *Context) Wait() error {
 	return context.err
 }
 
-// Close closes this context
+// Close closes all storages created by this context.
+// It may only be called after Wait has returned.
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	for _, closer := range context.closers {
+		cErr := closer.Close()
+		if err == nil {
+			err = cErr
 		}
 	}
+	context.closers = nil
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +147,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -212,10 +218,12 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
+
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -224,7 +232,6 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
 					for children.Next() {
@@ -239,10 +246,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 0c5632b7978128815eea1c550215009817f550ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 08/38] Revert the order of the triples of a path

The order within one node is the one the tests of igraph expect.
---
 internal/triplestore/igraph/paths.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 080e158..00248be 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -182,9 +182,7 @@ func (set *Paths) makePath(elem element) (path Path, err error) {
 	e := &elem
 	for {
 		rNodes = append(rNodes, e.Node)
-		for i := len(e.Triples) - 1; i >= 0; i-- { // reversed, like the nodes
-			rTriples = append(rTriples, e.Triples[i])
-		}
+		rTriples = append(rTriples, e.Triples...)
 		e = e.Parent
 		if e == nil {
 			break
-- 
2.43.0


From cf37a4b92f7e7629985c4b61bbe6765a6ffc1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 09/38] fix: release every index storage exactly once

---
 internal/triplestore/igraph/index.go | 25 +++++++++++++------------
 internal/triplestore/imap/imap.go    |  7 +------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..ebd677c 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -3,7 +3,6 @@ package igraph
 
 import (
 	"errors"
-	"io"
 	"sync"
 	"sync/atomic"
 
@@ -112,49 +111,41 @@ func (index *Index) Reset(engine Engine) (err error) {
 		return err
 	}
 
-	var closers []io.Closer
+	// when something goes wrong, release whatever was opened already
 	defer func() {
 		if err != nil {
-			for _, closer := range closers {
-				closer.Close()
-			}
+			index.Close()
 		}
 	}()
 
 	if err := index.labels.Reset(engine); err != nil {
 		return err
 	}
-	closers = append(closers, &index.labels)
 
 	index.language, err = engine.Language()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.language)
 
 	index.data, err = engine.Data()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.data)
 
 	index.inverses, err = engine.Inverses()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.inverses)
 
 	index.psoIndex, err = engine.PSOIndex()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.psoIndex)
 
 	index.posIndex, err = engine.POSIndex()
 	if err != nil {
 		return
 	}
-	closers = append(closers, index.posIndex)
 
 	index.triples, err = engine.Triples()
 	if err != nil {
@@ -573,7 +564,7 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -596,6 +587,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..b78602b 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -3,7 +3,6 @@ package imap
 
 import (
 	"errors"
-	"io"
 	"sync"
 	"sync/atomic"
 
@@ -53,19 +52,15 @@ func (mp *IMap) Reset(engine Map) error {
 	}
 
 	var err error
-	var closers []io.Closer
 
 	mp.forward, err = engine.Forward()
 	if err != nil {
 		return err
 	}
-	closers = append(closers, mp.forward)
 
 	mp.reverse, err = engine.Reverse()
 	if err != nil {
-		for _, closer := range closers {
-			closer.Close()
-		}
+		mp.Close()
 		return err
 	}
 
-- 
2.43.0


From a320dfc8e7972767ddbe605ed7bb2fe60913b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 10/38] fix: report storage errors while indexing

---
 internal/sparkl/index.go                   | 16 ++++++++++++----
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 12 ++++++++----
 internal/triplestore/imap/imap.go          |  6 ++++--
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..2db2df3 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -192,7 +192,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -236,7 +238,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -269,9 +273,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index ebd677c..e41b3cc 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -243,10 +243,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -263,7 +265,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -279,7 +281,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index b78602b..221315f 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -166,8 +166,10 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	err = mp.reverse.Set(ids.Literal, label)
 
 	// return the id
 	return
-- 
2.43.0


From 1b32fb14709a83a3ae0ff8fe7bf54503e1fbe775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 11/38] fix: stop extracting a bundle when a child storage
 cannot be registered

---
 internal/sparkl/context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index e7ef708..f58bc0c 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -215,7 +215,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			err := storage.RegisterChildStorage(bundle.MachineName(), cstorages[i])
-			context.reportError(err)
+			if context.reportError(err) {
+				// entities of this child can't be added, so we can't continue either
+				return
+			}
 		}
 
 		context.childAddWait.Add(1)
-- 
2.43.0


From 071dc8d7fd3fd1b6812e8eb28c94400b921bc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 12/38] fix: report errors while extracting bundles

---
 internal/glass/glass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..1da77d7 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,7 +116,7 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
 	})
-- 
2.43.0


From 7d3069b5254fe336a4915657d38a48120291bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 13/38] fix: keep triples the pathbuilder reaches through
 identities, inverses and datatype properties

---
 internal/sparkl/index.go             | 16 ++++++++------
 internal/triplestore/igraph/index.go | 32 ++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 2db2df3..e706ef6 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// (this needs to know about all identical and inverse predicates)
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
@@ -144,6 +145,9 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	addPathArrayToMasks(pmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
+
+		// the objects of the datatype property may be data, or regular nodes
+		pmask[impl.Label(field.DatatypeProperty)] = struct{}{}
 		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
 	}
 	for _, child := range bundle.ChildBundles {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index e41b3cc..7f70510 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -164,12 +164,36 @@ func (index *Index) Reset(engine Engine) (err error) {
 	return nil
 }
 
-// SetPredicateMask sets the masks for predicates
+// SetPredicateMask sets the masks for predicates.
+// A predicate which is identical to, or the inverse of, a predicate in the mask is not masked.
+//
+// It should be called after any calls to MarkIdentical and MarkInverse.
 func (index *Index) SetPredicateMask(predicates map[impl.Label]struct{}) error {
-	return index.setMask(predicates, &index.pMask)
+	if err := index.setMask(predicates, &index.pMask); err != nil {
+		return err
+	}
+
+	// triples with an inverse predicate also add one for the predicate itself
+	var inverses []impl.ID
+	for id := range index.pMask {
+		inverse, ok, err := index.inverses.Get(id)
+		if err != nil {
+			return err
+		}
+		if ok {
+			inverses = append(inverses, inverse)
+		}
+	}
+	for _, id := range inverses {
+		index.pMask[id] = struct{}{}
+	}
+	return nil
 }
 
-// SetDataMask sets the masks for data
+// SetDataMask sets the masks for data.
+// A predicate which is identical to a predicate in the mask is not masked.
+//
+// It should be called after any calls to MarkIdentical.
 func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.dMask)
 }
@@ -205,7 +229,7 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
 	return ids, ok, nil
 }
 
-- 
2.43.0


From 8ae835a6e6adc7a1b9dfa5a343be8c239f87d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 14/38] fix: render an empty datum as a literal

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From db8bd209792e5bda723ab908e6a98cd7235a26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 15/38] fix: report an error writing the last triples of an
 entity

---
 internal/wisski/entity.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..aaa3960 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -21,9 +21,14 @@ type Entity struct {
 }
 
 // WriteTo writes triples representing this entity into w.
-func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
+func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) (err error) {
 	writer := rdf.NewTripleEncoder(w, f)
-	defer writer.Close()
+	defer func() {
+		// closing writes whatever is still buffered
+		if e := writer.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	for _, triple := range entity.AllTriples() {
 		triple, err := triple.Triple(canonical)
-- 
2.43.0


From 5882e0051fc458b8ef878d3e3b7c4e0194a69e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 16/38] fix: write the progress of a stage while holding the
 lock

---
 internal/stats/status.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..a5b534c 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -361,22 +361,18 @@ func (st *Stats) SetCT(current, total int) {
 		return
 	}
 
-	// update the process and make a copy
-	var progress string
-
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
-	}
-	st.m.Unlock()
+	defer st.m.Unlock()
+
+	// update the progress
+	st.current.Current = current
+	st.current.Total = total
 
 	// and write out the rewritable
 	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		st.rewritable.Write(st.current.Progress())
 	}
 }
 
-- 
2.43.0


From 894d493773834e32358bfb1bcc989a1b2f133b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 17/38] fix: count only the bytes that were written

---
 pkg/progress/progress.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..a753876 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -33,9 +33,10 @@ type Writer struct {
 }
 
 func (cw *Writer) Write(bytes []byte) (int, error) {
-	cw.Bytes += int64(len(bytes))
+	count, err := cw.Writer.Write(bytes)
+	cw.Bytes += int64(count)
 	cw.Rewritable.Write(fmt.Sprintf("Wrote %s", humanize.Bytes(uint64(cw.Bytes))))
-	return cw.Writer.Write(bytes)
+	return count, err
 }
 
 // DefaultFlushInterval is a reasonable default flush interval
-- 
2.43.0


From 5633d7b28376146d723f4e5e21a040c7648e6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 18/38] fix: compare the count and total of a progress as
 numbers

---
 pkg/progress/progress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index a753876..d7f7326 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -94,7 +94,7 @@ func (progress *Progress) Set(prefix string, count, total int) {
 		countS = strings.Repeat(" ", len(totalS)-len(countS)) + countS
 	}
 
-	if countS < totalS {
+	if count < total {
 		progress.Rewritable.Write(fmt.Sprintf("%s: %s/%s", prefix, countS, totalS))
 	} else {
 		progress.Rewritable.Write(fmt.Sprintf("%s: %s", prefix, countS))
-- 
2.43.0


From 11ea57bc0c53b831f824ffc157651f34bd76aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 19/38] fix: find the input files in a directory whose name
 contains pattern characters

---
 load.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..bb82556 100644
--- a/load.go
+++ b/load.go
@@ -40,7 +40,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xmls, err := findExt(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -49,12 +49,12 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 		}
 		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nqs, err := findExt(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
 		if len(nqs) != 1 {
-			return "", "", "", fmt.Errorf("need exactly one '*.xml' in %q, but got %d", base, len(nqs))
+			return "", "", "", fmt.Errorf("need exactly one '*.nq' in %q, but got %d", base, len(nqs))
 		}
 		nq = nqs[0]
 	}
@@ -73,6 +73,20 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// findExt finds all files directly inside the given directory with the given extension.
+func findExt(base, ext string) (paths []string, err error) {
+	entries, err := os.ReadDir(base)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if filepath.Ext(entry.Name()) == ext {
+			paths = append(paths, filepath.Join(base, entry.Name()))
+		}
+	}
+	return paths, nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 04ac84e4fadb4d9785b5f102bd2605f62edc97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 20/38] fix: keep the storages of bundles apart and inside the
 cache directory

---
 internal/sparkl/storages/disk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 2cbb727..2720f54 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,7 @@
 package storages
 
 import (
+	"net/url"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +21,8 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	// the name must be unique and must not lead outside of the given path
+	path := filepath.Join(de.Path, url.PathEscape(bundle.MachineName())+".leveldb")
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
-- 
2.43.0


From 157f5712d7a1ba826547424aaad03c3d372b6d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 21/38] fix: make exports encodable although the flags refer to
 statistics

---
 internal/stats/status.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index a5b534c..75f317d 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -56,6 +56,12 @@ func NewStats(w io.Writer) *Stats {
 	}
 }
 
+// GobEncode encodes nothing: statistics belong to the running process and are not stored with the values that refer to them.
+func (st *Stats) GobEncode() ([]byte, error) { return nil, nil }
+
+// GobDecode decodes what GobEncode encoded, that is nothing.
+func (st *Stats) GobDecode([]byte) error { return nil }
+
 // Rewritable returns the rewritable associated with this status.
 // It is automatically closed at the end of each stage
 func (st *Stats) Rewritable() *progress.Rewritable {
-- 
2.43.0


From 96d8a3d39712555fd7295c15c50273ae8bba64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 22/38] fix: finish the gzip stream of an export and report
 when it cannot be written

---
 internal/glass/glass.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 1da77d7..97cbdbf 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -163,14 +163,16 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		// closing may be the first to notice that something was not written
+		err = errors.Join(err, f.Close())
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -181,6 +183,8 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write out the buffered data and the gzip trailer
+		err = errors.Join(err, writer.Close())
 		if err != nil {
 			st.LogError("encode export", err)
 		}
-- 
2.43.0


From d3b0f9fe607e05636b7792a9881bacfe41e978e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 23/38] fix: export and import without statistics

---
 internal/glass/glass.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 97cbdbf..be12a43 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -177,7 +178,7 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
 			Writer:     writer,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
@@ -192,6 +193,14 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	})
 }
 
+// rewritable returns a copy of the rewritable of st, or one that discards everything if there is none.
+func rewritable(st *stats.Stats) progress.Rewritable {
+	if rw := st.Rewritable(); rw != nil {
+		return *rw
+	}
+	return progress.Rewritable{Writer: io.Discard}
+}
+
 var errInvalidVersion = errors.New("Glass Export: Invalid version")
 
 // Import loads a glass from disk
@@ -214,7 +223,7 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 	err = st.DoStage(stats.StageImportIndex, func() error {
 		counter := &progress.Reader{
 			Reader:     reader,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
 		counter.Flush(true)
-- 
2.43.0


From 93a23ede6c85389cfc858b56101832d3398c3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 24/38] fix: drop the previous contents of a map that is
 decoded into

---
 internal/triplestore/imap/memory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/triplestore/imap/memory.go b/internal/triplestore/imap/memory.go
index d3908b3..5ebd8e4 100644
--- a/internal/triplestore/imap/memory.go
+++ b/internal/triplestore/imap/memory.go
@@ -19,8 +19,13 @@ func (m Memory[Key, Value]) GobEncode() ([]byte, error) {
 }
 
 func (m *Memory[Key, Value]) GobDecode(src []byte) error {
-	reader := bytes.NewReader(src)
-	return gob.NewDecoder(reader).Decode(&m.mp)
+	// decode into a new map, as gob adds to an existing one
+	var mp map[Key]Value
+	if err := gob.NewDecoder(bytes.NewReader(src)).Decode(&mp); err != nil {
+		return err
+	}
+	m.mp = mp
+	return nil
 }
 
 func (m Memory[Key, Value]) IsNil() bool {
-- 
2.43.0


From e2897928427f889ddf2c0402d8371b0489c81a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 25/38] fix: escape URIs in redirects as query values

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..c231aa2 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -403,7 +403,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -427,7 +427,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From 1a46c756e6455359f5ae0e946acdd3dfcbbdfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 26/38] fix: link to the first page from the page after it

---
 internal/viewer/html.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index c231aa2..d8e4001 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -305,9 +305,8 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	}
 
 	// add the previous link if there are previous pages
-	prev := skip - limit
-	if prev > 0 {
-		context.PrevLink = pageLink(prev)
+	if skip > 0 {
+		context.PrevLink = pageLink(skip - limit)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
-- 
2.43.0


From a98386b8ba620b2cb318d75940d521dbb528dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 27/38] fix: send nothing more after the message that data is
 still being loaded

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From 2f28365b357f69904ad0029a4b5a04c0c1e619e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 28/38] fix: escape the URLs in the content security policy

---
 internal/viewer/viewer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..eac048e 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -87,6 +87,9 @@ func (rf RenderFlags) Tipsy() string {
 	return ""
 }
 
+// cspEscaper escapes characters that would end a source or a directive of a content security policy
+var cspEscaper = strings.NewReplacer(";", "%3B", ",", "%2C", " ", "%20", "\t", "%09", "\n", "%0A", "\f", "%0C", "\r", "%0D")
+
 // CSPHeader returns the CSPHeader to be included in viewer responses
 func (rf RenderFlags) CSPHeader() string {
 	// don't allow anything by default
@@ -100,7 +103,7 @@ func (rf RenderFlags) CSPHeader() string {
 		header += "style-src 'self'; "
 	}
 	if tipsy := rf.Tipsy(); tipsy != "" {
-		header += "frame-src " + tipsy + "; "
+		header += "frame-src " + cspEscaper.Replace(tipsy) + "; "
 	}
 
 	// determine the source for media and images
@@ -108,7 +111,11 @@ func (rf RenderFlags) CSPHeader() string {
 	source := "*"
 
 	if rf.StrictCSP {
-		source = strings.Join(rf.PublicURIS(), " ")
+		uris := rf.PublicURIS()
+		for i, uri := range uris {
+			uris[i] = cspEscaper.Replace(uri)
+		}
+		source = strings.Join(uris, " ")
 	}
 
 	if rf.ImageRender || rf.HTMLRender {
-- 
2.43.0


From 1f5b62d2a072e4d04507f8228fad7ee97362b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 29/38] fix: ignore empty items in the list of public URLs

---
 internal/viewer/viewer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index eac048e..118640a 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -70,6 +70,9 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 			rf.Stats.LogError("parse url", err)
 			continue
 		}
+		if url.Host == "" && url.Path == "" {
+			continue // does not name any place
+		}
 
 		url.Scheme = "http"
 		public = append(public, url.String())
-- 
2.43.0


From b68fd8eff601295ddf40da10c0b59fc5f23bb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 30/38] fix: remove user information from links that stay on
 this server

---
 internal/viewer/html.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index d8e4001..efbac64 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -123,6 +123,7 @@ func (cg contextGlobal) ReplaceURL(u string) string {
 				continue
 			}
 			url.Scheme = ""
+			url.User = nil
 			url.Host = ""
 			url.OmitHost = true
 			return url.String()
-- 
2.43.0


From 9b4bd15b284e44431282b5f66f6cf31c7c6bcc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 31/38] fix: keep the text of typed literals

---
 internal/sparkl/index_source.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..732993b 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -96,12 +96,14 @@ func (qs *QuadSource) Next() Token {
 			var language impl.Language
 			var datum impl.Datum
 
-			// if this is a language string
-			ldatum, ok := value.Object.(quad.LangString)
-			if ok {
-				language = impl.Language(ldatum.Lang)
-				datum = impl.Datum(ldatum.Native().(string))
-			} else {
+			switch literal := value.Object.(type) {
+			case quad.LangString:
+				language = impl.Language(literal.Lang)
+				datum = impl.Datum(literal.Native().(string))
+			case quad.TypedString:
+				// keep the text as it is, whatever the type
+				datum = impl.Datum(literal.Value)
+			default:
 				datum = impl.Datum(fmt.Sprint(value.Object.Native()))
 			}
 
-- 
2.43.0


From e1ff0148fa693b24b6740694d561c9a40dd21aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 32/38] fix: drop the tables of fields when exporting to SQL
 again

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From fc07bdad158656fe98db1f7d95096ef6a48bd76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 33/38] fix: export to MySQL with -mysql

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..97266d9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 7caff6cfdea8dd598663466383689c9781be2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 34/38] fix: refuse more than one kind of export

---
 cmd/n2j/n2j.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 97266d9..47e817c 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -21,7 +21,7 @@ import (
 
 // cspell:words nquads pathbuilder
 
-var errBothSqliteAndMysql = errors.New("both -sqlite and -mysql were given")
+var errBothSqliteAndMysql = errors.New("more than one of -sqlite, -mysql and -csv were given")
 
 func main() {
 	// create a new status
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errBothSqliteAndMysql)
 	}
 
 	// find the paths
-- 
2.43.0


From 59c8084b88a2100f9e930bb861e1cdc364b06220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 35/38] fix: report errors when writing JSON

---
 cmd/n2j/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
-- 
2.43.0


From a5847d9964f396dd06d67f41c80c71e6153bbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 36/38] fix: report errors when writing CSV files

---
 cmd/n2j/sqlite.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..24f8e45 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -89,17 +89,26 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (e error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if err := file.Close(); e == nil {
+			e = err
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		writer.Flush()
+		if err := writer.Error(); e == nil {
+			e = err
+		}
+	}()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
-- 
2.43.0


From bf3c7a5475ab6548a76e6e2620cccf2beb811a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 37/38] fix: give the columns of fields a type when exporting
 to SQL

---
 internal/sparkl/exporter/sql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index 65e6c7b..4870039 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -145,7 +145,7 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	}
 	for _, field := range bundle.ChildFields {
 		if !sql.MakeFieldTables {
-			table.Define(sql.FieldColumn(field))
+			table.Define(sql.FieldColumn(field), "TEXT")
 		} else {
 			if err := sql.CreateFieldTable(bundle, field); err != nil {
 				return err
-- 
2.43.0


From 9e8b4d6f429d38a56dce7b6ceeb381c98d70def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 38/38] fix: do not serve requests when only exporting

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0

