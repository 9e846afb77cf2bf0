From 6d23696c5fd6a7086aa83b63394e28494331f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 01/52] fix: return the parent of entities from disk storage
 for parent path index 0

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..d0f5f15 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex > -1 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From e7d40f1a09ead4a03f01a7928b9badac0fd3e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 02/52] fix: report errors when adding entities to a bundle
 storage

---
 internal/sparkl/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..7c7bbca 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
-- 
2.43.0


From 288642db034000ad93e8d6677574743b2f8d4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 03/52] fix: do not share an error variable between concurrent
 field extractions

---
 internal/sparkl/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 7c7bbca..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -189,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From 3d27c72d2e57eaec93c9234a63e5321cdeb5528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 04/52] fix: do not use a child storage that could not be
 registered

---
 internal/sparkl/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..010e64d 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -209,7 +209,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			err := storage.RegisterChildStorage(bundle.MachineName(), cstorages[i])
-			context.reportError(err)
+			if context.reportError(err) {
+				return
+			}
 		}
 
 		context.childAddWait.Add(len(cstorages))
-- 
2.43.0


From 9e76f5c71f89b11508754a9a8494c6ee8d289272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 05/52] fix: finalize every bundle storage before extraction
 ends, and close all of them

---
 internal/sparkl/context.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 010e64d..1294925 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -76,7 +76,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closers      []io.Closer    // what to close when done
+	closersLock  sync.Mutex     // protects closers
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +90,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -105,17 +105,17 @@ func (context *Context) Wait() error {
 
 // Close closes this context
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	for _, closer := range context.closers {
+		cErr := closer.Close()
+		if err == nil {
+			err = cErr
 		}
 	}
+	context.closers = nil
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +146,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -214,10 +219,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -226,9 +232,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
+					defer children.Close()
 					for children.Next() {
 						child := children.Datum()
 						err := storage.AddChild(child.Parent, bundle.MachineName(), child.Label)
@@ -241,10 +247,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 0eebc58160928234b8291a5b62858532677d023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 06/52] fix: report errors when closing bundle storages

---
 internal/sparkl/pathbuilder.go   | 16 +++++++++++++---
 internal/sparkl/storages/disk.go |  3 ++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/pathbuilder.go b/internal/sparkl/pathbuilder.go
index 27e8e80..24bc548 100644
--- a/internal/sparkl/pathbuilder.go
+++ b/internal/sparkl/pathbuilder.go
@@ -15,12 +15,17 @@ import (
 
 // Export loads all top-level paths from the given path-builder from the index into the given engine.
 // Afterwards it is exported into the given exporter.
-func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) error {
+func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) (e error) {
 	bundles := pb.Bundles()
 
 	storages, closer, err := StoreBundles(bundles, index, engine, stats)
 	if closer != nil {
-		defer closer()
+		defer func() {
+			cErr := closer()
+			if e == nil {
+				e = cErr
+			}
+		}()
 	}
 	if err != nil {
 		return err
@@ -38,7 +43,12 @@ func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.Bu
 			err := func() (e error) {
 				storage := storages[i]
 				bundle := bundles[i]
-				defer storage.Close()
+				defer func() {
+					err := storage.Close()
+					if e == nil {
+						e = err
+					}
+				}()
 
 				// count the number of elements
 				count, err := storage.Count()
diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index d0f5f15..19be033 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -254,9 +254,10 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 
 func (ds *Disk) Close() error {
 	if ds.DB != nil {
-		ds.DB.Close()
+		err := ds.DB.Close()
 		ds.DB = nil
 		ds.childStorages = nil
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From abb7a3e7123922323a55e0d7dc0b86de7e5cf13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 07/52] fix: do not mask out predicates identical or inverse to
 those of the pathbuilder

---
 internal/sparkl/index.go             | 13 +++++++------
 internal/triplestore/igraph/index.go | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..ffff525 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this needs to know about all "same as" and "inverse" predicates
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..6ea49a1 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -173,12 +173,18 @@ func (index *Index) Reset(engine Engine) (err error) {
 	return nil
 }
 
-// SetPredicateMask sets the masks for predicates
+// SetPredicateMask sets the masks for predicates.
+// Predicates identical to, or the inverse of, a predicate in the mask are also part of it.
+//
+// It must be called after any calls to MarkIdentical and MarkInverse.
 func (index *Index) SetPredicateMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.pMask)
 }
 
-// SetDataMask sets the masks for data
+// SetDataMask sets the masks for data.
+// Predicates identical to a predicate in the mask are also part of it.
+//
+// It must be called after any calls to MarkIdentical.
 func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.dMask)
 }
@@ -191,6 +197,14 @@ func (index *Index) setMask(predicates map[impl.Label]struct{}, dest *map[impl.I
 			return err
 		}
 		mask[ids.Canonical] = struct{}{}
+
+		inverse, ok, err := index.inverses.Get(ids.Canonical)
+		if err != nil {
+			return err
+		}
+		if ok {
+			mask[inverse] = struct{}{}
+		}
 	}
 
 	*dest = mask
@@ -214,7 +228,7 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
 	return ids, ok, nil
 }
 
-- 
2.43.0


From 53c03e671454ecf06cbd7ac9d826228a428477a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 08/52] fix: do not mask out links used as the value of a field

---
 internal/sparkl/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index ffff525..ab07e31 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -146,6 +146,7 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
 		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
+		pmask[impl.Label(field.DatatypeProperty)] = struct{}{} // the value may also be a link
 	}
 	for _, child := range bundle.ChildBundles {
 		addBundleToMasks(pmask, dmask, child)
-- 
2.43.0


From 08b555c55fc15e1fddbc536ea07ae93ccc3880fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 09/52] fix: do not mask out values of fields whose path ends
 with a predicate

---
 internal/sparkl/index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index ab07e31..41dcba0 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -145,6 +145,9 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	addPathArrayToMasks(pmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
+		if n := len(field.PathArray); n > 0 && n%2 == 0 { // path ends with a predicate
+			dmask[impl.Label(field.PathArray[n-1])] = struct{}{}
+		}
 		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
 		pmask[impl.Label(field.DatatypeProperty)] = struct{}{} // the value may also be a link
 	}
-- 
2.43.0


From d848fd79e7b61107fcdad8c6c73314a1fccceebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 10/52] fix: keep the exact text of typed and language literals

---
 internal/sparkl/index_source.go | 122 ++++++++++++++++++++++++++------
 1 file changed, 100 insertions(+), 22 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..8e2108f 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -1,8 +1,11 @@
 package sparkl
 
 import (
+	"bufio"
+	"bytes"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
 	"github.com/cayleygraph/quad"
@@ -51,30 +54,27 @@ type Token struct {
 // QuadSource reads triples from a quad file
 type QuadSource struct {
 	Reader io.ReadSeeker
-	reader *nquads.Reader
+	reader *bufio.Reader
 }
 
 func (qs *QuadSource) Open() error {
 	// if we previously had a reader
 	// then we need to reset the state
 	if qs.reader != nil {
-		if err := qs.reader.Close(); err != nil {
-			return err
-		}
 		_, err := qs.Reader.Seek(0, io.SeekStart)
 		if err != nil {
 			return err
 		}
 	}
 
-	qs.reader = nquads.NewReader(qs.Reader, true)
+	qs.reader = bufio.NewReader(qs.Reader)
 	return nil
 }
 
 // Next reads the next token from the QuadSource
 func (qs *QuadSource) Next() Token {
 	for {
-		value, err := qs.reader.ReadQuad()
+		value, language, err := qs.readQuad()
 		if err != nil {
 			return Token{Err: err}
 		}
@@ -93,23 +93,11 @@ func (qs *QuadSource) Next() Token {
 				Object:    oI,
 			}
 		} else {
-			var language impl.Language
-			var datum impl.Datum
-
-			// if this is a language string
-			ldatum, ok := value.Object.(quad.LangString)
-			if ok {
-				language = impl.Language(ldatum.Lang)
-				datum = impl.Datum(ldatum.Native().(string))
-			} else {
-				datum = impl.Datum(fmt.Sprint(value.Object.Native()))
-			}
-
 			return Token{
 				Subject:   sI,
 				Predicate: pI,
 				HasDatum:  true,
-				Datum:     datum,
+				Datum:     impl.Datum(fmt.Sprint(value.Object.Native())),
 				Language:  language,
 			}
 		}
@@ -117,12 +105,102 @@ func (qs *QuadSource) Next() Token {
 }
 
 func (qs *QuadSource) Close() error {
-	if qs.reader != nil {
-		return qs.reader.Close()
-	}
 	return nil
 }
 
+// readQuad reads the next valid quad from the underlying reader.
+//
+// A literal object is returned as a plain string containing its exact text.
+// Its language is returned separately, and its datatype is not returned at all.
+func (qs *QuadSource) readQuad() (value quad.Quad, language impl.Language, err error) {
+	for {
+		line, err := qs.readStatement()
+		if err != nil {
+			return value, "", err
+		}
+
+		value, err = nquads.ParseRaw(line)
+		if err != nil {
+			return value, "", fmt.Errorf("failed to parse %q: %w", line, err)
+		}
+
+		// the parser looks for a language or datatype inside of the text of the literal.
+		// so parse the text again on its own.
+		if start, end, ok := literalSuffix(line); ok {
+			if line[start] == '@' {
+				language = impl.Language(line[start+1 : end])
+			}
+			value, err = nquads.ParseRaw(line[:start] + " " + line[end:])
+			if err != nil {
+				return value, "", fmt.Errorf("failed to parse %q: %w", line, err)
+			}
+		}
+
+		if value.IsValid() {
+			return value, language, nil
+		}
+		language = ""
+	}
+}
+
+// readStatement reads the next line that is neither empty nor a comment.
+func (qs *QuadSource) readStatement() (string, error) {
+	var line []byte
+	for {
+		chunk, prefix, err := qs.reader.ReadLine()
+		if err != nil {
+			return "", err
+		}
+		line = append(line, chunk...)
+		if prefix {
+			continue
+		}
+		if line = bytes.TrimSpace(line); len(line) != 0 && line[0] != '#' {
+			return string(line), nil
+		}
+		line = line[:0]
+	}
+}
+
+// literalSuffix finds the language or datatype of the literal in line.
+// If there is no literal, or it has neither, returns ok = false.
+//
+// line must be a valid statement.
+func literalSuffix(line string) (start, end int, ok bool) {
+	// neither the subject nor the predicate may contain a quote
+	start = strings.IndexByte(line, '"')
+	if start < 0 {
+		return 0, 0, false
+	}
+
+	// find the closing quote
+	for start++; start < len(line) && line[start] != '"'; start++ {
+		if line[start] == '\\' {
+			start++
+		}
+	}
+	start++
+
+	switch {
+	case start >= len(line):
+		return 0, 0, false
+	case line[start] == '@':
+		end = start + 1
+		for end < len(line) && (line[end] == '-' || line[end] >= '0' && line[end] <= '9' || line[end] >= 'A' && line[end] <= 'Z' || line[end] >= 'a' && line[end] <= 'z') {
+			end++
+		}
+		return start, end, true
+	case line[start] == '^':
+		size := strings.IndexByte(line[start:], '>')
+		if size < 0 {
+			return 0, 0, false
+		}
+		return start, start + size + 1, true
+	default:
+		return 0, 0, false
+	}
+}
+
 func asURILike(value quad.Value) (uri impl.Label, ok bool) {
 	switch datum := value.(type) {
 	case quad.IRI:
-- 
2.43.0


From 38b11f1e00978c2f6b4ea100ace04a389abf479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 11/52] fix: drop existing field tables before exporting to sql

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From 5794a552c5a29d03cd7dab9e3636ed2a254fa233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 12/52] fix: do not treat the -mysql flag of n2j as -sqlite

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..97266d9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 1b6b2dbf346637e7867fb3a2803e90f4f6fb194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 13/52] fix: exit when conflicting outputs are passed to n2j

---
 cmd/n2j/n2j.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 97266d9..0353ae9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -21,7 +21,7 @@ import (
 
 // cspell:words nquads pathbuilder
 
-var errBothSqliteAndMysql = errors.New("both -sqlite and -mysql were given")
+var errMultipleOutputs = errors.New("more than one of -sqlite, -mysql and -csv were given")
 
 func main() {
 	// create a new status
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errMultipleOutputs)
 	}
 
 	// find the paths
-- 
2.43.0


From a9787051cca6dd666757276483ed1d6ea6e07526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 14/52] fix: report errors when writing json in n2j

---
 cmd/n2j/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
-- 
2.43.0


From cfbf2d022b09f429f928ee28550d96f3fa44d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 15/52] fix: give field columns of sql exports a type

---
 internal/sparkl/exporter/sql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index 65e6c7b..4870039 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -145,7 +145,7 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	}
 	for _, field := range bundle.ChildFields {
 		if !sql.MakeFieldTables {
-			table.Define(sql.FieldColumn(field))
+			table.Define(sql.FieldColumn(field), "TEXT")
 		} else {
 			if err := sql.CreateFieldTable(bundle, field); err != nil {
 				return err
-- 
2.43.0


From 1e19ee278ae7d4c7048a76f71f087250702993e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 16/52] fix: report errors when writing csv in n2j

---
 cmd/n2j/sqlite.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..3c30475 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -89,17 +89,20 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +150,8 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// write out everything that is still buffered
+	writer.Flush()
+	return writer.Error()
 }
-- 
2.43.0


From 9b3a2782107ddea827be353e699fef0c58b0a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 17/52] fix: do not answer api requests with data while it is
 still being loaded

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From ef0c463e3752ba601c06ba8a8fa4b0cba79c297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 18/52] fix: report errors when extracting bundles

---
 internal/glass/glass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..1da77d7 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,7 +116,7 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
 	})
-- 
2.43.0


From 78f66f41438d4700dd741a130ce798611d52ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 19/52] fix: write exports completely, and report errors when
 closing them

---
 internal/glass/glass.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 1da77d7..e155f96 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -163,14 +163,18 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if e := f.Close(); e != nil && err == nil {
+			st.LogError("close export", e)
+			err = e
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -181,6 +185,11 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write out everything that is still buffered, and the checksum
+		if e := writer.Close(); err == nil {
+			err = e
+		}
+
 		if err != nil {
 			st.LogError("encode export", err)
 		}
-- 
2.43.0


From 7b59eaa3f2e1844c843a955aeae264cf94e43f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 20/52] fix: do not start a server when exporting

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From 3c392c7066413cd35a8a0ec4fbafa0c3d520f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 21/52] fix: do not try to export the stats of render flags

---
 internal/glass/glass.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index e155f96..b768624 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -32,6 +32,16 @@ type Glass struct {
 	Flags       viewer.RenderFlags
 }
 
+// exportedFlags are the parts of [viewer.RenderFlags] that are included in an export.
+type exportedFlags struct {
+	PublicURL   string
+	TipsyURL    string
+	Predicates  sparkl.Predicates
+	StrictCSP   bool
+	HTMLRender  bool
+	ImageRender bool
+}
+
 func (glass *Glass) Close() error {
 	return glass.Cache.Close()
 }
@@ -48,7 +58,14 @@ func (glass *Glass) EncodeTo(encoder *gob.Encoder) error {
 	for _, obj := range []any{
 		GlassVersion,
 		pbxml,
-		glass.Flags,
+		exportedFlags{
+			PublicURL:   glass.Flags.PublicURL,
+			TipsyURL:    glass.Flags.TipsyURL,
+			Predicates:  glass.Flags.Predicates,
+			StrictCSP:   glass.Flags.StrictCSP,
+			HTMLRender:  glass.Flags.HTMLRender,
+			ImageRender: glass.Flags.ImageRender,
+		},
 	} {
 		if err := sgob.Encode(encoder, obj); err != nil {
 			return err
@@ -63,16 +80,26 @@ func (glass *Glass) EncodeTo(encoder *gob.Encoder) error {
 func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 	var version int
 	var xml []byte
+	var flags exportedFlags
 	for _, obj := range []any{
 		&version,
 		&xml,
-		&glass.Flags,
+		&flags,
 	} {
 		if err := sgob.Decode(decoder, obj); err != nil {
 			return err
 		}
 	}
 
+	glass.Flags = viewer.RenderFlags{
+		PublicURL:   flags.PublicURL,
+		TipsyURL:    flags.TipsyURL,
+		Predicates:  flags.Predicates,
+		StrictCSP:   flags.StrictCSP,
+		HTMLRender:  flags.HTMLRender,
+		ImageRender: flags.ImageRender,
+	}
+
 	// decode the xml again
 	glass.Pathbuilder, err = pbxml.Unmarshal(xml)
 	if err != nil {
-- 
2.43.0


From a32d19de596431348647617ad6219c201180a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 22/52] fix: allow importing and exporting without an output
 for the progress

---
 internal/glass/glass.go  | 12 ++++++++++--
 pkg/progress/progress.go |  9 ++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index b768624..d1e1a5a 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -206,7 +206,7 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
 			Writer:     writer,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
@@ -224,6 +224,14 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	})
 }
 
+// rewritable returns a copy of the rewritable of st, if any
+func rewritable(st *stats.Stats) (rw progress.Rewritable) {
+	if r := st.Rewritable(); r != nil {
+		rw = *r
+	}
+	return rw
+}
+
 var errInvalidVersion = errors.New("Glass Export: Invalid version")
 
 // Import loads a glass from disk
@@ -246,7 +254,7 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 	err = st.DoStage(stats.StageImportIndex, func() error {
 		counter := &progress.Reader{
 			Reader:     reader,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
 		counter.Flush(true)
diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..30f615f 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -59,6 +59,11 @@ func (rw *Rewritable) Flush(force bool) {
 		return
 	}
 
+	// without an output there is nothing to do
+	if rw.Writer == nil {
+		return
+	}
+
 	// determine the longest string we ever flushed to the output
 	if len(rw.content) >= rw.longestContent {
 		rw.longestContent = len(rw.content)
@@ -77,7 +82,9 @@ func (rw *Rewritable) Flush(force bool) {
 func (rw *Rewritable) Close() {
 	rw.content = ""
 	rw.Flush(true)
-	rw.Writer.Write([]byte("\r"))
+	if rw.Writer != nil {
+		rw.Writer.Write([]byte("\r"))
+	}
 
 	rw.longestContent = 0
 }
-- 
2.43.0


From b85a1a68731d3eaae8fd1661071c31b027a8c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 23/52] fix: refuse damaged exports

---
 internal/glass/glass.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index d1e1a5a..d3cc7ca 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -232,7 +233,10 @@ func rewritable(st *stats.Stats) (rw progress.Rewritable) {
 	return rw
 }
 
-var errInvalidVersion = errors.New("Glass Export: Invalid version")
+var (
+	errInvalidVersion = errors.New("Glass Export: Invalid version")
+	errTrailingData   = errors.New("Glass Export: Unexpected data at the end")
+)
 
 // Import loads a glass from disk
 func Import(path string, st *stats.Stats) (drincw Glass, err error) {
@@ -256,7 +260,17 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Reader:     reader,
 			Rewritable: rewritable(st),
 		}
-		err = drincw.DecodeFrom(gob.NewDecoder(counter))
+		decoder := gob.NewDecoder(counter)
+		err = drincw.DecodeFrom(decoder)
+
+		// read until the end, so that a damaged or incomplete file is noticed
+		if err == nil {
+			if err = decoder.Decode(nil); err == io.EOF {
+				err = nil
+			} else if err == nil {
+				err = errTrailingData
+			}
+		}
 		counter.Flush(true)
 		if err != nil {
 			st.LogError("decode export", err)
-- 
2.43.0


From 78b7cba246bd8d8ae47327af5ccad846d49613e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 24/52] fix: do not trust the number of elements in encoded
 data

---
 pkg/sgob/sgob.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index 83ca38f..2303dd9 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -55,6 +55,18 @@ func DecodeValue(decoder *gob.Decoder, value reflect.Value) error {
 	}
 }
 
+// maxInitialSize is the maximum number of elements to allocate space for before having read any of them.
+const maxInitialSize = 1 << 16
+
+// initialSize returns the number of elements to initially allocate space for when count elements are to be decoded.
+// The count may be wrong when the data is damaged.
+func initialSize(count uint64) int {
+	if count > maxInitialSize {
+		return maxInitialSize
+	}
+	return int(count)
+}
+
 func encodeMap(encoder *gob.Encoder, obj reflect.Value) error {
 	// encode the object
 	count := uint64(obj.Len())
@@ -85,9 +97,9 @@ func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	mp := reflect.MakeMapWithSize(tp, int(count))
+	mp := reflect.MakeMapWithSize(tp, initialSize(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		key := reflect.New(tp.Key())
 		value := reflect.New(tp.Elem())
 
@@ -130,14 +142,14 @@ func decodeSlice(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	slice := reflect.MakeSlice(tp, int(count), int(count))
+	slice := reflect.MakeSlice(tp, 0, initialSize(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		value := reflect.New(tp.Elem())
 		if err := DecodeValue(decoder, value); err != nil {
 			return err
 		}
-		slice.Index(i).Set(value.Elem())
+		slice = reflect.Append(slice, value.Elem())
 	}
 
 	obj.Elem().Set(slice)
-- 
2.43.0


From 7649f6fb5ce666443cf002e562ae9868de984a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 25/52] fix: link to the first, previous and last page of
 bundles

---
 internal/viewer/html.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..d062ec0 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -305,14 +305,13 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	}
 
 	// add the previous link if there are previous pages
-	prev := skip - limit
-	if prev > 0 {
-		context.PrevLink = pageLink(prev)
+	if skip > 0 {
+		context.PrevLink = pageLink(skip - limit)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
 	next := skip + limit
-	last := total - (total % limit) - 1
+	last := ((total - 1) / limit) * limit
 	if next < total {
 		context.NextLink = pageLink(next)
 		context.LastLink = pageLink(last)
-- 
2.43.0


From 833a03a3974f0343d61113f96b7c509c937cb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:34 +0000
Subject: [PATCH 26/52] fix: escape addresses in redirects

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index d062ec0..1706a95 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -402,7 +402,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -426,7 +426,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From daa120f0124a372a9639498818ee90f4c4c8b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 27/52] fix: report errors when adding data to the index

---
 internal/sparkl/index.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 41dcba0..4686dc1 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -197,7 +197,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -241,7 +243,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -274,9 +278,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
-- 
2.43.0


From 07afa760a474eb09dae841a498fa6f06fb01430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 28/52] fix: report errors when storing triples and labels

---
 internal/sparkl/cache.go             |  4 +++-
 internal/triplestore/igraph/index.go | 12 ++++++++----
 internal/triplestore/imap/imap.go    |  8 ++++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index fcbba81..913bc97 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -115,7 +115,9 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 
 	// reset the uris
 	c.uris = &imap.IMap{}
-	c.uris.Reset(&c.engine)
+	if err := c.uris.Reset(&c.engine); err != nil {
+		return c, err
+	}
 
 	// store the bundle-entity index
 	c.beIndex = Data
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 6ea49a1..9793b11 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -266,10 +266,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -286,7 +288,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -302,7 +304,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..74ef932 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,12 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	if err = mp.reverse.Set(ids.Literal, label); err != nil {
+		return
+	}
 
 	// return the id
 	return
-- 
2.43.0


From c9ed7d096847171a4d8725be693a1227c23bfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:59 +0000
Subject: [PATCH 29/52] fix: report errors when looking up existing triples

---
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 9793b11..d301fa3 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -402,21 +402,21 @@ func (index *Index) resolveLabelConflict(old, new impl.ID) (impl.ID, error) {
 
 	// lod the old triple
 	ot, ok, err := index.triples.Get(old)
-	if !ok {
-		return old, errResolveConflictCorrupt
-	}
 	if err != nil {
 		return old, err
 	}
-
-	// load the new triple
-	nt, ok, err := index.triples.Get(new)
 	if !ok {
 		return old, errResolveConflictCorrupt
 	}
+
+	// load the new triple
+	nt, ok, err := index.triples.Get(new)
 	if err != nil {
 		return new, err
 	}
+	if !ok {
+		return old, errResolveConflictCorrupt
+	}
 
 	// use the one with the smaller role
 	if nt.Role < ot.Role {
-- 
2.43.0


From ce326527bcbe683439d1f18dc98bdf03854d870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 30/52] fix: also compact and finalize the languages of an
 index

---
 internal/triplestore/igraph/index.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index d301fa3..4668f27 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -500,9 +500,9 @@ func (index *Index) Compact() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -534,6 +534,11 @@ func (index *Index) Compact() error {
 		errs[5] = index.triples.Compact()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Compact()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
@@ -551,9 +556,9 @@ func (index *Index) Finalize() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -585,6 +590,11 @@ func (index *Index) Finalize() error {
 		errs[5] = index.triples.Finalize()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Finalize()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
-- 
2.43.0


From 57f559fcbc8a9af69e6ef14aef17215ff0909387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 31/52] fix: close all storages of an index

---
 internal/triplestore/igraph/index.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 4668f27..e5cb1d0 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -601,7 +601,7 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -624,6 +624,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
-- 
2.43.0


From 4cf0c0510f1248259ac80d7bb02da8b556d16091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 32/52] fix: do not update the progress of bundles after their
 extraction

---
 internal/sparkl/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1294925..4c13f72 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -141,8 +141,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	// create a new context
 	storage, err := context.Engine.NewStorage(bundle)
 	if context.reportError(err) {
-		context.extractWait.Done()
 		onFinish()
+		context.extractWait.Done()
 		return nil
 	}
 
@@ -152,8 +152,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	context.closersLock.Unlock()
 
 	go func() {
-		defer onFinish()
 		defer context.extractWait.Done()
+		defer onFinish()
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
-- 
2.43.0


From af16486fb582c38612ba0ef412999ad5dbdef52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 33/52] fix: wait for iterators to finish when closing them

---
 internal/sparkl/context.go            | 12 +++++---
 internal/sparkl/storages/disk.go      |  2 +-
 internal/sparkl/storages/memory.go    |  2 +-
 internal/triplestore/igraph/paths.go  | 40 +++++++++++++++++++++------
 internal/triplestore/impl/iterator.go | 30 ++++++++++++++++++++
 5 files changed, 72 insertions(+), 14 deletions(-)
 create mode 100644 internal/triplestore/impl/iterator.go

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 4c13f72..21e2f08 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -288,10 +288,14 @@ func extractPath(path pathbuilder.Path, index *igraph.Index, st *stats.Stats) tr
 	if err != nil {
 		return traversal.Empty[igraph.Path](err)
 	}
+	fail := func(err error) traversal.Iterator[igraph.Path] {
+		set.Close()
+		return traversal.Empty[igraph.Path](err)
+	}
 	if debugLogAllPaths {
 		size, err := set.Size()
 		if err != nil {
-			return traversal.Empty[igraph.Path](err)
+			return fail(err)
 		}
 		st.LogDebug("path", "id", debugID, "uri", uris[0], "size", size)
 	}
@@ -299,18 +303,18 @@ func extractPath(path pathbuilder.Path, index *igraph.Index, st *stats.Stats) tr
 	for i := 1; i < len(uris); i++ {
 		if i%2 == 0 {
 			if err := set.Ending(wisski.Type, impl.Label(uris[i])); err != nil {
-				return traversal.Empty[igraph.Path](err)
+				return fail(err)
 			}
 		} else {
 			if err := set.Connected(impl.Label(uris[i])); err != nil {
-				return traversal.Empty[igraph.Path](err)
+				return fail(err)
 			}
 		}
 
 		if debugLogAllPaths {
 			size, err := set.Size()
 			if err != nil {
-				return traversal.Empty[igraph.Path](err)
+				return fail(err)
 			}
 			st.LogDebug("uri", "id", debugID, "uris", uris[i], "size", size)
 		}
diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 19be033..0ef2027 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -191,7 +191,7 @@ func (ds *Disk) Finalize() error {
 }
 
 func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
-	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
+	return impl.NewIterator(func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
 		it := ds.DB.NewIterator(nil, nil)
diff --git a/internal/sparkl/storages/memory.go b/internal/sparkl/storages/memory.go
index df642ba..79907b4 100644
--- a/internal/sparkl/storages/memory.go
+++ b/internal/sparkl/storages/memory.go
@@ -100,7 +100,7 @@ func (bs *Memory) Finalize() error {
 }
 
 func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
-	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
+	return impl.NewIterator(func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
 		for _, entity := range bs.Entities {
diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..a401ae3 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -61,12 +61,33 @@ func (index *Index) PathsStarting(predicate, object impl.Label) (*Paths, error)
 func (index *Index) newQuery(source func(sender traversal.Generator[element])) (q *Paths) {
 	q = &Paths{
 		index:    index,
-		elements: traversal.New(source),
+		elements: impl.NewIterator(source),
 		size:     invalidSize,
 	}
 	return q
 }
 
+// connect calls f for every element of source, and closes source once done.
+// When f returns false, no further elements are read.
+func connect(source traversal.Iterator[element], f func(elem element, sender traversal.Generator[element]) (ok bool)) traversal.Iterator[element] {
+	return impl.NewIterator(func(sender traversal.Generator[element]) {
+		defer source.Close()
+
+		for source.Next() {
+			if !f(source.Datum(), sender) {
+				return
+			}
+		}
+		sender.YieldError(source.Err())
+	})
+}
+
+// Close closes this set of paths.
+// It is only needed when [Paths] is not called.
+func (set *Paths) Close() error {
+	return set.elements.Close()
+}
+
 // Connected extends the sets of in this PathSet by those which
 // continue the existing paths using an edge labeled with predicate.
 func (set *Paths) Connected(predicate impl.Label) error {
@@ -82,7 +103,7 @@ var errAborted = errors.New("paths: aborted")
 
 // expand expands the nodes in this query by adding a link to each element found in the index
 func (set *Paths) expand(p impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
+	set.elements = connect(set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
 		err := set.index.psoIndex.Fetch(p, subject.Node, func(object impl.ID, l impl.ID) error {
 			if !sender.Yield(element{
 				Node:    object,
@@ -96,9 +117,9 @@ func (set *Paths) expand(p impl.ID) error {
 
 		// if we have a "real" error, yield it and stop!
 		if err != nil && err != errAborted {
-			return sender.YieldError(err)
+			sender.YieldError(err)
 		}
-		return true
+		return err == nil
 	})
 	set.size = -1
 	return nil
@@ -120,10 +141,11 @@ func (set *Paths) Ending(predicate, object impl.Label) error {
 
 // restrict restricts the set of nodes by those mapped in the index
 func (set *Paths) restrict(p, o impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) bool {
+	set.elements = connect(set.elements, func(subject element, sender traversal.Generator[element]) bool {
 		tid, has, err := set.index.posIndex.Has(p, o, subject.Node)
 		if err != nil {
-			return sender.YieldError(err)
+			sender.YieldError(err)
+			return false
 		}
 		if !has {
 			return true
@@ -157,13 +179,15 @@ func (set *Paths) Size() (int, error) {
 // Paths returns an iterator over paths contained in this Paths.
 // It may only be called once, afterwards further calls may be invalid.
 func (set *Paths) Paths() traversal.Iterator[Path] {
-	return traversal.New(func(generator traversal.Generator[Path]) {
+	return impl.NewIterator(func(generator traversal.Generator[Path]) {
 		defer generator.Return()
+		defer set.elements.Close()
 
 		for set.elements.Next() {
 			element := set.elements.Datum()
 			path, err := set.makePath(element)
-			if !generator.YieldError(err) {
+			if err != nil {
+				generator.YieldError(err)
 				return
 			}
 			if !generator.Yield(path) {
diff --git a/internal/triplestore/impl/iterator.go b/internal/triplestore/impl/iterator.go
new file mode 100644
index 0000000..6e283c3
--- /dev/null
+++ b/internal/triplestore/impl/iterator.go
@@ -0,0 +1,30 @@
+package impl
+
+import (
+	"sync"
+
+	"github.com/tkw1536/pkglib/traversal"
+)
+
+// NewIterator is like [traversal.New], except that closing the returned iterator waits for source to return.
+// This ensures that source no longer makes use of any resources once the iterator is closed.
+func NewIterator[T any](source func(sender traversal.Generator[T])) traversal.Iterator[T] {
+	it := new(iterator[T])
+	it.done.Add(1)
+	it.Iterator = traversal.New(func(sender traversal.Generator[T]) {
+		defer it.done.Done()
+		source(sender)
+	})
+	return it
+}
+
+type iterator[T any] struct {
+	traversal.Iterator[T]
+	done sync.WaitGroup // waits for the source to return
+}
+
+func (it *iterator[T]) Close() error {
+	err := it.Iterator.Close()
+	it.done.Wait()
+	return err
+}
-- 
2.43.0


From 5c8c77e81088a4ba0f05006c683a9b8065c84575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 34/52] fix: release the iterator after counting

---
 internal/triplestore/imap/map_disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..5844494 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,8 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
+
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From b61058d6437f5ac271d4c433342fa790f0d3aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 35/52] fix: report errors when closing the source and the
 index

---
 internal/glass/glass.go  |  5 ++++-
 internal/sparkl/index.go | 26 +++++++++++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index d3cc7ca..ce05089 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -177,7 +177,10 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 		return drincw, err
 	}
 
-	index.Close()        // We close the index early, because it's no longer needed
+	// We close the index early, because it's no longer needed
+	if err := index.Close(); err != nil {
+		return Glass{}, err
+	}
 	debug.FreeOSMemory() // force returning memory to the os
 
 	drincw.Flags = flags
diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 4686dc1..24f532c 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -170,7 +170,11 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 	if err != nil {
 		return 0, err
 	}
-	defer source.Close()
+	defer func() {
+		if e := source.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	sameAss := make(map[impl.Label]struct{}, len(sameAsPredicates))
 	for _, sameAs := range sameAsPredicates {
@@ -206,16 +210,20 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 }
 
 // indexInverseOf inserts InverseOf pairs into the index
-func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl.Label, total int, opts IndexOptions, stats *stats.Stats) error {
+func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl.Label, total int, opts IndexOptions, stats *stats.Stats) (err error) {
 	if len(inversePredicates) == 0 {
 		return nil
 	}
 
-	err := source.Open()
+	err = source.Open()
 	if err != nil {
 		return err
 	}
-	defer source.Close()
+	defer func() {
+		if e := source.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	inverses := make(map[impl.Label]struct{})
 	for _, inverse := range inversePredicates {
@@ -252,12 +260,16 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 }
 
 // indexData inserts data into the index
-func indexData(source Source, index *igraph.Index, total int, opts IndexOptions, stats *stats.Stats) error {
-	err := source.Open()
+func indexData(source Source, index *igraph.Index, total int, opts IndexOptions, stats *stats.Stats) (err error) {
+	err = source.Open()
 	if err != nil {
 		return err
 	}
-	defer source.Close()
+	defer func() {
+		if e := source.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	var counter int
 	for {
-- 
2.43.0


From 7206cbaa7de0a29db5daaea5dd5ed098e6712230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 36/52] fix: keep empty values when downloading triples

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From 46b32fd327655f6a6b6add70e482bda2bfdfa458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 37/52] fix: ignore empty public urls

---
 internal/viewer/viewer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..1c7b6fc 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -65,7 +65,12 @@ type RenderFlags struct {
 func (rf RenderFlags) PublicURIS() (public []string) {
 	// add all the public urls
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
-		url, err := url.Parse(strings.TrimSpace(raw))
+		raw = strings.TrimSpace(raw)
+		if raw == "" {
+			continue
+		}
+
+		url, err := url.Parse(raw)
 		if err != nil {
 			rf.Stats.LogError("parse url", err)
 			continue
-- 
2.43.0


From 0e2396473cf71010dc899004f10c4f4ffa6eee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 38/52] fix: count only the bytes that were written

---
 pkg/progress/progress.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index 30f615f..511e38c 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -33,9 +33,10 @@ type Writer struct {
 }
 
 func (cw *Writer) Write(bytes []byte) (int, error) {
-	cw.Bytes += int64(len(bytes))
+	count, err := cw.Writer.Write(bytes)
+	cw.Bytes += int64(count)
 	cw.Rewritable.Write(fmt.Sprintf("Wrote %s", humanize.Bytes(uint64(cw.Bytes))))
-	return cw.Writer.Write(bytes)
+	return count, err
 }
 
 // DefaultFlushInterval is a reasonable default flush interval
-- 
2.43.0


From 0ef59417fe8092071558c766084106e5c53d41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 39/52] fix: find sources in directories with special
 characters in their name

---
 load.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..ffd78ec 100644
--- a/load.go
+++ b/load.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 // cspell:words nqauds
@@ -40,7 +41,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xmls, err := findFiles(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -49,7 +50,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 		}
 		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nqs, err := findFiles(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -73,6 +74,20 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// findFiles finds all files with the given extension in the directory base
+func findFiles(base, extension string) (files []string, err error) {
+	entries, err := os.ReadDir(base)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), extension) {
+			files = append(files, filepath.Join(base, entry.Name()))
+		}
+	}
+	return files, nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 3d36c196646ee74f805c936875497f5d7960c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 40/52] fix: synchronize writing the progress

---
 internal/stats/status.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..60691fd 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -50,12 +50,28 @@ func NewStats(w io.Writer) *Stats {
 	if w == nil {
 		return &Stats{}
 	}
+
+	// the logger and rewritable may be used at the same time
+	sw := &syncWriter{w: w}
 	return &Stats{
-		logger:     slog.New(slog.NewTextHandler(w, nil)),
-		rewritable: &progress.Rewritable{Writer: w, FlushInterval: progress.DefaultFlushInterval},
+		logger:     slog.New(slog.NewTextHandler(sw, nil)),
+		rewritable: &progress.Rewritable{Writer: sw, FlushInterval: progress.DefaultFlushInterval},
 	}
 }
 
+// syncWriter synchronizes writes to the underlying writer.
+type syncWriter struct {
+	m sync.Mutex
+	w io.Writer
+}
+
+func (sw *syncWriter) Write(bytes []byte) (int, error) {
+	sw.m.Lock()
+	defer sw.m.Unlock()
+
+	return sw.w.Write(bytes)
+}
+
 // Rewritable returns the rewritable associated with this status.
 // It is automatically closed at the end of each stage
 func (st *Stats) Rewritable() *progress.Rewritable {
@@ -361,22 +377,18 @@ func (st *Stats) SetCT(current, total int) {
 		return
 	}
 
-	// update the process and make a copy
-	var progress string
-
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
-	}
-	st.m.Unlock()
+	defer st.m.Unlock()
+
+	// update the process
+	st.current.Current = current
+	st.current.Total = total
 
 	// and write out the rewritable
 	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		st.rewritable.Write(st.current.Progress())
 	}
 }
 
-- 
2.43.0


From 8a7090ebf52376d187c1399f0fbf028aa3a00caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 41/52] fix: do not change statistics after they have been
 closed

---
 internal/stats/status.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index 60691fd..954f16b 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -109,6 +109,13 @@ func (st *Stats) StoreIndexStats(stats igraph.Stats) {
 		return
 	}
 
+	st.m.Lock()
+	defer st.m.Unlock()
+
+	if st.done.Load() {
+		return
+	}
+
 	st.istats.Set(stats)
 }
 
@@ -178,12 +185,17 @@ func (st *Stats) Log(message string, fields ...any) {
 	st.logger.Info(message, fields...)
 }
 
-// Close marks this status as done.
+// Close ends the current stage (if any), and marks this status as done.
 // Future edits will have no effect.
 func (st *Stats) Close() {
 	if st == nil {
 		return
 	}
+
+	st.m.Lock()
+	defer st.m.Unlock()
+
+	st.end()
 	st.done.Store(true)
 }
 
@@ -261,6 +273,10 @@ func (st *Stats) Start(stage Stage) {
 	st.m.Lock()
 	defer st.m.Unlock()
 
+	if st.done.Load() {
+		return
+	}
+
 	// end the previous stage (if any)
 	st.end()
 
@@ -294,6 +310,11 @@ func (st *Stats) End() (prev StageStats) {
 // end implements End.
 // st must not be nil st.m must be held for writing.
 func (st *Stats) end() (prev StageStats) {
+	// no more edits may be made
+	if st.done.Load() {
+		return
+	}
+
 	// store the current stage (if any)
 	if st.current.Stage != StageInitial {
 		st.current.End = perf.Now()
@@ -347,10 +368,6 @@ func (st *Stats) DoStage(stage Stage, f func() error) error {
 	if err != nil {
 
 		st.end()
-
-		if st.rewritable != nil {
-			st.rewritable.Close()
-		}
 		st.LogError("failed stage", err, "stage", stage)
 		return err
 	}
@@ -382,6 +399,10 @@ func (st *Stats) SetCT(current, total int) {
 	st.m.Lock()
 	defer st.m.Unlock()
 
+	if st.done.Load() {
+		return
+	}
+
 	// update the process
 	st.current.Current = current
 	st.current.Total = total
-- 
2.43.0


From 0026a4e059822832a9d351bf62e86948ef0e09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 42/52] fix: store bundles only inside of the cache directory

---
 internal/sparkl/storages/disk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 0ef2027..4590ffd 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,7 @@
 package storages
 
 import (
+	"net/url"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +21,8 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	// escape the name, so that it is always a (unique) file in the directory
+	path := filepath.Join(de.Path, "bundle-"+url.PathEscape(bundle.MachineName()))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
-- 
2.43.0


From 050f99f98163d8dc265912260e2bca0036979d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 43/52] fix: resolve addresses starting or ending with spaces

---
 internal/viewer/html.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 1706a95..e239901 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -391,9 +391,14 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	}
 
 	vars := mux.Vars(r)
-	uri := impl.Label(strings.TrimSpace(vars["uri"]))
+	uri := impl.Label(vars["uri"])
 
 	bundle, ok := viewer.Cache.Bundle(uri)
+	if !ok {
+		// might be surrounded by spaces
+		uri = impl.Label(strings.TrimSpace(vars["uri"]))
+		bundle, ok = viewer.Cache.Bundle(uri)
+	}
 	if !ok {
 		http.NotFound(w, r)
 		return
-- 
2.43.0


From 44561337903b8922b610bce2a4e732e185e283e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 44/52] fix: only rewrite links below the entity pages of a
 public address

Links to other paths of the original system which merely begin with the
same letters (for example /wisski_images) were rewritten too.
---
 internal/viewer/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index e239901..c43e012 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -117,7 +117,7 @@ type contextGlobal struct {
 
 func (cg contextGlobal) ReplaceURL(u string) string {
 	for _, prefix := range cg.InterceptedPrefixes {
-		if strings.HasPrefix(u, prefix) {
+		if rest, ok := strings.CutPrefix(u, prefix); ok && (rest == "" || strings.ContainsAny(rest[:1], "/?#")) {
 			url, err := url.Parse(u)
 			if err != nil {
 				continue
-- 
2.43.0


From aa60cf5c47b1559c7e57f222b8c31a4c4237e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 45/52] fix: write names in full when downloading turtle

The encoder turns every name into a prefixed name without escaping the
local part, so names with characters like ? = ( , or $ made the document
malformed.
---
 internal/wisski/entity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..6aef414 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -23,6 +23,7 @@ type Entity struct {
 // WriteTo writes triples representing this entity into w.
 func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
 	writer := rdf.NewTripleEncoder(w, f)
+	writer.GenerateNamespaces = false // the encoder does not escape local names
 	defer writer.Close()
 
 	for _, triple := range entity.AllTriples() {
-- 
2.43.0


From 6ee9e2e7dd482d9f09121662311cd4fb99df2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 46/52] fix: download values in languages with several subtags

A value in a language such as zh-Hans-CN ended the download early.
---
 internal/triplestore/igraph/triple.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7ae9bea..9300edc 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -3,6 +3,7 @@ package igraph
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
@@ -126,7 +127,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		var err error
 
 		if triple.Language != "" {
-			spo.Obj, err = rdf.NewLangLiteral(string(triple.Datum), string(triple.Language))
+			spo.Obj, err = newLangLiteral(string(triple.Datum), string(triple.Language))
 		} else {
 			spo.Obj, err = rdf.NewLiteral(string(triple.Datum))
 		}
@@ -138,6 +139,22 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 	return
 }
 
+// newLangLiteral is like [rdf.NewLangLiteral], but also accepts language tags with several subtags.
+func newLangLiteral(value, lang string) (rdf.Object, error) {
+	if strings.Count(lang, "-") <= 1 {
+		return rdf.NewLangLiteral(value, lang)
+	}
+
+	// rdf.NewLangLiteral refuses tags such as "zh-Hans-CN", but the decoder knows them
+	literal, err := rdf.NewLiteral(value)
+	if err != nil {
+		return nil, err
+	}
+	line := "<s:s> <p:p> " + literal.Serialize(rdf.NTriples) + "@" + lang + " .\n"
+	triple, err := rdf.NewTripleDecoder(strings.NewReader(line), rdf.NTriples).Decode()
+	return triple.Obj, err
+}
+
 // Compare compares this triple to another triple based on it's id
 func (triple Triple) Compare(other Triple) int {
 	return triple.ID.Compare(other.ID)
-- 
2.43.0


From 6c85541f50312af2ff9bbbcbc974e45336228a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:42 +0000
Subject: [PATCH 47/52] fix: restore empty fields and children when importing
 an export

---
 internal/sparkl/cache.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index 913bc97..239135e 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -91,10 +91,32 @@ func (cache *Cache) DecodeFrom(decoder *gob.Decoder) error {
 		}
 	}
 
+	// the encoding does not distinguish between empty and nil slices
+	for _, entities := range cache.beIndex {
+		restoreEmpty(entities)
+	}
+
 	cache.uris = &imap.IMap{}
 	return cache.uris.Reset(&cache.engine)
 }
 
+// restoreEmpty replaces nil fields and children of the given entities (and their children) by empty ones.
+func restoreEmpty(entities []wisski.Entity) {
+	for _, entity := range entities {
+		for name, values := range entity.Fields {
+			if values == nil {
+				entity.Fields[name] = []wisski.FieldValue{}
+			}
+		}
+		for name, children := range entity.Children {
+			if children == nil {
+				entity.Children[name] = []wisski.Entity{}
+			}
+			restoreEmpty(children)
+		}
+	}
+}
+
 func (cache Cache) Entities(bundle_machine string) []wisski.Entity {
 	return cache.beIndex[bundle_machine]
 }
-- 
2.43.0


From 1b7571f9674610309cb8462feb149b4752ecd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:44 +0000
Subject: [PATCH 48/52] fix: refuse exports with damage after the last value

---
 internal/glass/glass.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index ce05089..8c4b7fb 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -2,6 +2,7 @@
 package glass
 
 import (
+	"bufio"
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
@@ -263,14 +264,14 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Reader:     reader,
 			Rewritable: rewritable(st),
 		}
-		decoder := gob.NewDecoder(counter)
-		err = drincw.DecodeFrom(decoder)
+		buffer := bufio.NewReader(counter) // used by the decoder as is
+		err = drincw.DecodeFrom(gob.NewDecoder(buffer))
 
 		// read until the end, so that a damaged or incomplete file is noticed
 		if err == nil {
-			if err = decoder.Decode(nil); err == io.EOF {
-				err = nil
-			} else if err == nil {
+			var rest int64
+			rest, err = io.Copy(io.Discard, buffer)
+			if err == nil && rest != 0 {
 				err = errTrailingData
 			}
 		}
-- 
2.43.0


From 24a25d1aa89bc3a3c176cdb37f0b408f26285916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 49/52] fix: do not crash when importing a damaged pathbuilder

---
 internal/glass/glass.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 8c4b7fb..a3dbdfc 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -6,6 +6,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"fmt"
 	"io"
 	"os"
 	"runtime/debug"
@@ -103,7 +104,7 @@ func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 	}
 
 	// decode the xml again
-	glass.Pathbuilder, err = pbxml.Unmarshal(xml)
+	glass.Pathbuilder, err = unmarshalPathbuilder(xml)
 	if err != nil {
 		return err
 	}
@@ -116,6 +117,16 @@ func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 	return glass.Cache.DecodeFrom(decoder)
 }
 
+// unmarshalPathbuilder is like [pbxml.Unmarshal], but returns an error for a damaged pathbuilder.
+func unmarshalPathbuilder(xml []byte) (pb pathbuilder.Pathbuilder, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", errInvalidPathbuilder, r)
+		}
+	}()
+	return pbxml.Unmarshal(xml)
+}
+
 // Create creates a new glass from the given pathbuilder and nquads.
 // output is written to output.
 func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags viewer.RenderFlags, st *stats.Stats) (drincw Glass, err error) {
@@ -238,8 +249,9 @@ func rewritable(st *stats.Stats) (rw progress.Rewritable) {
 }
 
 var (
-	errInvalidVersion = errors.New("Glass Export: Invalid version")
-	errTrailingData   = errors.New("Glass Export: Unexpected data at the end")
+	errInvalidVersion     = errors.New("Glass Export: Invalid version")
+	errInvalidPathbuilder = errors.New("Glass Export: Invalid pathbuilder")
+	errTrailingData       = errors.New("Glass Export: Unexpected data at the end")
 )
 
 // Import loads a glass from disk
-- 
2.43.0


From 792ddc4c1ec9eba61f2a8039453b75ed9c1c54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 50/52] fix: report errors that occur while reading the middle
 of a line

---
 internal/sparkl/index_source.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index 8e2108f..47c084a 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -145,20 +145,14 @@ func (qs *QuadSource) readQuad() (value quad.Quad, language impl.Language, err e
 
 // readStatement reads the next line that is neither empty nor a comment.
 func (qs *QuadSource) readStatement() (string, error) {
-	var line []byte
 	for {
-		chunk, prefix, err := qs.reader.ReadLine()
-		if err != nil {
+		line, err := qs.reader.ReadBytes('\n')
+		if err != nil && (err != io.EOF || len(line) == 0) {
 			return "", err
 		}
-		line = append(line, chunk...)
-		if prefix {
-			continue
-		}
 		if line = bytes.TrimSpace(line); len(line) != 0 && line[0] != '#' {
 			return string(line), nil
 		}
-		line = line[:0]
 	}
 }
 
-- 
2.43.0


From d9f8e41c05dcfcccaf0c8b2a532dca34466079db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 51/52] fix: headache: set the flags before serving requests

The flags were set while the server was already running. A request that was
received before fixed the content security policy and the routes (for tipsy)
for the settings being empty.
---
 internal/headache/ui_run.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/headache/ui_run.go b/internal/headache/ui_run.go
index 968d91f..4a2d43d 100644
--- a/internal/headache/ui_run.go
+++ b/internal/headache/ui_run.go
@@ -67,6 +67,9 @@ func (h *Headache) setupRunWindow() {
 
 // runViewer
 func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel context.CancelFunc) {
+	// set the flags first: the handler uses them on the first request
+	h.handler.RenderFlags = h.settings.Flags()
+
 	// create a new handler
 	h.done.Add(1)
 	go func() {
@@ -85,7 +88,6 @@ func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel
 		defer listener.Close()  // close the listener
 		defer h.handler.Close() // kill the cache
 
-		h.handler.RenderFlags = h.settings.Flags()
 		pb, nq := h.settings.Pathbuilder(), h.settings.Nquads()
 
 		// create the glass by indexing
-- 
2.43.0


From 6ca46879378479e464420b84015f2b170808727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 52/52] fix: headache: stop when the window is closed right
 after starting

When the window was closed after the settings window was cleaned up, but before
the run window was set up, the server was started without a window, and ran
(invisibly) forever. The application could also end while starting it.
---
 internal/headache/headache.go    | 7 ++++++-
 internal/headache/ui_run.go      | 7 ++++++-
 internal/headache/ui_settings.go | 3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/headache/headache.go b/internal/headache/headache.go
index 6c3a28a..dd59bcc 100644
--- a/internal/headache/headache.go
+++ b/internal/headache/headache.go
@@ -32,7 +32,8 @@ type Headache struct {
 	handler *viewer.Viewer
 	console *console.Console
 
-	done sync.WaitGroup // WaitGroup for closing
+	done   sync.WaitGroup  // WaitGroup for closing
+	closed context.Context // cancelled once the window has been closed
 
 	settings settings // settings holds the settings of the server
 	status   status   // status holds the current status
@@ -55,6 +56,10 @@ func New() *Headache {
 	h.w = h.a.NewWindow("Headache")
 	h.w.SetIcon(icon)
 
+	closed, close := context.WithCancel(context.Background())
+	h.closed = closed
+	h.w.SetOnClosed(close)
+
 	// note(twiesing): It is critical to create these after the app
 	h.settings = newSettings()
 	h.status = newStatus()
diff --git a/internal/headache/ui_run.go b/internal/headache/ui_run.go
index 4a2d43d..91f52f3 100644
--- a/internal/headache/ui_run.go
+++ b/internal/headache/ui_run.go
@@ -22,6 +22,11 @@ Close this window to stop the server.
 `
 
 func (h *Headache) setupRunWindow() {
+	// the window was closed right after the start
+	if h.closed.Err() != nil {
+		return
+	}
+
 	// start the listener
 	listener, err := net.Listen("tcp", h.settings.Addr())
 	if err != nil {
@@ -61,7 +66,7 @@ func (h *Headache) setupRunWindow() {
 	h.setContent(container.NewScroll(layout))
 
 	// create a context and run it!
-	context, _, cancel := h.newWindowContext(context.Background())
+	context, _, cancel := h.newWindowContext(h.closed)
 	h.runViewer(listener, context, cancel)
 }
 
diff --git a/internal/headache/ui_settings.go b/internal/headache/ui_settings.go
index 7a4a886..d5bc56e 100644
--- a/internal/headache/ui_settings.go
+++ b/internal/headache/ui_settings.go
@@ -140,7 +140,8 @@ func (h *Headache) setupSettingsWindow() {
 		}
 
 		// setup the run window
-		go h.setupRunWindow()
+		// (before the done above, as otherwise the application may end in between)
+		h.setupRunWindow()
 	}()
 }
 
-- 
2.43.0

