From 021695795d3b7091005e27d38860c38bd4e0572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 01/18] fix: LRUCache.Get reorders the recency list under a
 read lock

---
 cache/LRU.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..6434f49 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,8 +26,8 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	l.Lock() // a hit reorders the pages
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
 		return &elem.Value.(*Page[T]).value, true
-- 
2.43.0


From ea5459b09af3d3eca3368df7368c11282333c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 02/18] fix: a flush of term counts drops the counts of all
 other terms of the field

---
 storage/DiskIO.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..02390c2 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -24,19 +24,27 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
-		if !file.Exists(path) {
-			continue
-		}
-		buf, err := file.ReadFileOnDisk(path)
+		termSize, err := d.loadNumberFieldTerm(field)
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[field] = termSize
 	}
 	return numberFieldTerm, nil
 }
 
+func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
+	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	if !file.Exists(path) {
+		return make(map[string]int), nil
+	}
+	buf, err := file.ReadFileOnDisk(path)
+	if err != nil {
+		return nil, err
+	}
+	return DeserializeNumberFieldTerm(file.DecompressData(buf)), nil
+}
+
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	fieldSize := make(map[string]int)
@@ -249,8 +257,17 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
-				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
+				// the buffer holds only the terms of this flush: keep the counts of the others
+				saved, err := d.loadNumberFieldTerm(fieldName)
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				for term, size := range termSize {
+					saved[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(saved)
+				err = file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From 742da4924c340403628e38162a11fd572f108e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/18] fix: a document evicted from the cache before it is
 flushed cannot be read and loses its fields

---
 storage/DiskIO.go      | 55 +++++++++++++++++++++++++++++++++++++-----
 storage/DiskStorage.go | 16 +++++++++---
 2 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 02390c2..ba79866 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -13,11 +13,49 @@ import (
 
 type DiskIO struct {
 	RootFolder string
+	unsaved    *unsavedDocuments
 }
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
-	return DiskIO{rootFolder}
+	return DiskIO{rootFolder, &unsavedDocuments{data: make(map[string]unsavedDocument)}}
+}
+
+// unsavedDocuments holds the documents on their way to disk: a reader that finds a document neither in the cache
+// nor on disk yet finds it here.
+type unsavedDocuments struct {
+	sync.Mutex
+	last int
+	data map[string]unsavedDocument
+}
+
+type unsavedDocument struct {
+	version int
+	fields  map[string]model.Field
+}
+
+func (u *unsavedDocuments) put(documentId string, fields map[string]model.Field) int {
+	u.Lock()
+	defer u.Unlock()
+	u.last++
+	u.data[documentId] = unsavedDocument{u.last, fields}
+	return u.last
+}
+
+func (u *unsavedDocuments) get(documentId string) (map[string]model.Field, bool) {
+	u.Lock()
+	defer u.Unlock()
+	document, ok := u.data[documentId]
+	return document.fields, ok
+}
+
+// saved forgets a document, unless a newer version of it is on its way.
+func (u *unsavedDocuments) saved(documentId string, version int) {
+	u.Lock()
+	defer u.Unlock()
+	if u.data[documentId].version == version {
+		delete(u.data, documentId)
+	}
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
@@ -68,6 +106,9 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	if fields, ok := d.unsaved.get(documentId); ok {
+		return fields, true
+	}
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
@@ -176,11 +217,12 @@ type NumberFieldTermTransferData struct {
 type DocumentFieldTransferData struct {
 	DocumentId string
 	Field      map[string]model.Field
+	version    int
 }
 
 type BufferFieldDocument struct {
 	sync.Mutex
-	data map[string]map[string]model.Field
+	data map[string]DocumentFieldTransferData
 }
 
 type bufferNumberFieldTerm struct {
@@ -197,7 +239,7 @@ type bufferFieldLengthSize struct {
 func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 
 	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
+		data: make(map[string]DocumentFieldTransferData),
 	}
 
 	ticker := time.NewTicker(10 * time.Second)
@@ -207,20 +249,21 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 		select {
 		case fieldDocument := <-data:
 			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
+			localBuffer.data[fieldDocument.DocumentId] = fieldDocument
 			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
-			for documentId, fieldMap := range localBuffer.data {
+			for documentId, document := range localBuffer.data {
 				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeFieldMap(fieldMap)
+				buf := SerializeFieldMap(document.Field)
 				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
 				delete(localBuffer.data, documentId)
+				d.unsaved.saved(documentId, document.version)
 			}
 			localBuffer.Unlock()
 		}
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..abfef85 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -170,20 +170,28 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
+	// a new map: the one in the cache may be read or written to disk right now
+	fieldIndex := make(map[string]model.Field)
 
 	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+		for name, value := range *fieldIndexPtr {
+			fieldIndex[name] = value
+		}
+	} else if saved, ok := d.diskIO.LoadFieldDocumentOnHD(documentId); ok {
+		// the document was evicted from the cache: keep its other fields
+		for name, value := range saved {
+			fieldIndex[name] = value
+		}
 	}
 
 	fieldIndex[field.Name] = field
+
 	d.fieldDocumentCache.Put(documentId, fieldIndex)
 
 	d.documentFieldCh <- DocumentFieldTransferData{
 		DocumentId: documentId,
 		Field:      fieldIndex,
+		version:    d.diskIO.unsaved.put(documentId, fieldIndex),
 	}
 
 }
-- 
2.43.0


From 92dae45686bee29124bd6a30cc020007dd276f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 04/18] fix: a crash during a secure save leaves no file, and
 two saves share helper files

---
 file/File.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..be62e16 100644
--- a/file/File.go
+++ b/file/File.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"fmt"
+	"github.com/google/uuid"
 	"io"
 	"log"
 	"os"
@@ -132,35 +133,23 @@ func ListDirectories(path string) []string {
 	return directories
 }
 
+// SecureSaveFile replaces a file in one step: it writes a helper file, under a name of its own, and renames it.
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
+	tempPath := filepath.Join(path, "%temp-"+uuid.New().String())
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
+		Delete(tempPath)
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
+		Delete(tempPath)
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From e55e9352f8630969a284f515a316857d113a4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 05/18] fix: a half-written index fragment is visible to merges
 and ends start-up

---
 storage/DiskIO.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ba79866..9e2fa18 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -415,10 +415,13 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
 				file.CreteDirIfNotExist(path)
 
+				// complete the file before it appears among the fragments, where a merge may read it
 				tempFile := uuid.New().String()
-				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				tempPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				err := file.SaveFileOnDisk(tempPath, file.CompressData(buffer))
+				if err == nil {
+					err = file.RenameFile(tempPath, filepath.Join(path, tempFile))
+				}
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From df3e2fcba274e429efac91593c95975d7b01d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 06/18] fix: document ids and field names that are no plain
 file names end the process or leave the folder

---
 file/Name.go      | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 storage/DiskIO.go | 46 ++++++++++++++++++++++++++------------
 2 files changed, 88 insertions(+), 14 deletions(-)
 create mode 100644 file/Name.go

diff --git a/file/Name.go b/file/Name.go
new file mode 100644
index 0000000..45e5701
--- /dev/null
+++ b/file/Name.go
@@ -0,0 +1,56 @@
+package file
+
+import (
+	"fmt"
+	"strconv"
+	"strings"
+)
+
+// EncodeName turns any text into the name of one file: names that are no plain file name are escaped with
+// percent signs, and different texts have different names.
+func EncodeName(text string) string {
+	switch text {
+	case "":
+		return "%"
+	case ".", "..":
+		return EscapeAll(text)
+	}
+	var name strings.Builder
+	for i := 0; i < len(text); i++ {
+		switch c := text[i]; c {
+		case '%', '/', 0:
+			name.WriteString(EscapeAll(text[i : i+1]))
+		default:
+			name.WriteByte(c)
+		}
+	}
+	return name.String()
+}
+
+// EscapeAll escapes every byte of a text.
+func EscapeAll(text string) string {
+	var name strings.Builder
+	for i := 0; i < len(text); i++ {
+		fmt.Fprintf(&name, "%%%02X", text[i])
+	}
+	return name.String()
+}
+
+// DecodeName returns the text of an encoded name.
+func DecodeName(name string) string {
+	if name == "%" {
+		return ""
+	}
+	var text strings.Builder
+	for i := 0; i < len(name); i++ {
+		if name[i] == '%' && i+2 < len(name) {
+			if c, err := strconv.ParseUint(name[i+1:i+3], 16, 8); err == nil {
+				text.WriteByte(byte(c))
+				i += 2
+				continue
+			}
+		}
+		text.WriteByte(name[i])
+	}
+	return text.String()
+}
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 9e2fa18..d0d2255 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -21,6 +21,24 @@ func NewDiskIO(rootFolder string) DiskIO {
 	return DiskIO{rootFolder, &unsavedDocuments{data: make(map[string]unsavedDocument)}}
 }
 
+// fieldPath is the folder of a field. It never is the folder that holds the documents.
+func fieldPath(rootFolder, fieldName string) string {
+	folder := file.EncodeName(fieldName)
+	if folder == file.Documents {
+		folder = file.EscapeAll(folder)
+	}
+	return filepath.Join(rootFolder, folder)
+}
+
+// listFields returns the names of the fields that have a folder.
+func (d *DiskIO) listFields() []string {
+	fields := file.ListDirectories(d.RootFolder)
+	for i, folder := range fields {
+		fields[i] = file.DecodeName(folder)
+	}
+	return fields
+}
+
 // unsavedDocuments holds the documents on their way to disk: a reader that finds a document neither in the cache
 // nor on disk yet finds it here.
 type unsavedDocuments struct {
@@ -59,7 +77,7 @@ func (u *unsavedDocuments) saved(documentId string, version int) {
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
 		termSize, err := d.loadNumberFieldTerm(field)
@@ -72,7 +90,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 }
 
 func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
-	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	path := filepath.Join(fieldPath(d.RootFolder, field), file.NumberFieldTerm)
 	if !file.Exists(path) {
 		return make(map[string]int), nil
 	}
@@ -84,11 +102,11 @@ func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
 }
 
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	fieldSize := make(map[string]int)
 	fieldLength := make(map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.MetricsFile)
+		path := filepath.Join(fieldPath(d.RootFolder, field), file.MetricsFile)
 		if !file.Exists(path) {
 			continue
 		}
@@ -109,7 +127,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 	if fields, ok := d.unsaved.get(documentId); ok {
 		return fields, true
 	}
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EncodeName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -119,7 +137,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(fieldPath(rootFolder, field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -139,11 +157,11 @@ func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*mo
 }
 
 func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	index := make(map[string]map[string]*model.Set)
 
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.Temp)
+		path := filepath.Join(fieldPath(d.RootFolder, field), file.Temp)
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
@@ -179,7 +197,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		}
 
 		buffer := SerializeIndex(tempTermDocuments)
-		indexPath := filepath.Join(d.RootFolder, field)
+		indexPath := fieldPath(d.RootFolder, field)
 		file.CreteDirIfNotExist(indexPath)
 
 		err = file.SecureSaveFile(indexPath, file.IndexFile, file.CompressData(buffer))
@@ -258,7 +276,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldMap(document.Field)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, file.EncodeName(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
@@ -297,7 +315,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := fieldPath(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
 				// the buffer holds only the terms of this flush: keep the counts of the others
@@ -345,7 +363,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := fieldPath(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -412,12 +430,12 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(fieldPath(d.RootFolder, fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				// complete the file before it appears among the fragments, where a merge may read it
 				tempFile := uuid.New().String()
-				tempPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				tempPath := filepath.Join(fieldPath(d.RootFolder, fieldName), tempFile)
 				err := file.SaveFileOnDisk(tempPath, file.CompressData(buffer))
 				if err == nil {
 					err = file.RenameFile(tempPath, filepath.Join(path, tempFile))
-- 
2.43.0


From 12ab3a0bc699ce1967bac69bcf3cedf735f74e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 07/18] fix: saving, reading and searching a store from several
 goroutines races on its maps

---
 model/Set.go           |  8 ++++++++
 storage/DiskStorage.go | 26 +++++++++++++++++++++++---
 storage/Memory.go      | 31 ++++++++++++++++++++++++++++---
 storage/Storage.go     | 12 ++++++++++++
 4 files changed, 71 insertions(+), 6 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..f4a1908 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -10,6 +10,14 @@ func NewSet() *Set {
 	return s
 }
 
+func (s *Set) Copy() *Set {
+	c := &Set{data: make(map[string]bool, len(s.data))}
+	for element := range s.data {
+		c.data[element] = true
+	}
+	return c
+}
+
 func (s *Set) GetData() map[string]bool {
 	return s.data
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index abfef85..aa4a98c 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -87,6 +87,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -95,27 +97,37 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	return copyIndex(d.index[fieldName])
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -197,6 +209,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateIndex(documentId, field)
+}
+
+func (d *Disk) updateIndex(documentId string, field model.Field) {
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
@@ -228,9 +246,11 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 }
 
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
 	d.UpdateFieldSizeLength(field)
-	d.UpdateIndex(documentId, field)
+	d.updateIndex(documentId, field)
 	d.UpdateNumberFieldTerm(field)
 	d.UpdateFieldDocument(documentId, field)
 }
diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..bb75a17 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
@@ -46,6 +54,8 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -54,31 +64,43 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldDocument[documentId]
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-	return m.Index[fieldName]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return copyIndex(m.Index[fieldName])
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -94,9 +116,12 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
diff --git a/storage/Storage.go b/storage/Storage.go
index 795eb20..3d04d00 100644
--- a/storage/Storage.go
+++ b/storage/Storage.go
@@ -20,3 +20,15 @@ type Storage interface {
 	//sds
 	UpdateIndex(documentId string, field model.Field)
 }
+
+// copyIndex copies the index of a field for a caller, who may use it while documents are saved.
+func copyIndex(index map[string]*model.Set) map[string]*model.Set {
+	if index == nil {
+		return nil
+	}
+	c := make(map[string]*model.Set, len(index))
+	for term, set := range index {
+		c[term] = set.Copy()
+	}
+	return c
+}
-- 
2.43.0


From 3b107534763f18cdd940dc9576018c90d02e3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 08/18] fix: a query with one to nine results ends in a panic

---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..330da64 100644
--- a/main.go
+++ b/main.go
@@ -192,6 +192,10 @@ func main() {
 			return
 		}
 
+		if len(rs) > 10 {
+			rs = rs[:10]
+		}
+
 		queryResults := make([]QueryResult, len(rs))
 		for i, score := range rs {
 			queryResults[i] = QueryResult{
@@ -204,10 +208,10 @@ func main() {
 
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          len(queryResults),
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults,
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 0189c9e9ee1049b19b842eba185ed8f7ddadf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 09/18] fix: SyncMap never applies a put, and would keep the
 old value of a key

---
 cache/Map.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..d2bf944 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -55,11 +55,6 @@ func (i *SyncMap[T]) writer() {
 
 			m.Lock()
 			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
-			for key, value := range buffer {
-				bufferCopy[key] = value
-			}
-			buffer = make(map[string]T)
-			m.Unlock()
 
 			i.RLock()
 			for key, value := range i.Data {
@@ -67,6 +62,12 @@ func (i *SyncMap[T]) writer() {
 			}
 			i.RUnlock()
 
+			for key, value := range buffer {
+				bufferCopy[key] = value
+			}
+			buffer = make(map[string]T)
+			m.Unlock()
+
 			i.Lock()
 			i.Data = bufferCopy
 			i.Unlock()
-- 
2.43.0


From 6fe441459670f47a92addb2092eaafd961e27eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 10/18] fix: LRUCache.Get hands out a pointer that later puts
 write through

---
 cache/LRU.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 6434f49..0c4aae9 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -30,7 +30,8 @@ func (l *LRUCache[T]) Get(key string) (*T, bool) {
 	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value // a copy: a later Put writes to the page
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From bcf0e4b51d4f604c0fdca13c7f4b6c9629c82c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 11/18] fix: flattening drops the separator after an empty key
 and merges distinct leaves

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..ce7b3e7 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -33,13 +33,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 1df7b970005782527f3a192b673ed8dbaa8b3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 12/18] fix: a document first saved during a search gets the
 score NaN

The search read the number and length of the field's documents before it
collected them: with none saved yet the average length was 0/0.
---
 index/InvertedIndex.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..6a54198 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -36,12 +36,7 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	maxRoutines := runtime.NumCPU() * 2
 
-	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
-	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
-
-	result := model.SearchResult{
-		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
-	}
+	result := model.SearchResult{}
 
 	documentIdCh := make(chan string, len(terms))
 	semaphoreCh := make(chan struct{}, maxRoutines)
@@ -113,6 +108,11 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 		}
 	}
 
+	// the statistics come last: they count every document that was found, even one saved during this search
+	result.NumFieldsWithTerm = i.Storage.GetNumberFieldTerm(fieldName, terms)
+	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
+	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
+
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
-- 
2.43.0


From 58995f8a8a4448a16270ed190e47b43f1dc33cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 13/18] fix: documents whose field statistics a crash has lost
 get the score NaN

The index fragment and the document may be on disk before the field's
metrics. The average length was then 0/0, and the HTTP service, which cannot
encode the score NaN, gave no answer.
---
 index/InvertedIndex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index 6a54198..16e3c14 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -115,7 +115,10 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
-	result.AvgDocLength = fieldLength / fieldSize
+	if fieldSize > 0 {
+		// a crash may leave documents whose statistics were not saved yet
+		result.AvgDocLength = fieldLength / fieldSize
+	}
 
 	return result
 }
-- 
2.43.0


From 058aa73c7c45b6f541d46d69423db5f9b839b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 14/18] fix: a document that cannot be read while it is saved
 loses its other fields

---
 storage/DiskIO.go      | 16 +++++++++++++---
 storage/DiskStorage.go |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index d0d2255..86ee38d 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/file"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"log"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -124,15 +125,24 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	fields, ok, err := d.loadFieldDocument(documentId)
+	return fields, ok && err == nil
+}
+
+// loadFieldDocument tells a document that is not there from one that cannot be read.
+func (d *DiskIO) loadFieldDocument(documentId string) (map[string]model.Field, bool, error) {
 	if fields, ok := d.unsaved.get(documentId); ok {
-		return fields, true
+		return fields, true, nil
 	}
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EncodeName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
+	if os.IsNotExist(err) {
+		return nil, false, nil
+	}
 	if err != nil {
-		return nil, false
+		return nil, false, err
 	}
-	return DeserializeFieldMap(file.DecompressData(buf)), true
+	return DeserializeFieldMap(file.DecompressData(buf)), true, nil
 }
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index aa4a98c..d533874 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sira-serverless-ir-arch/goirlib/cache"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"log"
 	"sync"
 	"time"
 )
@@ -189,8 +190,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 		for name, value := range *fieldIndexPtr {
 			fieldIndex[name] = value
 		}
-	} else if saved, ok := d.diskIO.LoadFieldDocumentOnHD(documentId); ok {
+	} else {
 		// the document was evicted from the cache: keep its other fields
+		saved, _, err := d.diskIO.loadFieldDocument(documentId)
+		if err != nil {
+			log.Fatalf("Failed to read document: %v", err)
+		}
 		for name, value := range saved {
 			fieldIndex[name] = value
 		}
-- 
2.43.0


From 21123b3d7d913b4c9355f5b80750eea6ffdc0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 15/18] fix: ids and field names too long for a file name end
 the process

---
 file/File.go      |  1 +
 file/Name.go      | 16 ++++++++++++-
 storage/DiskIO.go | 57 ++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/file/File.go b/file/File.go
index be62e16..0a217e9 100644
--- a/file/File.go
+++ b/file/File.go
@@ -18,6 +18,7 @@ const (
 	Documents        = "docs"
 	DocumentsMetrics = "metrics"
 	Temp             = "temp"
+	NameFile         = "name"
 	DocumentsRaw     = "raw"
 )
 
diff --git a/file/Name.go b/file/Name.go
index 45e5701..cc0dded 100644
--- a/file/Name.go
+++ b/file/Name.go
@@ -1,13 +1,17 @@
 package file
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"strconv"
 	"strings"
 )
 
+// maxName is the number of bytes that a file name can have.
+const maxName = 255
+
 // EncodeName turns any text into the name of one file: names that are no plain file name are escaped with
-// percent signs, and different texts have different names.
+// percent signs, and different texts have different names. Texts too long for that are named by their hash.
 func EncodeName(text string) string {
 	switch text {
 	case "":
@@ -24,9 +28,19 @@ func EncodeName(text string) string {
 			name.WriteByte(c)
 		}
 	}
+	if name.Len() > maxName {
+		return fmt.Sprintf("%s%x", hashed, sha256.Sum256([]byte(text)))
+	}
 	return name.String()
 }
 
+const hashed = "%%"
+
+// IsHashed tells whether an encoded name has lost its text, which DecodeName cannot return.
+func IsHashed(name string) bool {
+	return strings.HasPrefix(name, hashed)
+}
+
 // EscapeAll escapes every byte of a text.
 func EscapeAll(text string) string {
 	var name strings.Builder
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 86ee38d..c72e3c3 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -31,13 +31,37 @@ func fieldPath(rootFolder, fieldName string) string {
 	return filepath.Join(rootFolder, folder)
 }
 
+// createFieldFolder creates the folder of a field, with the name of the field if the folder's name does not tell it.
+func createFieldFolder(rootFolder, fieldName string) string {
+	path := fieldPath(rootFolder, fieldName)
+	file.CreteDirIfNotExist(path)
+	if file.IsHashed(filepath.Base(path)) && !file.Exists(filepath.Join(path, file.NameFile)) {
+		err := file.SecureSaveFile(path, file.NameFile, []byte(fieldName))
+		if err != nil {
+			log.Fatalf("Failed to save field name: %v", err)
+		}
+	}
+	return path
+}
+
 // listFields returns the names of the fields that have a folder.
-func (d *DiskIO) listFields() []string {
-	fields := file.ListDirectories(d.RootFolder)
-	for i, folder := range fields {
-		fields[i] = file.DecodeName(folder)
+func (d *DiskIO) listFields() ([]string, error) {
+	var fields []string
+	for _, folder := range file.ListDirectories(d.RootFolder) {
+		if !file.IsHashed(folder) {
+			fields = append(fields, file.DecodeName(folder))
+			continue
+		}
+		name, err := file.ReadFileOnDisk(filepath.Join(d.RootFolder, folder, file.NameFile))
+		if os.IsNotExist(err) {
+			continue // nothing is saved in the folder before its name
+		}
+		if err != nil {
+			return nil, err
+		}
+		fields = append(fields, string(name))
 	}
-	return fields
+	return fields, nil
 }
 
 // unsavedDocuments holds the documents on their way to disk: a reader that finds a document neither in the cache
@@ -78,7 +102,10 @@ func (u *unsavedDocuments) saved(documentId string, version int) {
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
-	fields := d.listFields()
+	fields, err := d.listFields()
+	if err != nil {
+		return nil, err
+	}
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
 		termSize, err := d.loadNumberFieldTerm(field)
@@ -103,7 +130,10 @@ func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
 }
 
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
-	fields := d.listFields()
+	fields, err := d.listFields()
+	if err != nil {
+		return nil, nil, err
+	}
 	fieldSize := make(map[string]int)
 	fieldLength := make(map[string]int)
 	for _, field := range fields {
@@ -167,7 +197,10 @@ func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*mo
 }
 
 func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
-	fields := d.listFields()
+	fields, err := d.listFields()
+	if err != nil {
+		return nil, err
+	}
 	index := make(map[string]map[string]*model.Set)
 
 	for _, field := range fields {
@@ -325,8 +358,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := fieldPath(d.RootFolder, fieldName)
-				file.CreteDirIfNotExist(path)
+				path := createFieldFolder(d.RootFolder, fieldName)
 
 				// the buffer holds only the terms of this flush: keep the counts of the others
 				saved, err := d.loadNumberFieldTerm(fieldName)
@@ -373,8 +405,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := fieldPath(d.RootFolder, fieldName)
-				file.CreteDirIfNotExist(path)
+				path := createFieldFolder(d.RootFolder, fieldName)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
 
@@ -440,7 +471,7 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(fieldPath(d.RootFolder, fieldName), file.Temp)
+				path := filepath.Join(createFieldFolder(d.RootFolder, fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				// complete the file before it appears among the fragments, where a merge may read it
-- 
2.43.0


From 514004207142f2b3d4eb083e417f0a7981193538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 16/18] fix: a failed request for the feed panics

---
 testecolection/Teste.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/testecolection/Teste.go b/testecolection/Teste.go
index 38a7e72..c3b043f 100644
--- a/testecolection/Teste.go
+++ b/testecolection/Teste.go
@@ -40,6 +40,7 @@ func GetArvixData() string {
 	resp, err := http.Get(url)
 	if err != nil {
 		fmt.Println("Erro ao fazer a solicitação HTTP:", err)
+		return ""
 	}
 	defer func(Body io.ReadCloser) {
 		err := Body.Close()
-- 
2.43.0


From 8d2a75055ba03922f15fc925c921d6f09200ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 17/18] fix: the total length of a field wraps at 32 bits in a
 restart

---
 schema/FieldMetrics.fbs         |  1 +
 storage/DiskIO.go               |  2 +-
 storage/Serialize.go            | 13 +++++++++----
 storage/buffers/FieldMetrics.go | 17 ++++++++++++++++-
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/schema/FieldMetrics.fbs b/schema/FieldMetrics.fbs
index c9fafbb..8433b2c 100644
--- a/schema/FieldMetrics.fbs
+++ b/schema/FieldMetrics.fbs
@@ -4,4 +4,5 @@ table FieldMetrics {
   name:string;
   size:int32;
   length:int32;
+  total:int64; // length, without the limit of 32 bits
 }
\ No newline at end of file
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index c72e3c3..6423b2a 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -407,7 +407,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 
 				path := createFieldFolder(d.RootFolder, fieldName)
 
-				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
+				buf := SerializeFieldSizeLength(fieldName, int32(size), int64(length))
 
 				//path = filepath.Join(path, file.MetricsFile)
 				err := file.SecureSaveFile(path, file.MetricsFile, file.CompressData(buf))
diff --git a/storage/Serialize.go b/storage/Serialize.go
index 4d88a05..1b87a33 100644
--- a/storage/Serialize.go
+++ b/storage/Serialize.go
@@ -7,7 +7,7 @@ import (
 	"log"
 )
 
-func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
+func SerializeFieldSizeLength(name string, size int32, length int64) []byte {
 	b := flatbuffers.NewBuilder(0)
 
 	nameOffset := b.CreateString(name)
@@ -15,7 +15,8 @@ func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
 	buffers.FieldMetricsStart(b)
 	buffers.FieldMetricsAddName(b, nameOffset)
 	buffers.FieldMetricsAddSize(b, size)
-	buffers.FieldMetricsAddLength(b, length)
+	buffers.FieldMetricsAddLength(b, int32(length))
+	buffers.FieldMetricsAddTotal(b, length)
 	fieldSizeLength := buffers.FieldMetricsEnd(b)
 
 	b.Finish(fieldSizeLength)
@@ -23,12 +24,16 @@ func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
 	return b.FinishedBytes()
 }
 
-func DeserializeFieldSizeLength(buf []byte) (string, int32, int32) {
+func DeserializeFieldSizeLength(buf []byte) (string, int32, int64) {
 	fieldSizeLength := buffers.GetRootAsFieldMetrics(buf, 0)
 
 	name := string(fieldSizeLength.Name())
 	size := fieldSizeLength.Size()
-	length := fieldSizeLength.Length()
+	length := fieldSizeLength.Total()
+	if length == 0 {
+		// written before there was a total
+		length = int64(fieldSizeLength.Length())
+	}
 
 	return name, size, length
 }
diff --git a/storage/buffers/FieldMetrics.go b/storage/buffers/FieldMetrics.go
index 50bd0d2..30f31c0 100644
--- a/storage/buffers/FieldMetrics.go
+++ b/storage/buffers/FieldMetrics.go
@@ -73,8 +73,20 @@ func (rcv *FieldMetrics) MutateLength(n int32) bool {
 	return rcv._tab.MutateInt32Slot(8, n)
 }
 
+func (rcv *FieldMetrics) Total() int64 {
+	o := flatbuffers.UOffsetT(rcv._tab.Offset(10))
+	if o != 0 {
+		return rcv._tab.GetInt64(o + rcv._tab.Pos)
+	}
+	return 0
+}
+
+func (rcv *FieldMetrics) MutateTotal(n int64) bool {
+	return rcv._tab.MutateInt64Slot(10, n)
+}
+
 func FieldMetricsStart(builder *flatbuffers.Builder) {
-	builder.StartObject(3)
+	builder.StartObject(4)
 }
 func FieldMetricsAddName(builder *flatbuffers.Builder, name flatbuffers.UOffsetT) {
 	builder.PrependUOffsetTSlot(0, flatbuffers.UOffsetT(name), 0)
@@ -85,6 +97,9 @@ func FieldMetricsAddSize(builder *flatbuffers.Builder, size int32) {
 func FieldMetricsAddLength(builder *flatbuffers.Builder, length int32) {
 	builder.PrependInt32Slot(2, length, 0)
 }
+func FieldMetricsAddTotal(builder *flatbuffers.Builder, total int64) {
+	builder.PrependInt64Slot(3, total, 0)
+}
 func FieldMetricsEnd(builder *flatbuffers.Builder) flatbuffers.UOffsetT {
 	return builder.EndObject()
 }
-- 
2.43.0


From d41af9c12f36d176503899bbf775e7cba7f0d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 18/18] fix: simultaneous searches race on the request counter

---
 main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 330da64..796a9f0 100644
--- a/main.go
+++ b/main.go
@@ -17,6 +17,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
 	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
 	"net/http"
+	"sync/atomic"
 	"time"
 )
 
@@ -46,7 +47,7 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
+var id atomic.Int64
 
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
@@ -179,8 +180,8 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
-		//fmt.Println("Qid:", id, len(rs))
+		id.Add(1)
+		//fmt.Println("Qid:", id.Load(), len(rs))
 		if len(rs) == 0 {
 			body := Result{
 				Duration:       duration.String(),
-- 
2.43.0

