From 8368f83725a80b403f4bb79d06407bfad044a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 01/52] fix: a shutdown request can be consumed by the poller
 without stopping it

Stop() set shutdownRequested only after the request was in the channel, so the
poller could take the request, still see the flag unset, and go back to
waiting forever. Let the receive itself tell the poller to stop.
---
 searcher/searcher.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..f4f6ea1 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -29,9 +29,8 @@ type Searcher struct {
 	// update at a time.
 	updateCh chan time.Time
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	shutdownCh chan empty
+	doneCh     chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -165,7 +164,6 @@ func (s *Searcher) Update() bool {
 func (s *Searcher) Stop() {
 	select {
 	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
 	default:
 	}
 }
@@ -181,7 +179,8 @@ func (s *Searcher) completeShutdown() {
 
 // Wait for either the delay period to expire or an update request to
 // arrive. Note that an empty delay will result in an infinite timeout.
-func (s *Searcher) waitForUpdate(delay time.Duration) {
+// Returns false if the searcher is asked to shut down instead.
+func (s *Searcher) waitForUpdate(delay time.Duration) bool {
 	var tch <-chan time.Time
 	if delay.Nanoseconds() > 0 {
 		tch = time.After(delay)
@@ -192,7 +191,9 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 	case <-s.updateCh:
 	case <-tch:
 	case <-s.shutdownCh:
+		return false
 	}
+	return true
 }
 
 // Signal the searcher that it is ok to begin polling the repository.
@@ -472,9 +473,7 @@ func newSearcher(
 
 		for {
 			// Wait for a signal to proceed
-			s.waitForUpdate(delay)
-
-			if s.shutdownRequested {
+			if !s.waitForUpdate(delay) {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From 4dd44d2d536b6e0fde09632fbce2ee6247a00b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 02/52] fix: failing to remove the old index destroyed the live
 new one

swapIndexes makes the new index live before it disposes of the old one. When
that failed, updateAndReindex destroyed the new index while searches were using
it, which crashed the server (the mapping is gone) or broke every later search.
---
 searcher/searcher.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index f4f6ea1..6cf89b8 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -112,7 +112,8 @@ func (r *foundRefs) removeUnclaimed() error {
 }
 
 // Perform atomic swap of index in the searcher so that the new
-// index is made "live".
+// index is made "live". The new index is live even if an error is
+// returned, which only says that the old one could not be disposed of.
 func (s *Searcher) swapIndexes(idx *index.Index) error {
 	s.lck.Lock()
 	defer s.lck.Unlock()
@@ -381,11 +382,7 @@ func updateAndReindex(
 	}
 
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy old index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From 62c2859dc3b23f9e09af0d2fbaa1decbfbc767ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 03/52] fix: the list of excluded files was read without
 holding the index

The index could be replaced and its directory removed between looking up the
directory and reading the file, giving an empty answer.
---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 6cf89b8..9edf49f 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 6bcabbf6eea15a35ed346b47598b768f13832b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 04/52] fix: asking for the excluded files of an unknown
 repository panicked

---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..0a6079a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		searcher := idx[repo]
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 6c31d9301cce7ee404fdf0d37391c955e2ec58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 05/52] fix: an I/O error on index files ended the whole server

The trigram index code reported failing reads and writes, full disks and
damaged index files with log.Fatal, so trouble with one repository's index took
every repository down, and dropped a source file it could not read without
saying so. Report these to the caller instead (as a panic with an *Error that
callers can Recover), remove the temporary files in every case, and at
start-up build a new index when the existing one cannot be opened.
---
 codesearch/index/mmap_bsd.go     |   7 +-
 codesearch/index/mmap_linux.go   |   7 +-
 codesearch/index/mmap_windows.go |   9 +--
 codesearch/index/read.go         |   7 +-
 codesearch/index/write.go        | 134 +++++++++++++++++++++----------
 index/index.go                   |  12 ++-
 searcher/searcher.go             |  22 +++++
 7 files changed, 137 insertions(+), 61 deletions(-)

diff --git a/codesearch/index/mmap_bsd.go b/codesearch/index/mmap_bsd.go
index 9442ab5..a4334bc 100644
--- a/codesearch/index/mmap_bsd.go
+++ b/codesearch/index/mmap_bsd.go
@@ -7,7 +7,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -15,11 +14,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fatalf("%v", err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fatalf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -27,7 +26,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_PRIVATE)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fatalf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_linux.go b/codesearch/index/mmap_linux.go
index 8ea561a..caf4387 100644
--- a/codesearch/index/mmap_linux.go
+++ b/codesearch/index/mmap_linux.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -13,11 +12,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fatalf("%v", err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fatalf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -25,7 +24,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fatalf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_windows.go b/codesearch/index/mmap_windows.go
index 8f09156..e2c3f00 100644
--- a/codesearch/index/mmap_windows.go
+++ b/codesearch/index/mmap_windows.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-	"log"
 	"os"
 	"syscall"
 	"unsafe"
@@ -14,24 +13,24 @@ import (
 func mmapFile(f *os.File) mmapData {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		fatalf("%v", err)
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		fatalf("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
 		return mmapData{f, nil, nil}
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		fatalf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(syscall.Handle(h))
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		fatalf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 5234266..8c6915a 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -96,6 +96,7 @@ const postEntrySize = 3 + 4 + 4
 func Open(file string) *Index {
   mm := mmap(file)
   if len(mm.d) < 4*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {
+    mm.close()  //nolint
     corrupt(mm.f)
   }
   n := uint32(len(mm.d) - len(trailerMagic) - 5*4)
@@ -114,7 +115,7 @@ func Open(file string) *Index {
 // If n >= 0, the slice must have length at least n and is truncated to length n.
 func (ix *Index) slice(off uint32, n int) []byte {
   o := int(off)
-  if uint32(o) != off || n >= 0 && o+n > len(ix.data.d) {
+  if uint32(o) != off || o > len(ix.data.d) || n >= 0 && o+n > len(ix.data.d) {
     corrupt(ix.data.f)
   }
   if n < 0 {
@@ -411,7 +412,7 @@ func mergeOr(l1, l2 []uint32) []uint32 {
 }
 
 func corrupt(file *os.File) {
-  log.Fatalf("corrupt index: %s", file.Name())
+  fatalf("corrupt index: %s", file.Name())
 }
 
 // An mmapData is mmap'ed read-only data from a file.
@@ -429,7 +430,7 @@ func (m *mmapData) close() error {
 func mmap(file string) mmapData {
   f, err := os.Open(file)
   if err != nil {
-    log.Fatal(err)
+    fatalf("%v", err)
   }
   return mmapFile(f)
 }
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..e1b03e9 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -59,17 +59,52 @@ type IndexWriter struct {
 
 const npost = 64 << 20 / 8 // 64 MB worth of post entries
 
+// An Error is a failure to read or write index data. The functions of this
+// package report it by panicking, see Recover.
+type Error struct {
+	msg string
+}
+
+func (e *Error) Error() string {
+	return e.msg
+}
+
+func fatalf(format string, args ...interface{}) {
+	panic(&Error{fmt.Sprintf(format, args...)})
+}
+
+// Recover is to be deferred by callers that want to carry on after an Error;
+// it stores the Error in err.
+func Recover(err *error) {
+	if r := recover(); r != nil {
+		e, ok := r.(*Error)
+		if !ok {
+			panic(r)
+		}
+		*err = e
+	}
+}
+
 // Create returns a new IndexWriter that will write the index to file.
 func Create(file string) *IndexWriter {
-	return &IndexWriter{
-		trigram:   sparse.NewSet(1 << 24),
-		nameData:  bufCreate(""),
-		nameIndex: bufCreate(""),
-		postIndex: bufCreate(""),
-		main:      bufCreate(file),
-		post:      make([]postEntry, 0, npost),
-		inbuf:     make([]byte, 16384),
+	ix := &IndexWriter{
+		trigram: sparse.NewSet(1 << 24),
+		post:    make([]postEntry, 0, npost),
+		inbuf:   make([]byte, 16384),
 	}
+
+	created := false
+	defer func() {
+		if !created {
+			ix.Close()
+		}
+	}()
+	ix.nameData = bufCreate("")
+	ix.nameIndex = bufCreate("")
+	ix.postIndex = bufCreate("")
+	ix.main = bufCreate(file)
+	created = true
+	return ix
 }
 
 // A postEntry is an in-memory (trigram, file#) pair.
@@ -119,7 +154,7 @@ func (ix *IndexWriter) AddFile(name string) {
 }
 
 // Add adds the file f to the index under the given name.
-// It logs errors using package log.
+// It returns why the file was skipped, if it was.
 func (ix *IndexWriter) Add(name string, f io.Reader) string {
 	ix.trigram.Reset()
 	var (
@@ -137,17 +172,12 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 	for {
 		tv = (tv << 8) & (1<<24 - 1)
 		if i >= len(buf) {
-			n, err := f.Read(buf[:cap(buf)])
+			n, err := io.ReadAtLeast(f, buf[:cap(buf)], 1)
 			if n == 0 {
-				if err != nil {
-					if err == io.EOF {
-						break
-					}
-					log.Printf("%s: %v\n", name, err)
-					return ""
+				if err == io.EOF {
+					break
 				}
-				log.Printf("%s: 0-length read\n", name)
-				return ""
+				fatalf("%s: %v", name, err)
 			}
 			buf = buf[:n]
 			i = 0
@@ -244,31 +274,46 @@ func (ix *IndexWriter) Flush() {
 	}
 	ix.main.writeString(trailerMagic)
 
-	os.Remove(ix.nameData.name)
-	for _, d := range ix.postData {
-		unmmap(d)  //nolint
-	}
-	for _, f := range ix.postFile {
-		f.Close()
-		os.Remove(f.Name())
-	}
-	os.Remove(ix.nameIndex.name)
-	os.Remove(ix.postIndex.name)
+	ix.removeTemps()
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
 	ix.main.flush()
 }
 
+// Close closes the index file and removes any temporary files, whether or not
+// the index was flushed.
 func (ix *IndexWriter) Close() {
-	ix.main.file.Close()
+	ix.removeTemps()
+	if ix.main != nil {
+		ix.main.file.Close()
+	}
+}
+
+func (ix *IndexWriter) removeTemps() {
+	for _, d := range ix.postData {
+		unmmap(d)  //nolint
+	}
+	ix.postData = nil
+	for _, f := range ix.postFile {
+		f.Close()
+		os.Remove(f.Name())
+	}
+	ix.postFile = nil
+	for _, b := range []**bufWriter{&ix.nameData, &ix.nameIndex, &ix.postIndex} {
+		if *b != nil {
+			(*b).file.Close()
+			os.Remove((*b).name)
+			*b = nil
+		}
+	}
 }
 
 func copyFile(dst, src *bufWriter) {
 	dst.flush()
 	_, err := io.Copy(dst.file, src.finish())
 	if err != nil {
-		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
+		fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
 }
 
@@ -276,7 +321,7 @@ func copyFile(dst, src *bufWriter) {
 // It returns the assigned file ID number.
 func (ix *IndexWriter) addName(name string) uint32 {
 	if strings.Contains(name, "\x00") {
-		log.Fatalf("%q: file has NUL byte in name", name)
+		fatalf("%q: file has NUL byte in name", name)
 	}
 
 	ix.nameIndex.writeUint32(ix.nameData.offset())
@@ -292,11 +337,12 @@ func (ix *IndexWriter) addName(name string) uint32 {
 func (ix *IndexWriter) flushPost() {
 	w, err := ioutil.TempFile("", "csearch-index")
 	if err != nil {
-		log.Fatal(err)
+		fatalf("%v", err)
 	}
 	if ix.Verbose {
 		log.Printf("flush %d entries to %s", len(ix.post), w.Name())
 	}
+	ix.postFile = append(ix.postFile, w)
 	sortPost(ix.post)
 
 	// Write the raw ix.post array to disk as is.
@@ -304,14 +350,13 @@ func (ix *IndexWriter) flushPost() {
 	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
 	if n, err := w.Write(data); err != nil || n < len(data) {
 		if err != nil {
-			log.Fatal(err)
+			fatalf("%v", err)
 		}
-		log.Fatalf("short write writing %s", w.Name())
+		fatalf("short write writing %s", w.Name())
 	}
 
 	ix.post = ix.post[:0]
 	w.Seek(0, 0)  //nolint
-	ix.postFile = append(ix.postFile, w)
 }
 
 // mergePost reads the flushed index entries and merges them
@@ -509,7 +554,7 @@ func bufCreate(name string) *bufWriter {
 		f, err = ioutil.TempFile("", "csearch")
 	}
 	if err != nil {
-		log.Fatal(err)
+		fatalf("%v", err)
 	}
 	return &bufWriter{
 		name: f.Name(),
@@ -524,7 +569,7 @@ func (b *bufWriter) write(x []byte) {
 		b.flush()
 		if len(x) >= cap(b.buf) {
 			if _, err := b.file.Write(x); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fatalf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -545,7 +590,7 @@ func (b *bufWriter) writeString(s string) {
 		b.flush()
 		if len(s) >= cap(b.buf) {
 			if _, err := b.file.WriteString(s); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fatalf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -555,10 +600,13 @@ func (b *bufWriter) writeString(s string) {
 
 // offset returns the current write offset.
 func (b *bufWriter) offset() uint32 {
-	off, _ := b.file.Seek(0, 1)
+	off, err := b.file.Seek(0, 1)
+	if err != nil {
+		fatalf("seeking %s: %v", b.name, err)
+	}
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
-		log.Fatalf("index is larger than 4GB")
+		fatalf("index is larger than 4GB")
 	}
 	return uint32(off)
 }
@@ -569,7 +617,7 @@ func (b *bufWriter) flush() {
 	}
 	_, err := b.file.Write(b.buf)
 	if err != nil {
-		log.Fatalf("writing %s: %v", b.name, err)
+		fatalf("writing %s: %v", b.name, err)
 	}
 	b.buf = b.buf[:0]
 }
@@ -578,7 +626,9 @@ func (b *bufWriter) flush() {
 func (b *bufWriter) finish() *os.File {
 	b.flush()
 	f := b.file
-	f.Seek(0, 0)  //nolint
+	if _, err := f.Seek(0, 0); err != nil {
+		fatalf("seeking %s: %v", b.name, err)
+	}
 	return f
 }
 
diff --git a/index/index.go b/index/index.go
index f84d933..093a84e 100644
--- a/index/index.go
+++ b/index/index.go
@@ -98,7 +98,9 @@ func (r *IndexRef) writeManifest() error {
 	return gob.NewEncoder(w).Encode(r)
 }
 
-func (r *IndexRef) Open() (*Index, error) {
+func (r *IndexRef) Open() (n *Index, err error) {
+	defer index.Recover(&err)
+
 	return &Index{
 		Ref: r,
 		idx: index.Open(filepath.Join(r.dir, "tri")),
@@ -143,7 +145,9 @@ func GetRegexpPattern(pat string, ignoreCase bool) string {
 	return "(?m)" + pat
 }
 
-func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error) {
+func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {
+	defer index.Recover(&err)
+
 	startedAt := time.Now()
 
 	n.lck.RLock()
@@ -366,7 +370,9 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
-func indexAllFiles(opt *IndexOptions, dst, src string) error {
+func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
+	defer index.Recover(&err)
+
 	ix := index.Create(filepath.Join(dst, "tri"))
 	defer ix.Close()
 
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 9edf49f..6b7d2d9 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -91,6 +91,16 @@ func (r *foundRefs) claim(ref *index.IndexRef) {
 	r.claimed[ref] = true
 }
 
+/**
+ * Give up a ref claimed earlier.
+ */
+func (r *foundRefs) unclaim(ref *index.IndexRef) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	delete(r.claimed, ref)
+}
+
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -442,6 +452,18 @@ func newSearcher(
 		idxDir,
 		repo.Url,
 		rev)
+	if err != nil && ref != nil {
+		// the existing index is of no use, build another one
+		log.Printf("failed to open index %s (%s): %s", idxDir, name, err)
+		refs.unclaim(ref)
+		idx, err = buildAndOpenIndex(
+			opt,
+			dbpath,
+			vcsDir,
+			nextIndexDir(dbpath),
+			repo.Url,
+			rev)
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 47f509333e53fc7c2e285a442e830363701b6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 06/52] fix: a file that vanishes or a directory that cannot be
 read during indexing crashed the server

filepath.Walk reports these with a nil FileInfo or an error next to it; fail
the build, which is tried again, instead of dereferencing nil or indexing only
part of the tree.
---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 093a84e..c294869 100644
--- a/index/index.go
+++ b/index/index.go
@@ -393,6 +393,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From 0494fe95902e26e376d4df3a958edd7bb7e1503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 07/52] fix: failing to write the end of a stored file went
 unnoticed

The copies of the source files were finished by a deferred gzip Close whose
error was dropped, so a full disk left an index whose copies are cut short.
---
 index/index.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/index/index.go b/index/index.go
index c294869..95e5846 100644
--- a/index/index.go
+++ b/index/index.go
@@ -95,7 +95,11 @@ func (r *IndexRef) writeManifest() error {
 	}
 	defer w.Close()
 
-	return gob.NewEncoder(w).Encode(r)
+	if err := gob.NewEncoder(w).Encode(r); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func (r *IndexRef) Open() (n *Index, err error) {
@@ -331,9 +335,14 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	reasonForExclusion := ix.Add(rel, io.TeeReader(r, g))
+
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+
+	return reasonForExclusion, w.Close()
 }
 
 func addDirToIndex(dst, src, path string) error {
@@ -358,7 +367,11 @@ func writeExcludedFilesJson(filename string, files []*ExcludedFile) error {
 	}
 	defer w.Close()
 
-	return json.NewEncoder(w).Encode(files)
+	if err := json.NewEncoder(w).Encode(files); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func containsString(haystack []string, needle string) bool {
-- 
2.43.0


From 5104de1c4910bcef95429486f28f5cc6026ecfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 08/52] fix: failed index builds left their directories behind

---
 searcher/searcher.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 6b7d2d9..a997c6c 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -241,6 +241,20 @@ func findExistingRefs(dbpath string) (*foundRefs, error) {
 	}, nil
 }
 
+func buildIndex(
+	opt *index.IndexOptions,
+	vcsDir,
+	idxDir,
+	url,
+	rev string) (*index.Index, error) {
+	r, err := index.Build(opt, idxDir, vcsDir, url, rev)
+	if err != nil {
+		return nil, err
+	}
+
+	return r.Open()
+}
+
 // Open an index at the given path. If the idxDir is already present, it will
 // simply open and use that index. If, however, the idxDir does not exist a new
 // one will be built.
@@ -252,12 +266,13 @@ func buildAndOpenIndex(
 	url,
 	rev string) (*index.Index, error) {
 	if _, err := os.Stat(idxDir); err != nil {
-		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
+		idx, err := buildIndex(opt, vcsDir, idxDir, url, rev)
 		if err != nil {
+			os.RemoveAll(idxDir)  //nolint
 			return nil, err
 		}
 
-		return r.Open()
+		return idx, nil
 	}
 
 	return index.Open(idxDir)
-- 
2.43.0


From 69c36a6c378d2348febf832048df365694c245c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 09/52] fix: a server killed while removing an index could take
 the rest of it for a whole one

RemoveAll removes the directory entries in no particular order, so the manifest
could outlive parts of the index; a restart that needed the same revision (after
a revert, say) then reused the incomplete index.
---
 index/index.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/index/index.go b/index/index.go
index 95e5846..6d325db 100644
--- a/index/index.go
+++ b/index/index.go
@@ -111,7 +111,14 @@ func (r *IndexRef) Open() (n *Index, err error) {
 	}, nil
 }
 
+// Remove deletes the index. The manifest goes first so that what is left, if
+// this does not get to the end, is not taken for an index again.
 func (r *IndexRef) Remove() error {
+	err := os.Remove(filepath.Join(r.dir, manifestFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From 92afbee70a37bffdda10858e9ead5e8c48c4f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 10/52] fix: a stored file that is cut short was searched as if
 it were whole

fillFrom took the io.ErrUnexpectedEOF of a truncated gzip stream for the end of
the file, so the lines that are missing were silently left out of the answer.
---
 index/grep.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/index/grep.go b/index/grep.go
index d8af164..1da70aa 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -69,18 +69,24 @@ func (g *grepper) fillFrom(r io.Reader) ([]byte, error) {
 
 	off := 0
 	for {
-		n, err := io.ReadFull(r, g.buf[off:])
-		if err == io.ErrUnexpectedEOF || err == io.EOF {
-			return g.buf[:off+n], nil
+		// not io.ReadFull, whose io.ErrUnexpectedEOF at the end of the data looks
+		// like that of a gzip stream that is cut short.
+		n, err := r.Read(g.buf[off:])
+		off += n
+		if err == io.EOF {
+			return g.buf[:off], nil
 		} else if err != nil {
 			return nil, err
 		}
 
+		if off < len(g.buf) {
+			continue
+		}
+
 		// grow the storage
 		buf := make([]byte, len(g.buf)*2)
 		copy(buf, g.buf)
 		g.buf = buf
-		off += n
 	}
 }
 
-- 
2.43.0


From 10db0777c51c724ef3333a32d10200f947ead5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 11/52] fix: patterns that match the empty line matched a line
 after the end of the file

For ^$ and the like, the search reported an empty line numbered one past the
last line of every file that ends with a newline and has no other match left.
---
 index/grep.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index 1da70aa..6ff191f 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -161,6 +161,10 @@ func (g *grepper) grep2(
 
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
+		if str == len(buf) {
+			// there is no line after the final newline.
+			return nil
+		}
 
 		//end of previous line
 		endl := str - 1
-- 
2.43.0


From 1ec6982660aa55812fc2ec5c8cbf72a2693d0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 12/52] fix: a local folder reached over a second link or with
 a special name was indexed as empty

The link in the data directory was followed once only, so a folder that is a
symbolic link itself was excluded as an irregular file; and the folder's own
name was matched against the dot file and ignored file rules.
---
 index/index.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/index/index.go b/index/index.go
index 6d325db..6495864 100644
--- a/index/index.go
+++ b/index/index.go
@@ -405,11 +405,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	}
 	defer fileHandle.Close()
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	// Resolve the symbolic link, and those it may lead to
+	src, err = filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
@@ -423,6 +422,11 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 			return err
 		}
 
+		// The directory itself, whatever it is called.
+		if rel == "." && info.IsDir() {
+			return addDirToIndex(dst, src, path)
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 525a5a0ccdf68be5d0df0e3dd0117070fe890dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 13/52] fix: a watched folder with links or pipes in it could
 not be indexed

The revision of a watched folder was computed by opening everything in it, which
fails for dangling links and links to directories and blocks for ever on named
pipes. Only regular files are indexed, so only read those.
---
 vcs/local.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index 129edde..ddf5313 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -70,17 +71,38 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return dir[idx+4:], nil
 	}
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	// Resolve the symbolic link, and those it may lead to
+	dir, err := filepath.EvalSymlinks(dir)
+	if err != nil {
+		return "", err
 	}
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	hash, err := dirhash.HashDir(dir, "", myHash)
-	return hash, err
+	files, err := dirhash.DirFiles(dir, "")
+	if err != nil {
+		return "", err
+	}
+
+	return myHash(files, func(name string) (io.ReadCloser, error) {
+		return openForHash(filepath.Join(dir, name))
+	})
+}
+
+// Open a file for hashing. Only regular files are indexed, so of all others
+// (links that may lead nowhere or to a directory, pipes and devices that may
+// block) it is enough to know that they are there.
+func openForHash(path string) (io.ReadCloser, error) {
+	fi, err := os.Lstat(path)
+	if err != nil {
+		return nil, err
+	}
+
+	if !fi.Mode().IsRegular() {
+		return io.NopCloser(strings.NewReader(fi.Mode().Type().String())), nil
+	}
+
+	return os.Open(path)
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From 3ef5c42b259c13b84f9a4ae13935ed0a9456ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 14/52] fix: a clone that was interrupted was taken for a
 working directory for ever after

The server killed (or a checkout failing) during the first clone left a partial
directory that every later start tried to update, without success. Clone under
another name and rename when done.
---
 vcs/vcs.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/vcs/vcs.go b/vcs/vcs.go
index 26f0d4d..3eddde6 100644
--- a/vcs/vcs.go
+++ b/vcs/vcs.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"path/filepath"
 )
 
 // A collection that maps vcs names to their underlying
@@ -72,10 +73,28 @@ func exists(path string) bool {
 }
 
 // A utility method that carries out the common operation of cloning
-// if the working directory is absent and pulling otherwise.
+// if the working directory is absent and pulling otherwise. The clone is made
+// under another name first, so that one that is interrupted is not mistaken
+// for a working directory later.
 func (w *WorkDir) PullOrClone(dir, url string) (string, error) {
 	if exists(dir) {
 		return w.Pull(dir)
 	}
-	return w.Clone(dir, url)
+
+	par, rep := filepath.Split(dir)
+	tmp := filepath.Join(par, "new-"+rep)
+	if err := os.RemoveAll(tmp); err != nil {
+		return "", err
+	}
+
+	rev, err := w.Clone(tmp, url)
+	if err == nil {
+		err = os.Rename(tmp, dir)
+	}
+	if err != nil {
+		os.RemoveAll(tmp) //nolint
+		return "", err
+	}
+
+	return rev, nil
 }
-- 
2.43.0


From b34496b0484a810d768670e732c436f952be782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 15/52] fix: the client printed nothing, successfully, when the
 server reported an error

The server reports search errors with a status of OK and an Error instead of
Results, which the client ignored; and it did not look at the status of the
repository list at all.
---
 client/client.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index ef37bd3..f1770be 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -114,7 +115,24 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	// errors, such as those in the pattern, come with a status of OK.
+	body := struct {
+		*Response
+		Error string
+	}{Response: r}
+	if err := json.NewDecoder(res.Body).Decode(&body); err != nil {
+		return err
+	}
+
+	if body.Error != "" {
+		return errors.New(body.Error)
+	}
+
+	if r.Results == nil {
+		return errors.New("no results in the response")
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
@@ -125,6 +143,10 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 	}
 	defer res.Body.Close()
 
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("Status %d", res.StatusCode)
+	}
+
 	return json.NewDecoder(res.Body).Decode(&repos)
 }
 
-- 
2.43.0


From c14010e18d6c32e4ef26d003cdd5061d85655da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 16/52] fix: the auto-generated files were those of the
 revision at start-up for ever

The attributes were read once, so after an update files were marked that are not
generated (any more) and others were not.
---
 searcher/searcher.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index a997c6c..7b30265 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -376,7 +376,6 @@ func updateAndReindex(
 	name,
 	rev string,
 	wd *vcs.WorkDir,
-	opt *index.IndexOptions,
 	lim limiter) (string, bool) {
 
 	// acquire a token from the rate limiter
@@ -397,7 +396,7 @@ func updateAndReindex(
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		nextIndexDir(dbpath),
@@ -415,6 +414,22 @@ func updateAndReindex(
 	return newRev, true
 }
 
+// Determine the options for indexing the given repo as it is in vcsDir now.
+func indexOptionsFor(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) *index.IndexOptions {
+	var autoFiles []string
+	if len(repo.AutoGeneratedFiles) > 0 {
+		autoFiles = repo.AutoGeneratedFiles
+	} else {
+		autoFiles = wd.AutoGeneratedFiles(vcsDir)
+	}
+
+	return &index.IndexOptions{
+		ExcludeDotFiles:    repo.ExcludeDotFiles,
+		SpecialFiles:       wd.SpecialFiles(),
+		AutoGeneratedFiles: autoFiles,
+	}
+}
+
 // Creates a new Searcher that is capable of re-claiming an existing index directory
 // from a set of existing manifests.
 func newSearcher(
@@ -438,18 +453,7 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
-	opt := &index.IndexOptions{
-		ExcludeDotFiles:    repo.ExcludeDotFiles,
-		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
-	}
+	opt := indexOptionsFor(repo, wd, vcsDir)
 
 	var idxDir string
 	ref := refs.find(repo.Url, rev)
@@ -515,7 +519,7 @@ func newSearcher(
 			}
 
 			// attempt to update and reindex this searcher
-			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, opt, lim)
+			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
 			if !ok {
 				continue
 			}
-- 
2.43.0


From cf4937a31062f13852509f2f3f891e8153c3a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 17/52] fix: changed repository settings did not take effect
 while the revision stayed the same

At start-up an existing index was reused for the same url and revision whatever
options it was built with, so changes to exclude-dot-files, the ignored files
and the auto-generated files were ignored until the next commit.
---
 index/index.go       | 24 ++++++++++++++++++++++++
 searcher/searcher.go | 10 +++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/index/index.go b/index/index.go
index 6495864..9aa67f0 100644
--- a/index/index.go
+++ b/index/index.go
@@ -82,12 +82,21 @@ type IndexRef struct {
 	Time               time.Time
 	dir                string
 	AutoGeneratedFiles []string
+	ExcludeDotFiles    bool
+	SpecialFiles       []string
 }
 
 func (r *IndexRef) Dir() string {
 	return r.dir
 }
 
+// Whether the index was built with the given options.
+func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {
+	return r.ExcludeDotFiles == opt.ExcludeDotFiles &&
+		equalStrings(r.SpecialFiles, opt.SpecialFiles) &&
+		equalStrings(r.AutoGeneratedFiles, opt.AutoGeneratedFiles)
+}
+
 func (r *IndexRef) writeManifest() error {
 	w, err := os.Create(filepath.Join(r.dir, manifestFilename))
 	if err != nil {
@@ -390,6 +399,19 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
+func equalStrings(a, b []string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	defer index.Recover(&err)
 
@@ -540,6 +562,8 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
 		Time:               time.Now(),
 		dir:                dst,
 		AutoGeneratedFiles: opt.AutoGeneratedFiles,
+		ExcludeDotFiles:    opt.ExcludeDotFiles,
+		SpecialFiles:       opt.SpecialFiles,
 	}
 
 	if err := r.writeManifest(); err != nil {
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 7b30265..cdd04be 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -68,12 +68,12 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Find an Index ref for the repo url and rev that was built with the given
+ * options, returns nil if no such ref exists.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) find(url, rev string, opt *index.IndexOptions) *index.IndexRef {
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) {
 			return ref
 		}
 	}
@@ -456,7 +456,7 @@ func newSearcher(
 	opt := indexOptionsFor(repo, wd, vcsDir)
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.find(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
-- 
2.43.0


From 62cea469384ca068244581edcd512791d3f38f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 18/52] fix: two repositories with the same url could share one
 index directory

Both claimed the index found at start-up, and the first of them to update
removed it under the other. Claim it for one of them only.
---
 searcher/searcher.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index cdd04be..dd9bed2 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -68,29 +68,24 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev that was built with the given
- * options, returns nil if no such ref exists.
+ * Claim an Index ref for the repo url and rev that was built with the given
+ * options for reuse, returns nil if no such ref exists. This ensures the ref
+ * will not be garbage collected at the end of startup, nor be claimed for
+ * another repo with the same url.
  */
-func (r *foundRefs) find(url, rev string, opt *index.IndexOptions) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Give up a ref claimed earlier.
  */
@@ -456,12 +451,11 @@ func newSearcher(
 	opt := indexOptionsFor(repo, wd, vcsDir)
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev, opt)
+	ref := refs.claim(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From f3a0169d3126d83bd13ca4e399b3f8faa6e18bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 19/52] fix: repositories with the same url worked in the same
 directory at the same time

They share a vcs directory, so one could clone into it or check out another
revision in it while the other was cloning or indexing.
---
 searcher/searcher.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index dd9bed2..3c74894 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -377,6 +377,8 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	defer lockVcsDir(vcsDir).Unlock()
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -409,6 +411,18 @@ func updateAndReindex(
 	return newRev, true
 }
 
+// The locks of the vcs directories, which repositories with the same url share.
+var vcsDirLocks sync.Map
+
+// Wait for exclusive use of a vcs directory, which lasts until the lock that is
+// returned is unlocked.
+func lockVcsDir(vcsDir string) *sync.Mutex {
+	lck, _ := vcsDirLocks.LoadOrStore(vcsDir, &sync.Mutex{})
+	m := lck.(*sync.Mutex)
+	m.Lock()
+	return m
+}
+
 // Determine the options for indexing the given repo as it is in vcsDir now.
 func indexOptionsFor(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) *index.IndexOptions {
 	var autoFiles []string
@@ -443,6 +457,8 @@ func newSearcher(
 	}
 
 
+	defer lockVcsDir(vcsDir).Unlock()
+
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3a870406ef7bc3bbb1c30b128d5cfde9c839e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 20/52] fix: an old index that could not be removed kept the
 server from starting

---
 searcher/searcher.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 3c74894..c1c747c 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -100,7 +100,7 @@ func (r *foundRefs) unclaim(ref *index.IndexRef) {
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
  */
-func (r *foundRefs) removeUnclaimed() error {
+func (r *foundRefs) removeUnclaimed() {
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
@@ -110,10 +110,9 @@ func (r *foundRefs) removeUnclaimed() error {
 		}
 
 		if err := ref.Remove(); err != nil {
-			return err
+			log.Printf("failed to remove unused index %s: %s", ref.Dir(), err)
 		}
 	}
-	return nil
 }
 
 // Perform atomic swap of index in the searcher so that the new
@@ -338,9 +337,7 @@ func MakeAll(cfg *config.Config) (map[string]*Searcher, map[string]error, error)
 		searchers[r.name] = r.searcher
 	}
 
-	if err := refs.removeUnclaimed(); err != nil {
-		return nil, nil, err
-	}
+	refs.removeUnclaimed()
 
 	// after all the repos are in good shape, we start their polling
 	for _, s := range searchers {
-- 
2.43.0


From ec14d65059ee1cdc147392b0b2fc2dbb6e8936e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 21/52] fix: after a power failure an index could be reused
 whose files had not reached the disk

The manifest can be on disk before the files it vouches for; force those out
first.
---
 index/index.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/index/index.go b/index/index.go
index 9aa67f0..a7b7aea 100644
--- a/index/index.go
+++ b/index/index.go
@@ -519,6 +519,23 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	return nil
 }
 
+// Force all files in dir to disk.
+func syncAll(dir string) error {
+	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil || !info.Mode().IsRegular() {
+			return err
+		}
+
+		f, err := os.OpenFile(path, os.O_RDWR, 0)
+		if err != nil {
+			return err
+		}
+		defer f.Close()
+
+		return f.Sync()
+	})
+}
+
 // Read the metadata for the index directory. Note that even if this
 // returns a non-nil error, a Metadata object will be returned with
 // all the information that is known about the index (this might
@@ -566,6 +583,12 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
 		SpecialFiles:       opt.SpecialFiles,
 	}
 
+	// the manifest says that the index is complete, so the rest must not be
+	// lost if the machine goes down.
+	if err := syncAll(dst); err != nil {
+		return nil, err
+	}
+
 	if err := r.writeManifest(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4f4cf17a74858e81e85fc4c2cffc6fa127b92922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 22/52] fix: searching a stream with a line longer than the
 buffer never ended

---
 codesearch/regexp/match.go | 7 +++++++
 index/grep.go              | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 480f910..76ffb75 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -418,6 +418,13 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		end := len(buf)
 		if err == nil {
 			end = bytes.LastIndex(buf, nl) + 1
+			if end == 0 {
+				// a line that does not fit.
+				g.buf = make([]byte, 2*cap(buf))
+				copy(g.buf, buf)
+				buf = g.buf[:len(buf)]
+				continue
+			}
 		} else {
 			endText = true
 		}
diff --git a/index/grep.go b/index/grep.go
index 6ff191f..7e4a161 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -217,6 +217,13 @@ func (g *grepper) grep(r io.Reader, re *regexp.Regexp, fn func(line []byte, line
 		end := len(buf)
 		if err == nil {
 			end = bytes.LastIndex(buf, nl) + 1
+			if end == 0 {
+				// a line that does not fit.
+				g.buf = make([]byte, 2*cap(buf))
+				copy(g.buf, buf)
+				buf = g.buf[:len(buf)]
+				continue
+			}
 		} else {
 			endText = true
 		}
-- 
2.43.0


From 637cd0f8f0d7b5ab99b42ab10d6da573d1e6e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 23/52] fix: patterns that match the empty line matched at the
 end of every buffer of a stream

---
 codesearch/regexp/match.go | 6 +++++-
 index/grep.go              | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 76ffb75..67967bf 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -435,12 +435,16 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
+			if lineStart == end {
+				// there is no line after the newline of the last line so far.
+				break
+			}
 			g.Match = true
 			if g.L {
 				fmt.Fprintf(g.Stdout, "%s\n", name)
 				return
 			}
-			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
 			lineEnd := m1 + 1
 			if lineEnd > end {
 				lineEnd = end
diff --git a/index/grep.go b/index/grep.go
index 7e4a161..7e6b225 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -235,6 +235,10 @@ func (g *grepper) grep(r io.Reader, re *regexp.Regexp, fn func(line []byte, line
 				break
 			}
 			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
+			if lineStart == end {
+				// there is no line after the newline of the last line so far.
+				break
+			}
 			lineEnd := m1 + 1
 			if lineEnd > end {
 				lineEnd = end
-- 
2.43.0


From 8a47e7540c2f423f9ecd73b2fa3176dbd36c86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 24/52] fix: a vcs command that printed no revision was indexed
 as revision ""

---
 vcs/vcs.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vcs/vcs.go b/vcs/vcs.go
index 3eddde6..0386069 100644
--- a/vcs/vcs.go
+++ b/vcs/vcs.go
@@ -1,6 +1,7 @@
 package vcs
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"os"
@@ -72,13 +73,21 @@ func exists(path string) bool {
 	return true
 }
 
+// A vcs command that ended well without naming a revision did not work.
+func known(rev string, err error) (string, error) {
+	if err == nil && rev == "" {
+		err = errors.New("vcs: the revision is not known")
+	}
+	return rev, err
+}
+
 // A utility method that carries out the common operation of cloning
 // if the working directory is absent and pulling otherwise. The clone is made
 // under another name first, so that one that is interrupted is not mistaken
 // for a working directory later.
 func (w *WorkDir) PullOrClone(dir, url string) (string, error) {
 	if exists(dir) {
-		return w.Pull(dir)
+		return known(w.Pull(dir))
 	}
 
 	par, rep := filepath.Split(dir)
@@ -87,7 +96,7 @@ func (w *WorkDir) PullOrClone(dir, url string) (string, error) {
 		return "", err
 	}
 
-	rev, err := w.Clone(tmp, url)
+	rev, err := known(w.Clone(tmp, url))
 	if err == nil {
 		err = os.Rename(tmp, dir)
 	}
-- 
2.43.0


From 154b320a8fd3a163bbea9823fa025ff94e921d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 25/52] fix: searching a stream took a reader that was cut
 short for the end of the data

---
 codesearch/regexp/match.go | 18 ++++++++++++++++--
 index/grep.go              | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 67967bf..bf2b60a 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -396,6 +396,20 @@ func countNL(b []byte) int {
 	return n
 }
 
+// readFull fills buf from r as io.ReadFull does, but the end of the data is
+// io.EOF even after some bytes: io.ErrUnexpectedEOF is an error of the reader.
+func readFull(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var m int
+		m, err = r.Read(buf[n:])
+		n += m
+	}
+	if n == len(buf) {
+		err = nil
+	}
+	return n, err
+}
+
 func (g *Grep) Reader(r io.Reader, name string) {
 	if g.buf == nil {
 		g.buf = make([]byte, 1<<20)
@@ -413,7 +427,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		prefix = name + ":"
 	}
 	for {
-		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])
+		n, err := readFull(r, buf[len(buf):cap(buf)])
 		buf = buf[:len(buf)+n]
 		end := len(buf)
 		if err == nil {
@@ -472,7 +486,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		n = copy(buf, buf[end:])
 		buf = buf[:n]
 		if len(buf) == 0 && err != nil {
-			if err != io.EOF && err != io.ErrUnexpectedEOF {
+			if err != io.EOF {
 				fmt.Fprintf(g.Stderr, "%s: %v\n", name, err)
 			}
 			break
diff --git a/index/grep.go b/index/grep.go
index 7e6b225..e44997a 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -133,6 +133,20 @@ func firstNLines(buf []byte, n int) [][]byte {
 	return r
 }
 
+// readFull fills buf from r as io.ReadFull does, but the end of the data is
+// io.EOF even after some bytes: io.ErrUnexpectedEOF is an error of the reader.
+func readFull(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var m int
+		m, err = r.Read(buf[n:])
+		n += m
+	}
+	if n == len(buf) {
+		err = nil
+	}
+	return n, err
+}
+
 // TODO(knorton): This is still being tested. This is a grep that supports context lines. Unlike the version
 // in codesearch, this one does not operate on chunks. The downside is that we have to have the whole file
 // in memory to do the grep. Fortunately, we limit the size of files that get indexed anyway. 10M files tend
@@ -212,7 +226,7 @@ func (g *grepper) grep(r io.Reader, re *regexp.Regexp, fn func(line []byte, line
 	)
 
 	for {
-		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])
+		n, err := readFull(r, buf[len(buf):cap(buf)])
 		buf = buf[:len(buf)+n]
 		end := len(buf)
 		if err == nil {
@@ -262,7 +276,7 @@ func (g *grepper) grep(r io.Reader, re *regexp.Regexp, fn func(line []byte, line
 		n = copy(buf, buf[end:])
 		buf = buf[:n]
 		if len(buf) == 0 && err != nil {
-			if err != io.EOF && err != io.ErrUnexpectedEOF {
+			if err != io.EOF {
 				return err
 			}
 			return nil
-- 
2.43.0


From cab1cd96f97d858ec7ac1640c73aa3e49c559d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 26/52] fix: merging trigram indexes lost or shadowed files
 when a path ended in a non-ASCII character

---
 codesearch/index/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5aa1ecc..5907cba 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -66,8 +66,7 @@ func Merge(dst, src1, src2 string) {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string(path[len(path)-1]+1)
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
+		for i1 < uint32(ix1.numName) && strings.HasPrefix(ix1.Name(i1), path) {
 			i1++
 		}
 		hi := i1 //nolint
@@ -85,7 +84,7 @@ func Merge(dst, src1, src2 string) {
 			panic("merge: inconsistent index")
 		}
 		lo = i2
-		for i2 < uint32(ix2.numName) && ix2.Name(i2) < limit {
+		for i2 < uint32(ix2.numName) && strings.HasPrefix(ix2.Name(i2), path) {
 			i2++
 		}
 		hi = i2
-- 
2.43.0


From 730d541bf75bce949a895bf94480147e3c13b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 27/52] fix: a git reset that stopped half-way left a mixture
 of revisions to be indexed as one

---
 vcs/git.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..3fc66d7 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -74,6 +74,12 @@ func (g *GitDriver) HeadRev(dir string) (string, error) {
 }
 
 func run(desc, dir, cmd string, args ...string) (string, error) {
+	out, _ := tryRun(desc, dir, cmd, args...)
+	return out, nil
+}
+
+// tryRun is run for commands whose failure cannot be ignored.
+func tryRun(desc, dir, cmd string, args ...string) (string, error) {
 	c := exec.Command(cmd, args...)
 	c.Dir = dir
 	out, err := c.CombinedOutput()
@@ -85,7 +91,7 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 			out, err)
 	}
 
-	return string(out), nil
+	return string(out), err
 }
 
 func (g *GitDriver) Pull(dir string) (string, error) {
@@ -102,12 +108,16 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		return "", err
 	}
 
-	if _, err := run("git reset", dir,
+	if _, err := tryRun("git reset", dir,
 		"git",
 		"reset",
 		"--hard",
 		fmt.Sprintf("origin/%s", targetRef)); err != nil {
-		return "", err
+		// HEAD stays where it is, and the files have to go with it: a reset that
+		// stopped half-way leaves a mixture.
+		if _, err := tryRun("git reset", dir, "git", "reset", "--hard", "HEAD"); err != nil {
+			return "", err
+		}
 	}
 
 	return g.HeadRev(dir)
-- 
2.43.0


From da4056073bf31d94a379b38d69f96a098d05b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 28/52] fix: when the default branch could not be detected for
 a moment, another branch was served

---
 vcs/git.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 3fc66d7..32c527b 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -32,6 +32,7 @@ type refDetetector interface {
 }
 
 type headBranchDetector struct {
+	last string // the ref detected last
 }
 
 func newGit(b []byte) (Driver, error) {
@@ -217,23 +218,32 @@ func (d *headBranchDetector) detectRef(dir string) string {
 
 	if err != nil {
 		log.Printf(
-			"error occured when fetching info to determine target ref in %s: %s. Will fall back to default ref %s",
+			"error occured when fetching info to determine target ref in %s: %s. Will fall back to ref %s",
 			dir,
 			err,
-			defaultRef,
+			d.fallback(),
 		)
-		return ""
+		return d.last
 	}
 
 	matches := headBranchRegexp.FindStringSubmatch(output)
 	if len(matches) != 2 {
 		log.Printf(
-			"could not determine target ref in %s. Will fall back to default ref %s",
+			"could not determine target ref in %s. Will fall back to ref %s",
 			dir,
-			defaultRef,
+			d.fallback(),
 		)
-		return ""
+		return d.last
 	}
 
-	return matches[1]
+	d.last = matches[1]
+	return d.last
+}
+
+// fallback is the ref that is used when none can be detected.
+func (d *headBranchDetector) fallback() string {
+	if d.last != "" {
+		return d.last
+	}
+	return defaultRef
 }
-- 
2.43.0


From 8e6d23bb86362ee4bcc5e2a4c5f465aee5adcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 29/52] fix: git ls-files was left behind when git check-attr
 failed

---
 vcs/git.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 32c527b..83af081 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -188,6 +188,9 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 
 	if err != nil {
 		log.Printf("Error occured when running git check-attr in %s: %s.", dir, err)
+		// nobody reads what git ls-files has left to say
+		pipe.Close()
+		filesCmd.Wait() //nolint
 		return files
 	}
 
-- 
2.43.0


From 87610e030452cb5f5e249ab498ad1ecf331430c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 30/52] fix: a global vcs-config value won over a repository's
 own one of another case

---
 config/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c978c00..ba1ed65 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 const (
@@ -139,6 +140,17 @@ func initConfig(c *Config) error {
 	return mergeVCSConfigs(c)
 }
 
+// Is there a value for the given name? As in all of the config, the case of
+// names does not matter.
+func hasSetting(vals map[string]interface{}, name string) bool {
+	for n := range vals {
+		if strings.EqualFold(n, name) {
+			return true
+		}
+	}
+	return false
+}
+
 func mergeVCSConfigs(cfg *Config) error {
 	globalConfigLen := len(cfg.VCSConfigMessages)
 	if globalConfigLen == 0 {
@@ -171,7 +183,7 @@ func mergeVCSConfigs(cfg *Config) error {
 		}
 
 		for name, val := range globalVals {
-			if _, ok := repoVals[name]; !ok {
+			if !hasSetting(repoVals, name) {
 				repoVals[name] = val
 			}
 		}
-- 
2.43.0


From 50a970a1040a762719f642dc5c552c0e1f6f32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 31/52] fix: links were wrong for paths with $ or braces, and
 for patterns that name a value twice

---
 ui/assets/js/common.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index ebd2f0f..c37eeef 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -3,10 +3,9 @@ export function EscapeRegExp(regexp) {
 }
 
 export function ExpandVars(template, values) {
-    for (var name in values) {
-        template = template.replace('{' + name + '}', values[name]);
-    }
-    return template;
+    return template.replace(/\{([^{}]*)\}/g, function (all, name) {
+        return values.hasOwnProperty(name) ? values[name] : all;
+    });
 };
 
 export function UrlParts(repo, path, line, rev) {
-- 
2.43.0


From 66ac63088aca0d670f930055a0165002fd2694fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 32/52] fix: links to files with #, ? or % in their path led
 elsewhere

---
 ui/assets/js/common.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index c37eeef..7267285 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -16,6 +16,7 @@ export function UrlParts(repo, path, line, rev) {
         repoName = '',
         path = path || '',
         port = '',
+        path = encodeURI(path).replace(/[?#]/g, encodeURIComponent),
         filename = path.substring(path.lastIndexOf('/') + 1),
         anchor = line ? ExpandVars(pattern.anchor, { line : line, filename : filename }) : '';
 
-- 
2.43.0


From cc866f1833fb0779123850a26051fdda3ee330dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 33/52] fix: an empty query broke the page

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index fbbea52..5360556 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -155,7 +155,7 @@ var Model = {
         if (params.q == "") {
             _this.results = [];
             _this.resultsByRepo = {};
-            _this.didSearch.raise(_this, _this.Results);
+            _this.didSearch.raise(_this, _this.results);
             return;
         }
 
-- 
2.43.0


From d71b43aa1587307ed8da1c440e2b102c17b61c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 34/52] fix: the address of a search lost repositories whose
 name needs escaping

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 5360556..7717223 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -1066,7 +1066,7 @@ var App = React.createClass({
             "&excludeFiles=" +
             encodeURIComponent(params.excludeFiles) +
             "&repos=" +
-            params.repos;
+            encodeURIComponent(params.repos);
         history.pushState({ path: path }, "", path);
     },
     render: function () {
-- 
2.43.0


From 810d297893e6a309adf3425fc8f0ac2aaaa7e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 35/52] fix: the page hung on expressions that match the empty
 string

---
 ui/assets/js/hound.js | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 7717223..74d83b8 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -705,22 +705,23 @@ var ContentFor = function (line, regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
-        buffer = [];
-
-    while (true) {
-        regexp.lastIndex = 0;
-        var m = regexp.exec(content);
-        if (!m) {
-            buffer.push(EscapeHtml(content));
-            break;
+        buffer = [],
+        from = 0,
+        m;
+
+    regexp.lastIndex = 0;
+    while ((m = regexp.exec(content))) {
+        if (m[0] === "") {
+            // there is nothing to mark, and exec would stay here forever.
+            regexp.lastIndex++;
+            continue;
         }
 
-        buffer.push(
-            EscapeHtml(content.substring(0, regexp.lastIndex - m[0].length))
-        );
+        buffer.push(EscapeHtml(content.substring(from, m.index)));
         buffer.push("<em>" + EscapeHtml(m[0]) + "</em>");
-        content = content.substring(regexp.lastIndex);
+        from = regexp.lastIndex;
     }
+    buffer.push(EscapeHtml(content.substring(from)));
     return buffer.join("");
 };
 
-- 
2.43.0


From e9e6721bd37af5c042cbd44541c29c7be2289220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 36/52] fix: the page showed the results of an earlier search
 when its answer came late

---
 ui/assets/js/hound.js | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 74d83b8..c802a62 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -164,6 +164,11 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // a later search has made this one obsolete.
+                if (_this.params !== params) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -209,6 +214,9 @@ var Model = {
                 _this.didSearch.raise(_this, _this.results, _this.stats);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== params) {
+                    return;
+                }
                 _this.didError.raise(this, "The server broke down");
             },
         });
@@ -216,6 +224,7 @@ var Model = {
 
     LoadMore: function (repo) {
         var _this = this,
+            search = this.params,
             results = this.resultsByRepo[repo],
             numLoaded = results.Matches.length,
             numNeeded = results.FilesWithMatch - numLoaded,
@@ -224,7 +233,7 @@ var Model = {
 
         _this.willLoadMore.raise(this, repo, numLoaded, numNeeded, numToLoad);
 
-        var params = merge(this.params, {
+        var params = merge(search, {
             rng: numLoaded + ":" + endAt,
             repos: repo,
         });
@@ -234,6 +243,11 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // a later search has made this one obsolete.
+                if (_this.params !== search) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -244,6 +258,9 @@ var Model = {
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== search) {
+                    return;
+                }
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From d8a6ef54d2cb97ae50263f378daf5317caade26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 37/52] fix: the error of the search before was shown while a
 search was under way

---
 ui/assets/js/hound.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index c802a62..e6819d3 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -918,6 +918,7 @@ var ResultView = React.createClass({
         Model.willSearch.tap(function (model, params) {
             _this.setState({
                 results: null,
+                error: null,
                 query: params.q,
             });
         });
-- 
2.43.0


From 2a300938d033a91f1cfff5526c51afbd0624fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 38/52] fix: results were not shown, or wrongly highlighted,
 unless the query field held the expression searched for, in JavaScript's
 syntax

---
 ui/assets/js/hound.js | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index e6819d3..f264342 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -59,6 +59,22 @@ var ParamValueToBool = function (v) {
     return v == "fosho" || v == "true" || v == "1";
 };
 
+/**
+ * The expression to highlight the matches of a search with, null if it is one that
+ * the server understands but the browser does not.
+ */
+var RegExpFromParams = function (params) {
+    var regexp = params.q;
+    if (ParamValueToBool(params.literal)) {
+        regexp = EscapeRegExp(regexp);
+    }
+    try {
+        return new RegExp(regexp, ParamValueToBool(params.i) ? "ig" : "g");
+    } catch (e) {
+        return null;
+    }
+};
+
 /**
  * The data model for the UI is responsible for conducting searches and managing
  * all results.
@@ -396,16 +412,6 @@ var SearchBar = React.createClass({
     submitQuery: function () {
         this.props.onSearchRequested(this.getParams());
     },
-    getRegExp: function () {
-        var regexp = this.refs.q.getDOMNode().value.trim();
-        if (this.refs.lsearch.getDOMNode().checked) {
-            regexp = EscapeRegExp(regexp);
-        }
-        return new RegExp(
-            regexp,
-            this.refs.icase.getDOMNode().checked ? "ig" : "g"
-        );
-    },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
@@ -718,7 +724,7 @@ EscapeHtml.e = document.createElement("div");
  * Produce html for a line using the regexp to highlight matches.
  */
 var ContentFor = function (line, regexp) {
-    if (!line.Match) {
+    if (!line.Match || !regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
@@ -1041,7 +1047,7 @@ var App = React.createClass({
 
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: RegExpFromParams(model.params),
                 error: null,
             });
         });
@@ -1049,7 +1055,7 @@ var App = React.createClass({
         Model.didLoadMore.tap(function (model, repo, results) {
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: RegExpFromParams(model.params),
                 error: null,
             });
         });
-- 
2.43.0


From a038b4143b874f2a5a10ce3dbadf1f8ccd1a5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 39/52] fix: loading more twice at once showed the files twice

---
 ui/assets/js/hound.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index f264342..801e835 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -247,6 +247,11 @@ var Model = {
             numToLoad = Math.min(2000, numNeeded),
             endAt = numNeeded == numToLoad ? "" : "" + numToLoad;
 
+        if (results.Loading) {
+            return;
+        }
+        results.Loading = true;
+
         _this.willLoadMore.raise(this, repo, numLoaded, numNeeded, numToLoad);
 
         var params = merge(search, {
@@ -264,6 +269,7 @@ var Model = {
                     return;
                 }
 
+                results.Loading = false;
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -277,6 +283,7 @@ var Model = {
                 if (_this.params !== search) {
                     return;
                 }
+                results.Loading = false;
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From 606b00ae97d7ac1c5427fb65e75f18ff3911622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 40/52] fix: loading more failed, or mixed two versions, after
 the repository was updated

---
 ui/assets/js/hound.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 801e835..4043c02 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -276,6 +276,13 @@ var Model = {
                 }
 
                 var result = data.Results[repo];
+                if (!result || result.Revision !== results.Rev) {
+                    // the repository was updated in between, so what is
+                    // loaded and the rest do not belong together.
+                    _this.Search(search);
+                    return;
+                }
+
                 results.Matches = results.Matches.concat(result.Matches);
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
-- 
2.43.0


From 240a3c5f4a84a47b878fd1bec9e0673db2f99ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 41/52] fix: the excluded files page listed the files of a
 repository clicked earlier

---
 ui/assets/js/excluded_files.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ui/assets/js/excluded_files.js b/ui/assets/js/excluded_files.js
index 1a38f9a..c8511bc 100644
--- a/ui/assets/js/excluded_files.js
+++ b/ui/assets/js/excluded_files.js
@@ -98,16 +98,21 @@ var FilterableExcludedFiles = React.createClass({
   },
 
   onRepoClick: function(repo) {
-    var _this = this;
+    var _this = this,
+        clicked = this.state.repos[repo];
     _this.setState({
       searching: true,
-      repo: this.state.repos[repo],
+      repo: clicked,
     });
     reqwest({
       url: 'api/v1/excludes',
       data: {repo: repo},
       type: 'json',
       success: function(data) {
+        // another repository was clicked in the meantime.
+        if (_this.state.repo !== clicked) {
+          return;
+        }
         _this.setState({ files: data, searching: false });
       },
       error: function(xhr, status, err) {
-- 
2.43.0


From f4f9e33626aed73dd1c2d3da67363cb84e1861fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 42/52] fix: repositories selected by the address were left out
 of the next search

---
 ui/assets/js/hound.js | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 4043c02..a2835f1 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -345,7 +345,10 @@ var SearchBar = React.createClass({
     componentWillMount: function () {
         var _this = this;
         Model.didLoadRepos.tap(function (model, repos) {
-            _this.setState({ allRepos: Object.keys(repos) });
+            _this.setState({
+                allRepos: Object.keys(repos),
+                repos: _this.props.repos,
+            });
         });
     },
 
@@ -429,7 +432,16 @@ var SearchBar = React.createClass({
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
-        var repos = Model.ValidRepos(this.refs.repos.state.value);
+        var options = [].slice.call(this.refs.repos.getDOMNode().options),
+            repos = Model.ValidRepos(
+                options
+                    .filter(function (option) {
+                        return option.selected;
+                    })
+                    .map(function (option) {
+                        return option.value;
+                    })
+            );
         if (repos.length == Model.RepoCount()) {
             repos = [];
         }
@@ -448,13 +460,18 @@ var SearchBar = React.createClass({
             i = this.refs.icase.getDOMNode(),
             literal = this.refs.lsearch.getDOMNode(),
             files = this.refs.files.getDOMNode(),
-            excludeFiles = this.refs.excludeFiles.getDOMNode();
+            excludeFiles = this.refs.excludeFiles.getDOMNode(),
+            options = [].slice.call(this.refs.repos.getDOMNode().options),
+            repos = [].concat(params.repos).join(",").split(",");
 
         q.value = params.q;
         i.checked = ParamValueToBool(params.i);
         literal.checked = ParamValueToBool(params.literal);
         files.value = params.files;
         excludeFiles.value = params.excludeFiles;
+        options.forEach(function (option) {
+            option.selected = repos.indexOf(option.value) >= 0;
+        });
     },
     hasAdvancedValues: function () {
         return (
@@ -1056,7 +1073,6 @@ var App = React.createClass({
         Model.didSearch.tap(function (model, results, stats) {
             _this.refs.searchBar.setState({
                 stats: stats,
-                repos: repos,
             });
 
             _this.refs.resultView.setState({
-- 
2.43.0


From e04444de83da9d822afec2921e161ebc8f6fd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 43/52] fix: links to a wiki were wrong if its address had
 .wiki in another place as well

---
 ui/assets/js/common.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index 7267285..2338893 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -23,7 +23,7 @@ export function UrlParts(repo, path, line, rev) {
     // Determine if the URL passed is a GitHub wiki
     var wikiUrl = /\.wiki$/.exec(url);
     if (wikiUrl) {
-        url = url.replace(/\.wiki/, '/wiki')
+        url = url.replace(/\.wiki$/, '/wiki')
         path = path.replace(/\.md$/, '')
         anchor = '' // wikis do not support direct line linking
     }
-- 
2.43.0


From 74b0908ccacf77e10c5c8048d71cd8b21e4547bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 44/52] fix: an update goes through after git was killed

A git that is killed leaves its lock files behind. Since nobody removed them,
every fetch or reset after it failed, for ever.
---
 vcs/git.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 83af081..27644a9 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"os"
 	"os/exec"
 	"path/filepath"
 	"regexp"
@@ -95,7 +96,31 @@ func tryRun(desc, dir, cmd string, args ...string) (string, error) {
 	return string(out), err
 }
 
+// A git that was killed leaves its lock files behind, and every later one fails
+// because of them. Nobody else works in dir, so the locks are nobody's.
+func removeStaleLocks(dir string) {
+	gitDir := filepath.Join(dir, ".git")
+	filepath.Walk(gitDir, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return nil
+		}
+		if info.IsDir() {
+			if path == filepath.Join(gitDir, "objects") {
+				return filepath.SkipDir
+			}
+			return nil
+		}
+		if strings.HasSuffix(path, ".lock") {
+			log.Printf("removing stale lock %s", path)
+			os.Remove(path) //nolint
+		}
+		return nil
+	})
+}
+
 func (g *GitDriver) Pull(dir string) (string, error) {
+	removeStaleLocks(dir)
+
 	targetRef := g.targetRef(dir)
 
 	if _, err := run("git fetch", dir,
-- 
2.43.0


From 9692fe466d80816122bc5a1147d3ca5325c83732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 45/52] fix: files that an interrupted update of a git
 repository has left are not indexed

A git reset that was killed or failed half-way leaves files that are new in the
revision it was to go to. They are not in git's index, so no later reset takes
them away, and they were indexed with whatever revision came next.
---
 vcs/git.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 27644a9..616832f 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -146,6 +146,12 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		}
 	}
 
+	// Files that are new in a reset that stopped half-way are not known to git,
+	// so that no reset takes them away.
+	if _, err := tryRun("git clean", dir, "git", "clean", "-ffdxq"); err != nil {
+		return "", err
+	}
+
 	return g.HeadRev(dir)
 }
 
-- 
2.43.0


From 30ce7402bdba15dbb1a76e277c9fc1e8147dfae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 46/52] fix: the client crashed on a repository whose address
 has its only slash in front

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index f1770be..65c3936 100644
--- a/client/client.go
+++ b/client/client.go
@@ -46,6 +46,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 3edc075dbdf352a465573549181400df8b22b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 47/52] fix: an index could be published although closing its
 file had failed

---
 codesearch/index/merge.go |  2 +-
 codesearch/index/write.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5907cba..d8e894e 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -224,7 +224,7 @@ func Merge(dst, src1, src2 string) {
 	ix3.writeUint32(nameIndex)
 	ix3.writeUint32(postIndex)
 	ix3.writeString(trailerMagic)
-	ix3.flush()
+	ix3.close()
 
 	os.Remove(nameIndexFile.name)
 	os.Remove(w.postIndexFile.name)
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index e1b03e9..7013913 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -278,7 +278,7 @@ func (ix *IndexWriter) Flush() {
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
-	ix.main.flush()
+	ix.main.close()
 }
 
 // Close closes the index file and removes any temporary files, whether or not
@@ -622,6 +622,15 @@ func (b *bufWriter) flush() {
 	b.buf = b.buf[:0]
 }
 
+// close writes what is left and closes the file. What was written may turn out
+// not to have reached the disk only then.
+func (b *bufWriter) close() {
+	b.flush()
+	if err := b.file.Close(); err != nil {
+		fatalf("closing %s: %v", b.name, err)
+	}
+}
+
 // finish flushes the file to disk and returns an open file ready for reading.
 func (b *bufWriter) finish() *os.File {
 	b.flush()
-- 
2.43.0


From cd649fd0d0bb1305895169e3451be7d7a59c75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 48/52] fix: a watched folder changed and changed back while it
 was indexed kept a wrong index

---
 vcs/local.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/vcs/local.go b/vcs/local.go
index ddf5313..252c1f2 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -77,6 +77,21 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return "", err
 	}
 
+	// The contents alone do not tell that something was changed, and changed
+	// back, while the directory was indexed, so note first when everything was
+	// last modified.
+	h := sha1.New()
+	err = filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
+		_, err = fmt.Fprintf(h, "%s %s %d\n", path, info.Mode(), info.ModTime().UnixNano())
+		return err
+	})
+	if err != nil {
+		return "", err
+	}
+
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
 	files, err := dirhash.DirFiles(dir, "")
@@ -84,9 +99,15 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return "", err
 	}
 
-	return myHash(files, func(name string) (io.ReadCloser, error) {
+	contents, err := myHash(files, func(name string) (io.ReadCloser, error) {
 		return openForHash(filepath.Join(dir, name))
 	})
+	if err != nil {
+		return "", err
+	}
+
+	fmt.Fprintf(h, "%s\n", contents)
+	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
 // Open a file for hashing. Only regular files are indexed, so of all others
-- 
2.43.0


From c94148b637bfaecf60888a3381f32d245c055df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 49/52] fix: a dbpath with the characters of a pattern in it
 had its indexes neither reused nor removed

---
 searcher/searcher.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index c1c747c..0fbc7ff 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 	"sync"
 	"time"
 
@@ -218,14 +219,18 @@ func nextIndexDir(dbpath string) string {
 // Read the refs associated with each of the index dirs
 // in the given dbpath.
 func findExistingRefs(dbpath string) (*foundRefs, error) {
-	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))
+	// not filepath.Glob, to which the name of the dbpath itself may be a pattern.
+	entries, err := os.ReadDir(dbpath)
 	if err != nil {
-		return nil, err
+		log.Printf("failed to list the indexes in %s: %s", dbpath, err)
 	}
 
 	var refs []*index.IndexRef
-	for _, dir := range dirs {
-		r, _ := index.Read(dir)
+	for _, entry := range entries {
+		if !strings.HasPrefix(entry.Name(), "idx-") {
+			continue
+		}
+		r, _ := index.Read(filepath.Join(dbpath, entry.Name()))
 		refs = append(refs, r)
 	}
 
-- 
2.43.0


From 7735c7abe7f6501c17545d71825f3557ba588192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 50/52] fix: a followed branch renamed to one below it, or
 above it, was never followed again

---
 vcs/git.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 616832f..add2bcf 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"net/url"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -130,7 +131,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"--no-tags",
 		"--depth", "1",
 		"origin",
-		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
+		fmt.Sprintf("+%s:%s", targetRef, fetchedRef(targetRef))); err != nil {
 		return "", err
 	}
 
@@ -138,7 +139,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"git",
 		"reset",
 		"--hard",
-		fmt.Sprintf("origin/%s", targetRef)); err != nil {
+		fetchedRef(targetRef)); err != nil {
 		// HEAD stays where it is, and the files have to go with it: a reset that
 		// stopped half-way leaves a mixture.
 		if _, err := tryRun("git reset", dir, "git", "reset", "--hard", "HEAD"); err != nil {
@@ -155,6 +156,13 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 	return g.HeadRev(dir)
 }
 
+// fetchedRef is where the tip of ref is kept. Nothing else has a name there that
+// could be in the way, as that of a former branch "release" is in the way of
+// "release/1.0" among the branches of origin.
+func fetchedRef(ref string) string {
+	return "remotes/hound/" + url.PathEscape(ref)
+}
+
 func (g *GitDriver) targetRef(dir string) string {
 	var targetRef string
 	if g.Ref != "" {
-- 
2.43.0


From d7819dff587078b0a4384d6e27985d05c363025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 51/52] fix: a git repository without a default branch is
 served from master

---
 vcs/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index add2bcf..7864a6d 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -268,8 +268,9 @@ func (d *headBranchDetector) detectRef(dir string) string {
 		return d.last
 	}
 
+	// git says (unknown) if the HEAD of the remote leads to no branch that is there.
 	matches := headBranchRegexp.FindStringSubmatch(output)
-	if len(matches) != 2 {
+	if len(matches) != 2 || matches[1] == "(unknown)" {
 		log.Printf(
 			"could not determine target ref in %s. Will fall back to ref %s",
 			dir,
-- 
2.43.0


From 563da33eae13ad2af7a232f3a89f22ba85ac81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 52/52] fix: a null among the repositories or in the vcs-config
 kept the server from starting

---
 config/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index ba1ed65..0245204 100644
--- a/config/config.go
+++ b/config/config.go
@@ -159,6 +159,10 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			continue
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
@@ -224,7 +228,12 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			// null, which says no more than {}
+			repo = &Repo{}
+			c.Repos[name] = repo
+		}
 		initRepo(repo)
 	}
 
-- 
2.43.0

