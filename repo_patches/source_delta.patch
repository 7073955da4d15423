From 70f5a81d0c0abb9bc2eaf0734ed684a85dd983c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 01/21] fix: do not crash on request paths that are empty or
 have extra slashes

---
 cacher/handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..cb9de3d 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,9 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	// r.URL.Path may be empty or may have extra slashes.
+	// Make it a clean relative path that never goes up.
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From d749291525e37c45a1d9c6d100bf26ed2e8d0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 02/21] fix: reject cache item paths that escape the cache
 directory

---
 cacher/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..399575f 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -216,6 +217,8 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	case p == ".":
 		return ErrBadPath
+	case p == "..", strings.HasPrefix(p, "../"):
+		return ErrBadPath
 	}
 
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
-- 
2.43.0


From ef0d14f6192faa139ccb80af37fde1744d93c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 03/21] fix: keep mirrored files under the storage directory
 even if indices have .. paths

---
 mirror/storage.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..7070661 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -56,6 +56,14 @@ func (s *Storage) Dir() string {
 	return s.dir
 }
 
+// fullpath returns the path of the file for an item path p.
+//
+// Since p may come from a remote index, it is cleaned as a rooted path
+// so that the file always stays under the directory of s.
+func (s *Storage) fullpath(p string) string {
+	return filepath.Join(s.dir, s.prefix, filepath.Clean("/"+p))
+}
+
 // Load loads existing directory contents.
 func (s *Storage) Load() error {
 	infoPath := filepath.Join(s.dir, infoJSON)
@@ -125,7 +133,7 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	s.info[p] = fi
 	s.mu.Unlock()
 
-	fp := filepath.Join(s.dir, s.prefix, filepath.Clean(p))
+	fp := s.fullpath(p)
 	d := filepath.Dir(fp)
 
 	err := os.MkdirAll(d, 0755)
@@ -144,10 +152,10 @@ func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	sha1p := fi.SHA1Path()
 	sha256p := fi.SHA256Path()
 	fpl := []string{
-		filepath.Join(s.dir, s.prefix, filepath.Clean(p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(md5p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(sha1p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(sha256p)),
+		s.fullpath(p),
+		s.fullpath(md5p),
+		s.fullpath(sha1p),
+		s.fullpath(sha256p),
 	}
 
 	s.mu.Lock()
@@ -198,7 +206,7 @@ func (s *Storage) Lookup(fi *apt.FileInfo, byhash bool) (*apt.FileInfo, string)
 		if !ok || !fi.Same(fi2) {
 			return nil, ""
 		}
-		return fi2, filepath.Join(s.dir, s.prefix, filepath.Clean(p))
+		return fi2, s.fullpath(p)
 	}
 
 	if byhash {
@@ -213,5 +221,5 @@ func (s *Storage) Lookup(fi *apt.FileInfo, byhash bool) (*apt.FileInfo, string)
 
 // Open opens the named file and returns it.
 func (s *Storage) Open(p string) (*os.File, error) {
-	return os.Open(filepath.Join(s.dir, s.prefix, filepath.Clean(p)))
+	return os.Open(s.fullpath(p))
 }
-- 
2.43.0


From 9c72936e1f96aa1a1c23daf4edbaba20b128d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 04/21] fix: ignore index entries that refer to items of other
 repositories

---
 cacher/cacher.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..2877b40 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -28,10 +28,21 @@ const (
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
+//
+// Items whose path goes out of prefix are ignored because an index
+// should not affect items in other repositories.
 func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	ret := make([]*apt.FileInfo, 0, len(fil))
 	for _, fi := range fil {
-		ret = append(ret, fi.AddPrefix(prefix))
+		fi = fi.AddPrefix(prefix)
+		if !strings.HasPrefix(fi.Path(), prefix+"/") {
+			log.Warn("ignored item out of prefix", map[string]interface{}{
+				"prefix": prefix,
+				"path":   fi.Path(),
+			})
+			continue
+		}
+		ret = append(ret, fi)
 	}
 	return ret
 }
-- 
2.43.0


From 48344584219025ee5c102bd39af5901c032c7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:55 +0000
Subject: [PATCH 05/21] fix: do not record failed downloads as 200 OK

---
 cacher/cacher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 2877b40..7c1d7e9 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -332,8 +332,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -426,6 +426,10 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+
+	// the result is OK only when the item is actually cached.
+	// Otherwise, Get would retry immediately and endlessly.
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
-- 
2.43.0


From d713f35ee47c04599ee771bd1993bbaf7efbaa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 06/21] fix: do not try to cache an item larger than the cache
 capacity

---
 cacher/cacher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 7c1d7e9..0bf0f57 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -378,6 +378,15 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		return
 	}
 
+	if storage.capacity > 0 && fi.Size() > storage.capacity {
+		// Storage would evict everything including this item.
+		log.Error("too large to be cached", map[string]interface{}{
+			"path": p,
+			"size": fi.Size(),
+		})
+		return
+	}
+
 	var fil []*apt.FileInfo
 
 	if t := strings.SplitN(path.Clean(p), "/", 2); len(t) == 2 && apt.IsMeta(t[1]) {
-- 
2.43.0


From a80ba4afe7cd04b4810f29f1e2f6630edf2a4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 07/21] fix: check the error from fsync of the mirror's
 info.json

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index 7070661..cacce43 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -111,7 +111,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From 5ab1efa64a0f3ec82b577793de65d49c36ca071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 08/21] fix: close the directory when it could not be synced

---
 mirror/dirsync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mirror/dirsync.go b/mirror/dirsync.go
index 040afec..d33f7c4 100644
--- a/mirror/dirsync.go
+++ b/mirror/dirsync.go
@@ -15,6 +15,7 @@ func DirSync(d string) error {
 	}
 	err = f.Sync()
 	if err != nil {
+		f.Close()
 		return err
 	}
 	return f.Close()
-- 
2.43.0


From 63ba97461514538c45ba879dc5e55deb6e8dbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 09/21] fix: do not take consecutive empty lines as the end of
 an index file

---
 apt/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..1e13a68 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,11 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if len(ret) == 0 {
+				// paragraphs may be preceded by any number of empty lines.
+				p.lastField = ""
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
-- 
2.43.0


From 12c539e11932a47e4f91ba9ce410173a0cbd75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 10/21] fix: keep absent checksums absent in JSON round trip of
 FileInfo

---
 apt/fileinfo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..acb0134 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -139,6 +139,15 @@ func (fi *FileInfo) MarshalJSON() ([]byte, error) {
 	return json.Marshal(&fij)
 }
 
+// decodeChecksum decodes a checksum in JSON.
+// Absent checksum is decoded to nil.
+func decodeChecksum(s string) ([]byte, error) {
+	if len(s) == 0 {
+		return nil, nil
+	}
+	return hex.DecodeString(s)
+}
+
 // UnmarshalJSON implements json.Unmarshaler
 func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	var fij fileInfoJSON
@@ -147,15 +156,15 @@ func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	}
 	fi.path = fij.Path
 	fi.size = uint64(fij.Size)
-	md5sum, err := hex.DecodeString(fij.MD5Sum)
+	md5sum, err := decodeChecksum(fij.MD5Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha1sum, err := hex.DecodeString(fij.SHA1Sum)
+	sha1sum, err := decodeChecksum(fij.SHA1Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha256sum, err := hex.DecodeString(fij.SHA256Sum)
+	sha256sum, err := decodeChecksum(fij.SHA256Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-- 
2.43.0


From 62bdf65aa40f872203c8e2cac80c483ec8f68bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 11/21] fix: mirror: do not block forever when max_conns is
 zero

---
 mirror/mirror.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..1a26822 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -83,9 +83,13 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
-	for i := 0; i < c.MaxConns; i++ {
-		sem <- struct{}{}
+	// nil semaphore means no limit.
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+		for i := 0; i < c.MaxConns; i++ {
+			sem <- struct{}{}
+		}
 	}
 
 	transport := clonedTransport(http.DefaultTransport)
@@ -118,6 +122,26 @@ func clonedTransport(rt http.RoundTripper) *http.Transport {
 	return t.Clone()
 }
 
+// acquireSemaphore waits for a free connection slot.
+func (m *Mirror) acquireSemaphore(ctx context.Context) error {
+	if m.semaphore == nil {
+		return ctx.Err()
+	}
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+		return nil
+	}
+}
+
+func (m *Mirror) releaseSemaphore() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 func (m *Mirror) storeLink(fi *apt.FileInfo, fp string, byhash bool) error {
 	if byhash {
 		return m.storage.StoreLinkWithHash(fi, fp)
@@ -304,7 +328,7 @@ func (m *Mirror) download(ctx context.Context,
 	defer func() {
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.releaseSemaphore()
 	}()
 
 	var retries uint
@@ -491,10 +515,9 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	results := make(chan *dlResult, len(releases))
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		err := m.acquireSemaphore(ctx)
+		if err != nil {
+			return nil, false, err
 		}
 
 		go m.download(ctx, p, nil, false, results)
@@ -625,10 +648,9 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		err := m.acquireSemaphore(ctx)
+		if err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From 914bb5b68c3730b794f648fea309e6515ef27643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 12/21] fix: reject negative check_interval and max_conns
 instead of panicking later

---
 cacher/cacher.go | 6 +++++-
 mirror/mirror.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 0bf0f57..a62644e 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -70,7 +70,7 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 {
 		return nil, errors.New("invaild check_interval")
 	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
@@ -95,6 +95,10 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 	capacity := uint64(config.CacheCapacity) * gib
 
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must not be negative")
+	}
+
 	meta := NewStorage(metaDir, 0)
 	cache := NewStorage(cacheDir, capacity)
 
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 1a26822..0a552f2 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -55,6 +55,9 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 	if err := mc.Check(); err != nil {
 		return nil, errors.Wrap(err, id)
 	}
+	if c.MaxConns < 0 {
+		return nil, errors.New("max_conns must not be negative")
+	}
 
 	var currentStorage *Storage
 	curdir, err := filepath.EvalSymlinks(filepath.Join(dir, id))
-- 
2.43.0


From f6112dfae1d454d8e06122c3e9c087f2ff930627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 13/21] fix: reject mirror configurations without url instead
 of panicking later

---
 mirror/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..62a790c 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -56,6 +56,10 @@ func isFlat(suite string) bool {
 
 // Check vaildates the configuration.
 func (mc *MirrConfig) Check() error {
+	if mc.URL.URL == nil {
+		return errors.New("no url")
+	}
+
 	if len(mc.Suites) == 0 {
 		return errors.New("no suites")
 	}
-- 
2.43.0


From aa013d97034c402cbf0aad78748e82f534128580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 14/21] fix: mirror: do not ignore an invalid index when its
 by-hash file is missing

---
 mirror/mirror.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 0a552f2..aaffec2 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -335,6 +335,7 @@ func (m *Mirror) download(ctx context.Context,
 	}()
 
 	var retries uint
+	var mismatch bool
 	targets := []string{p}
 	if byhash && fi != nil {
 		targets = append(targets, fi.SHA256Path())
@@ -405,6 +406,16 @@ RETRY:
 	}
 
 	if r.status != 200 {
+		if !mismatch {
+			return
+		}
+		// p exists but its contents are invalid.  This should not be
+		// reported as a missing file.
+		if len(targets) > 1 {
+			targets = targets[1:]
+			goto RETRY
+		}
+		r.err = errors.New("invalid checksum for " + p)
 		return
 	}
 
@@ -434,6 +445,7 @@ RETRY:
 	}
 
 	if fi != nil && !fi.Same(fi2) {
+		mismatch = true
 		if len(targets) > 1 {
 			targets = targets[1:]
 			log.Warn("try by-hash retrieval", map[string]interface{}{
-- 
2.43.0


From a5ee6863fedcd604971d7d39b7170e582cf7c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 15/21] fix: mirror: close the previous response before
 retrying a download

---
 mirror/mirror.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index aaffec2..fd0544e 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -334,6 +334,14 @@ func (m *Mirror) download(ctx context.Context,
 		m.releaseSemaphore()
 	}()
 
+	var resp *http.Response
+	var err error
+	defer func() {
+		if resp != nil {
+			closeRespBody(resp)
+		}
+	}()
+
 	var retries uint
 	var mismatch bool
 	targets := []string{p}
@@ -348,6 +356,10 @@ RETRY:
 		closeAndRemoveFile(tempfile)
 		tempfile = nil
 	}
+	if resp != nil {
+		closeRespBody(resp)
+		resp = nil
+	}
 
 	// allow interrupts
 	select {
@@ -380,7 +392,7 @@ RETRY:
 		ProtoMinor: 1,
 		Header:     header,
 	}
-	resp, err := m.client.Do(req.WithContext(ctx))
+	resp, err = m.client.Do(req.WithContext(ctx))
 	if err != nil {
 		if retries < httpRetries {
 			retries++
@@ -389,7 +401,6 @@ RETRY:
 		r.err = err
 		return
 	}
-	defer closeRespBody(resp)
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("downloaded", map[string]interface{}{
-- 
2.43.0


From 1b83b907d2f67a3f8e3df6020d914186ca2d42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 16/21] fix: do not refuse to start because of broken meta data
 in the cache

---
 cacher/cacher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index a62644e..5f3596b 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -151,7 +151,11 @@ func NewCacher(config *Config) (*Cacher, error) {
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
+			// do not return; download accepts broken meta data as is.
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From d1a0c3f36be09659361432a42a0492c67a8d0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 17/21] fix: fix a data race between NewCacher and goroutines
 started by it

---
 cacher/cacher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 5f3596b..4c91abe 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -138,6 +138,10 @@ func NewCacher(config *Config) (*Cacher, error) {
 		hostSem:       make(map[string]chan struct{}),
 	}
 
+	// goroutines started by maintMeta may access c.info.
+	c.fiLock.Lock()
+	defer c.fiLock.Unlock()
+
 	metas := meta.ListAll()
 	for _, fi := range metas {
 		f, err := meta.Lookup(fi)
-- 
2.43.0


From 5c0a71d913954d6a36523eacc61f67b54167904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 18/21] fix: do not replace a new checksum with an obsolete one
 after download

---
 cacher/cacher.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 4c91abe..c53841c 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -238,9 +238,9 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.Download(p, nil)
+			ch1 := c.startDownload(p, nil, true)
 			if withGPG {
-				ch2 := c.Download(p+".gpg", nil)
+				ch2 := c.startDownload(p+".gpg", nil, true)
 				<-ch2
 			}
 			<-ch1
@@ -265,6 +265,14 @@ func closeRespBody(r *http.Response) {
 // Users of this method should retry if the item is not cached
 // or invalidated.
 func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
+	return c.startDownload(p, valid, false)
+}
+
+// startDownload implements Download.
+//
+// If refresh is true, the checksum of p known at the end of the download
+// will be replaced with the new one unconditionally.
+func (c *Cacher) startDownload(p string, valid *apt.FileInfo, refresh bool) <-chan struct{} {
 	u := c.um.URL(p)
 	if u == nil {
 		return nil
@@ -281,14 +289,14 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 	ch = make(chan struct{})
 	c.dlChannels[p] = ch
 	well.Go(func(ctx context.Context) error {
-		c.download(ctx, p, u, valid)
+		c.download(ctx, p, u, valid, refresh)
 		return nil
 	})
 	return ch
 }
 
 // download is a goroutine to download an item.
-func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo) {
+func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo, refresh bool) {
 	c.acquireSemaphore(u.Host)
 
 	statusCode := http.StatusInternalServerError
@@ -424,6 +432,18 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	// An index cached during this download may have brought a new checksum
+	// for p.  Do not replace it with the obsolete one.
+	latest, ok := c.info[p]
+	if !refresh && ok && latest != valid && !latest.Same(fi) {
+		log.Warn("downloaded data is already obsolete", map[string]interface{}{
+			"url": u.String(),
+		})
+		// let Get retry with the new checksum.
+		statusCode = http.StatusOK
+		return
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
-- 
2.43.0


From 782b0a74fffbacc2bb7b23f61bc933f6f78c6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 19/21] fix: take the lock in mirror Storage.Load

Load replaces the table of stored files, which all other methods access
only with the lock held.
---
 mirror/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mirror/storage.go b/mirror/storage.go
index cacce43..846d5c5 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -77,6 +77,9 @@ func (s *Storage) Load() error {
 	}
 	defer f.Close()
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	jd := json.NewDecoder(f)
 	err = jd.Decode(&s.info)
 	if err != nil {
-- 
2.43.0


From b5ea2d839b4578ee6af210d16bba2461f048ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 20/21] fix: end the refresh of a Release file at shutdown even
 if its download does not

---
 cacher/cacher.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index c53841c..60ffef2 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -238,12 +238,19 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.startDownload(p, nil, true)
+			chs := []<-chan struct{}{c.startDownload(p, nil, true)}
 			if withGPG {
-				ch2 := c.startDownload(p+".gpg", nil, true)
-				<-ch2
+				chs = append(chs, c.startDownload(p+".gpg", nil, true))
+			}
+			// A channel is nil if the prefix of p is not registered any
+			// longer, and is never closed if the shutdown has begun.
+			for _, ch := range chs {
+				select {
+				case <-ctx.Done():
+					return
+				case <-ch:
+				}
 			}
-			<-ch1
 		}
 	}
 }
-- 
2.43.0


From 73b081b3f0fc89d944865e115211c14467c1bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 21/21] fix: wait for the downloads of Release files when one
 of them fails

---
 mirror/mirror.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index fd0544e..a3a7d04 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -540,13 +540,25 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	releases := m.mc.ReleaseFiles(suite)
 	results := make(chan *dlResult, len(releases))
 
+	// do not leave downloads behind if this returns early on an error.
+	env := well.NewEnvironment(ctx)
+	defer func() {
+		env.Cancel(nil)
+		env.Wait()
+	}()
+
 	for _, p := range releases {
+		// avoid assignment
+		p := p
 		err := m.acquireSemaphore(ctx)
 		if err != nil {
 			return nil, false, err
 		}
 
-		go m.download(ctx, p, nil, false, results)
+		env.Go(func(ctx context.Context) error {
+			m.download(ctx, p, nil, false, results)
+			return nil
+		})
 	}
 
 	byhash := true
-- 
2.43.0

