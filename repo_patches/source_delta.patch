From 7c9a6bcf3bc4bea1ad0e2ec48347edce36876c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 01/33] fix: delta distance of 256 overflowed to zero and
 decoding never ended

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From 628f6c5e017b97159818b162e84f479e2bd010f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 02/33] fix: delta reader swallowed the end of file of its
 source

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9d07ce1 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err //nolint:wrapcheck
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From b34af73bc11322e18ad2812dccf6c50f56993605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 03/33] fix: deriving an AES key overwrote the IV in the coder
 properties

---
 internal/aes7z/key.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..5a50049 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,9 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// Copy the salt, otherwise appending to it would overwrite whatever
+	// follows it in the coder properties it was sliced from
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From 185bac41755fc566b3d5ddb869dfc7de7da9c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:32 +0000
Subject: [PATCH 04/33] fix: header byte delivered together with the end of
 file was dropped

---
 internal/util/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..c7c0085 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -46,15 +46,16 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
-		return 0, err //nolint:wrapcheck
+	if n > 0 {
+		// A reader may return the last byte along with io.EOF
+		return b[0], nil
 	}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
+	if err != nil {
+		return 0, err //nolint:wrapcheck
 	}
 
-	return b[0], nil
+	return 0, io.ErrNoProgress
 }
 
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
-- 
2.43.0


From a784088a5c0bf94b1ed560c721fb031a26377d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 05/33] fix: coder id or properties across a read boundary were
 refused

---
 types.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/types.go b/types.go
index dfeb2b2..b283e89 100644
--- a/types.go
+++ b/types.go
@@ -47,7 +47,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -269,12 +268,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: ReadFull error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -297,14 +292,13 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		// The buffer grows with the data that is actually there
+		var b bytes.Buffer
+		if _, err := io.CopyN(&b, r, int64(size)); err != nil { //nolint:gosec
+			return nil, fmt.Errorf("readCoder: CopyN error: %w", err)
 		}
+
+		c.properties = b.Bytes()
 	}
 
 	return c, nil
-- 
2.43.0


From 346488b3524433fbddc0545c87d38c189a3225db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 06/33] fix: every file was mapped to the first folder without
 sub-streams info

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index bb6ddca..029e5c1 100644
--- a/struct.go
+++ b/struct.go
@@ -212,7 +212,7 @@ func (si *streamsInfo) Folders() int {
 
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
-		folder  int
+		folder         = file // Each folder is one file unless there are sub-streams
 		streams uint64 = 1
 		crc     uint32
 	)
-- 
2.43.0


From 4eb3cd93d6b58a60cf903b0f281a2c25e34d1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 07/33] fix: sub-stream checksums were misread next to folder
 checksums

---
 struct.go | 11 ++++++++---
 types.go  | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/struct.go b/struct.go
index 029e5c1..ca96849 100644
--- a/struct.go
+++ b/struct.go
@@ -186,8 +186,13 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+func (u *unpackInfo) hasDigest(folder int) bool {
+	return folder < len(u.defined) && u.defined[folder]
 }
 
 type subStreamsInfo struct {
@@ -233,7 +238,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index b283e89..e0edb2a 100644
--- a/types.go
+++ b/types.go
@@ -185,14 +185,14 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, count)
@@ -200,12 +200,12 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 	for i := range defined {
 		if defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -241,7 +241,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -460,7 +460,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -477,9 +477,39 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	return u, nil
 }
 
+// readSubStreamsCRC reads the checksums of the sub-streams. A folder with only
+// one stream and a known checksum has no checksum stored here.
+func readSubStreamsCRC(r util.Reader, streams []uint64, u *unpackInfo) ([]uint32, error) {
+	unknown := uint64(0)
+
+	for i, n := range streams {
+		if n != 1 || !u.hasDigest(i) {
+			unknown += n
+		}
+	}
+
+	stored, _, err := readCRC(r, unknown)
+	if err != nil {
+		return nil, err
+	}
+
+	digest := make([]uint32, 0, len(stored))
+
+	for i, n := range streams {
+		if n == 1 && u.hasDigest(i) {
+			digest = append(digest, u.digest[i])
+		} else {
+			digest = append(digest, stored[:n]...)
+			stored = stored[n:]
+		}
+	}
+
+	return digest, nil
+}
+
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
-	s := new(subStreamsInfo)
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
+	s, folder := new(subStreamsInfo), u.folder
 
 	id, err := r.ReadByte()
 	if err != nil {
@@ -545,7 +575,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		if s.digest, err = readSubStreamsCRC(r, s.streams, u); err != nil {
 			return nil, err
 		}
 
@@ -598,7 +628,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 5409ce1f9313f20817d6d64597b5c11bad3e5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:31 +0000
Subject: [PATCH 08/33] fix: inconsistent sub-stream counts or sizes and
 surplus files panicked

---
 reader.go |  4 +++-
 struct.go | 18 +++++++++++++++---
 types.go  | 53 ++++++++++++++++++++++++++++++++++-------------------
 3 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..d5530f0 100644
--- a/reader.go
+++ b/reader.go
@@ -542,7 +542,9 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 
 			if !fh.isEmptyStream && !fh.isEmptyFile {
-				f.folder, _, _ = header.streamsInfo.FileFolderAndSize(j)
+				if f.folder, _, _, err = header.streamsInfo.FileFolderAndSize(j); err != nil {
+					return err
+				}
 
 				// Make an exported copy of the folder index
 				f.Stream = f.folder
diff --git a/struct.go b/struct.go
index ca96849..6abddcf 100644
--- a/struct.go
+++ b/struct.go
@@ -215,7 +215,11 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
-func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
+func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error) {
+	if si == nil || si.unpackInfo == nil {
+		return 0, 0, 0, errMissingUnpackInfo
+	}
+
 	var (
 		folder         = file // Each folder is one file unless there are sub-streams
 		streams uint64 = 1
@@ -223,6 +227,10 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	)
 
 	if si.subStreamsInfo != nil {
+		if file >= len(si.subStreamsInfo.size) {
+			return 0, 0, 0, errTooManyFiles
+		}
+
 		total := uint64(0)
 
 		for folder, streams = range si.subStreamsInfo.streams {
@@ -237,15 +245,19 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		}
 	}
 
+	if folder >= len(si.unpackInfo.folder) {
+		return 0, 0, 0, errTooManyFiles
+	}
+
 	if streams == 1 {
 		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc, nil
 	}
 
-	return folder, si.subStreamsInfo.size[file], crc
+	return folder, si.subStreamsInfo.size[file], crc, nil
 }
 
 func (si *streamsInfo) folderOffset(folder int) int64 {
diff --git a/types.go b/types.go
index e0edb2a..679631a 100644
--- a/types.go
+++ b/types.go
@@ -53,6 +53,8 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidSubStreams      = errors.New("sevenzip: invalid sub-streams")
+	errTooManyFiles           = errors.New("sevenzip: more files than streams")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -519,7 +521,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	s.streams = make([]uint64, len(folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
-			if s.streams[i], err = readUint64(r); err != nil {
+			if s.streams[i], err = readUint64Bounded(r, false); err != nil {
 				return nil, err
 			}
 		}
@@ -544,30 +546,38 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 		return nil, err
 	}
 
-	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+	s.size = make([]uint64, 0, min(files, 1024))
+	hasSizes := id == idSize
 
-		for i := range s.streams {
-			if s.streams[i] == 0 {
-				continue
-			}
+	for i := range s.streams {
+		if s.streams[i] == 0 {
+			continue
+		}
 
-			total := uint64(0)
+		remaining := folder[i].unpackSize()
 
-			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
-					return nil, err
-				}
+		for j := uint64(1); j < s.streams[i]; j++ {
+			if !hasSizes {
+				return nil, errInvalidSubStreams
+			}
 
-				total += s.size[k]
-				k++
+			size, err := readUint64(r)
+			if err != nil {
+				return nil, err
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
-			k++
+			if size > remaining {
+				return nil, errInvalidSubStreams
+			}
+
+			s.size = append(s.size, size)
+			remaining -= size
 		}
 
+		s.size = append(s.size, remaining)
+	}
+
+	if hasSizes {
 		id, err = r.ReadByte()
 		if err != nil {
 			return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
@@ -963,7 +973,7 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
@@ -974,7 +984,12 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
-		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
+		_, size, crc, err := h.streamsInfo.FileFolderAndSize(j)
+		if err != nil {
+			return nil, err
+		}
+
+		h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = size, crc
 		j++
 	}
 
-- 
2.43.0


From cebb7096811e47a664dcb2cfb97dc7348a3f3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:31 +0000
Subject: [PATCH 09/33] fix: inconsistent bind pairs and packed streams
 panicked

---
 struct.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 types.go  | 18 +++++++++++++++---
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 6abddcf..604e0fe 100644
--- a/struct.go
+++ b/struct.go
@@ -90,6 +90,34 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+// valid reports whether each input stream is fed by exactly one packed or
+// output stream, and no output stream feeds more than one input stream.
+func (f *folder) valid() bool {
+	if uint64(len(f.bindPair))+uint64(len(f.packed)) != f.in {
+		return false
+	}
+
+	in, out := make([]bool, f.in), make([]bool, f.out)
+
+	for _, bp := range f.bindPair {
+		if bp.in >= f.in || in[bp.in] || bp.out >= f.out || out[bp.out] {
+			return false
+		}
+
+		in[bp.in], out[bp.out] = true, true
+	}
+
+	for _, i := range f.packed {
+		if i >= f.in || in[i] {
+			return false
+		}
+
+		in[i] = true
+	}
+
+	return true
+}
+
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
@@ -215,6 +243,25 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// valid reports whether there is a packed stream for each of the ones that the
+// folders read from.
+func (si *streamsInfo) valid() bool {
+	if si.unpackInfo == nil {
+		return true
+	}
+
+	streams, packed := 0, 0
+	if si.packInfo != nil {
+		streams = len(si.packInfo.size)
+	}
+
+	for _, f := range si.unpackInfo.folder {
+		packed += len(f.packed)
+	}
+
+	return packed <= streams
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error) {
 	if si == nil || si.unpackInfo == nil {
 		return 0, 0, 0, errMissingUnpackInfo
diff --git a/types.go b/types.go
index 679631a..e9b0ec7 100644
--- a/types.go
+++ b/types.go
@@ -53,6 +53,7 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidPackedStreams   = errors.New("sevenzip: fewer packed streams than the folders need")
 	errInvalidSubStreams      = errors.New("sevenzip: invalid sub-streams")
 	errTooManyFiles           = errors.New("sevenzip: more files than streams")
 )
@@ -372,14 +373,21 @@ func readFolder(r util.Reader) (*folder, error) {
 			}
 		}
 	} else {
-		f.packed = make([]uint64, f.packedStreams)
-		for i := range f.packedStreams {
-			if f.packed[i], err = readUint64(r); err != nil {
+		f.packed = make([]uint64, 0, min(f.packedStreams, 16))
+		for range f.packedStreams {
+			packed, err := readUint64(r)
+			if err != nil {
 				return nil, err
 			}
+
+			f.packed = append(f.packed, packed)
 		}
 	}
 
+	if !f.valid() {
+		return nil, errInvalidBindPair
+	}
+
 	return f, nil
 }
 
@@ -652,6 +660,10 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if !s.valid() {
+		return nil, errInvalidPackedStreams
+	}
+
 	return s, nil
 }
 
-- 
2.43.0


From 10e569f0083ffeefe80dd23392251e6c4ae12036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:31 +0000
Subject: [PATCH 10/33] fix: error setting the password lost the encryption
 hint

---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 604e0fe..ca9020e 100644
--- a/struct.go
+++ b/struct.go
@@ -369,14 +369,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
-
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From 51d18cbc22ce7c61ad73ffbf86340fc7a2328e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 11/33] fix: reading a member after closing it panicked

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index d5530f0..7f4dbff 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, iofs.ErrClosed
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From c168adfbcca75c4aae865bad57ded0db52d176a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 12/33] fix: opening an empty file through the file system view
 panicked

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 7f4dbff..920cc23 100644
--- a/reader.go
+++ b/reader.go
@@ -153,7 +153,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From 73969c793366b82582cb49140cc02e0dece13e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 13/33] fix: counts in a small header could allocate gigabytes
 of memory

---
 struct.go |  11 +++-
 types.go  | 159 ++++++++++++++++++++++++++++--------------------------
 2 files changed, 94 insertions(+), 76 deletions(-)

diff --git a/struct.go b/struct.go
index ca9020e..2451084 100644
--- a/struct.go
+++ b/struct.go
@@ -220,7 +220,7 @@ type unpackInfo struct {
 }
 
 func (u *unpackInfo) hasDigest(folder int) bool {
-	return folder < len(u.defined) && u.defined[folder]
+	return folder < len(u.digest) && (u.defined == nil || u.defined[folder])
 }
 
 type subStreamsInfo struct {
@@ -262,6 +262,15 @@ func (si *streamsInfo) valid() bool {
 	return packed <= streams
 }
 
+// streams returns the number of files the folders hold.
+func (si *streamsInfo) streams() uint64 {
+	if si == nil || si.subStreamsInfo == nil {
+		return uint64(si.Folders()) //nolint:gosec
+	}
+
+	return uint64(len(si.subStreamsInfo.size))
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error) {
 	if si == nil || si.unpackInfo == nil {
 		return 0, 0, 0, errMissingUnpackInfo
diff --git a/types.go b/types.go
index e9b0ec7..48bb77b 100644
--- a/types.go
+++ b/types.go
@@ -144,6 +144,7 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if all of the values are defined.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -158,12 +159,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -198,14 +194,18 @@ func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 		return nil, nil, err
 	}
 
-	crcs := make([]uint32, count)
+	crcs := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var crc uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs = append(crcs, crc)
 	}
 
 	return crcs, defined, nil
@@ -456,11 +456,8 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			return nil, err
 		}
 
-		f.size = make([]uint64, total)
-		for i := range f.size {
-			if f.size[i], err = readUint64(r); err != nil {
-				return nil, err
-			}
+		if f.size, err = readSizes(r, total); err != nil {
+			return nil, err
 		}
 	}
 
@@ -696,17 +693,21 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113
 	}
 
-	times := make([]time.Time, count)
+	times := make([]time.Time, 0, min(count, 1024))
+
+	for i := range count {
+		var t time.Time
 
-	for i := range defined {
-		if defined[i] {
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			t = time.Unix(0, ft.Nanoseconds()).UTC()
 		}
+
+		times = append(times, t)
 	}
 
 	return times, nil
@@ -756,7 +757,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
@@ -802,21 +803,25 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, errors.New("sevenzip: TODO readAttributes external") //nolint:err113
 	}
 
-	attributes := make([]uint32, count)
+	attributes := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var attribute uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &attribute); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
 		}
+
+		attributes = append(attributes, attribute)
 	}
 
 	return attributes, nil
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func readFilesInfo(r util.Reader) (*filesInfo, error) {
+func readFilesInfo(r util.Reader, si *streamsInfo) (*filesInfo, error) {
 	f := new(filesInfo)
 
 	files, err := readUint64Bounded(r, true)
@@ -824,9 +829,13 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
-	f.file = make([]FileHeader, files)
-
-	var emptyStreams uint64
+	var (
+		emptyStream, emptyFile      []bool
+		created, accessed, modified []time.Time
+		names                       []string
+		attributes                  []uint32
+		emptyStreams                uint64
+	)
 
 	for {
 		property, err := r.ReadByte()
@@ -845,77 +854,41 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 
 		switch property {
 		case idEmptyStream:
-			empty, err := readBool(r, files)
-			if err != nil {
+			if emptyStream, err = readBool(r, files); err != nil {
 				return nil, err
 			}
 
-			for i := range f.file {
-				f.file[i].isEmptyStream = empty[i]
+			emptyStreams = 0
 
-				if empty[i] {
+			for _, empty := range emptyStream {
+				if empty {
 					emptyStreams++
 				}
 			}
 		case idEmptyFile:
-			empty, err := readBool(r, emptyStreams)
-			if err != nil {
+			if emptyFile, err = readBool(r, emptyStreams); err != nil {
 				return nil, err
 			}
-
-			j := 0
-
-			for i := range f.file {
-				if f.file[i].isEmptyStream {
-					f.file[i].isEmptyFile = empty[j]
-					j++
-				}
-			}
 		case idCTime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if created, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Created = t
-			}
 		case idATime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if accessed, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Accessed = t
-			}
 		case idMTime:
-			times, err := readTimes(r, files)
-			if err != nil {
+			if modified, err = readTimes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, t := range times {
-				f.file[i].Modified = t
-			}
 		case idName:
-			names, err := readNames(r, files, length)
-			if err != nil {
+			if names, err = readNames(r, files, length); err != nil {
 				return nil, err
 			}
-
-			for i, n := range names {
-				f.file[i].Name = n
-			}
 		case idWinAttributes:
-			attributes, err := readAttributes(r, files)
-			if err != nil {
+			if attributes, err = readAttributes(r, files); err != nil {
 				return nil, err
 			}
-
-			for i, a := range attributes {
-				f.file[i].Attributes = a
-			}
 		case idStartPos:
 			return nil, errors.New("sevenzip: TODO idStartPos") //nolint:err113
 		case idDummy:
@@ -927,6 +900,42 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		}
 	}
 
+	// Only allocate as many files as the streams and properties can account for
+	if files-emptyStreams > si.streams() {
+		return nil, errTooManyFiles
+	}
+
+	f.file = make([]FileHeader, files)
+	j := 0
+
+	for i := range f.file {
+		if emptyStream != nil && emptyStream[i] {
+			f.file[i].isEmptyStream = true
+			f.file[i].isEmptyFile = j < len(emptyFile) && emptyFile[j]
+			j++
+		}
+
+		if created != nil {
+			f.file[i].Created = created[i]
+		}
+
+		if accessed != nil {
+			f.file[i].Accessed = accessed[i]
+		}
+
+		if modified != nil {
+			f.file[i].Modified = modified[i]
+		}
+
+		if names != nil {
+			f.file[i].Name = names[i]
+		}
+
+		if attributes != nil {
+			f.file[i].Attributes = attributes[i]
+		}
+	}
+
 	return f, nil
 }
 
@@ -971,7 +980,7 @@ func readHeader(r util.Reader) (*header, error) {
 	}
 
 	if id == idFilesInfo {
-		if h.filesInfo, err = readFilesInfo(r); err != nil {
+		if h.filesInfo, err = readFilesInfo(r, h.streamsInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 67818b633a7af5161f628b8a8b441d0c129a3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:15 +0000
Subject: [PATCH 14/33] fix: spare capacity behind coder properties was shared
 between decoders

---
 types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 48bb77b..f20eed6 100644
--- a/types.go
+++ b/types.go
@@ -301,7 +301,8 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, fmt.Errorf("readCoder: CopyN error: %w", err)
 		}
 
-		c.properties = b.Bytes()
+		// Decoders may append to the properties so there is no spare capacity
+		c.properties = b.Bytes()[:size:size]
 	}
 
 	return c, nil
-- 
2.43.0


From e0f1720604ca9324a13fe528e8e7c264ff58759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 15/33] fix: data after an encoded header escaped its checksum

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 920cc23..a190165 100644
--- a/reader.go
+++ b/reader.go
@@ -521,6 +521,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 		}
 
+		// As above, any more data is not covered by the checksum so far
+		if n, _ := io.CopyN(io.Discard, fr, 1); n != 0 {
+			return errTooMuch
+		}
+
 		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
 			return errChecksum
 		}
-- 
2.43.0


From f8217298bd5bc98753b5a29936c74d104581fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 16/33] fix: timestamps outside the years 1678 to 2262 were
 listed wrong

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index f20eed6..8c33696 100644
--- a/types.go
+++ b/types.go
@@ -665,6 +665,11 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	return s, nil
 }
 
+const (
+	ticksPerSecond = 10_000_000     // 100 ns intervals
+	secondsTo1970  = 11_644_473_600 // since the 1st of January 1601
+)
+
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -705,7 +710,9 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			t = time.Unix(0, ft.Nanoseconds()).UTC()
+			// Count in seconds, nanoseconds only cover the years 1678 to 2262
+			ticks := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+			t = time.Unix(int64(ticks/ticksPerSecond)-secondsTo1970, int64(ticks%ticksPerSecond)*100).UTC() //nolint:gosec
 		}
 
 		times = append(times, t)
-- 
2.43.0


From 95617e0971b18e8aa3dca43262ba043a66b6e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 17/33] fix: names longer than 64 KiB were refused

---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index 8c33696..bd50412 100644
--- a/types.go
+++ b/types.go
@@ -763,6 +763,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
+	scanner.Buffer(nil, math.MaxInt) // Otherwise names are limited to 64 KiB
 	scanner.Split(splitNull)
 
 	names, i := make([]string, 0, min(count, 1024)), uint64(0)
-- 
2.43.0


From ddcd92574ca6183e016de7eba864b836e26d3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 18/33] fix: stream refused by the pool was never closed

---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From 84033e1828ae2c866035b3c65f989421553389b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 19/33] fix: file system view listed entries named dot and
 dot-dot

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index a190165..8d832b2 100644
--- a/reader.go
+++ b/reader.go
@@ -674,6 +674,10 @@ func toValidName(name string) string {
 		p = p[len("../"):]
 	}
 
+	if p == "." || p == ".." {
+		return "" // Nothing is left to name the file with
+	}
+
 	return p
 }
 
-- 
2.43.0


From 3ceb520e9ceeb0ecee79379134b3cdaa65dcddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 20/33] fix: file system view entries went by another name than
 they open with

---
 reader.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8d832b2..8f31568 100644
--- a/reader.go
+++ b/reader.go
@@ -81,9 +81,14 @@ type fileReader struct {
 	rc util.SizeReadSeekCloser
 	f  *File
 	n  int64
+	e  *fileListEntry
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
+	if fr.e != nil {
+		return listedFileInfo{headerFileInfo{&fr.f.FileHeader}, fr.e}, nil
+	}
+
 	return headerFileInfo{&fr.f.FileHeader}, nil
 }
 
@@ -337,7 +342,10 @@ func (z *Reader) Open(name string) (iofs.File, error) {
 		return nil, err
 	}
 
-	return rc.(iofs.File), nil //nolint:forcetypeassert
+	fr := rc.(*fileReader) //nolint:forcetypeassert
+	fr.e = e
+
+	return fr, nil
 }
 
 func (z *Reader) folderReader(si *streamsInfo, f int) (*folderReadCloser, uint32, bool, error) {
@@ -659,12 +667,22 @@ func (e *fileListEntry) stat() (fileInfoDirEntry, error) {
 	}
 
 	if !e.isDir {
-		return headerFileInfo{&e.file.FileHeader}, nil
+		return listedFileInfo{headerFileInfo{&e.file.FileHeader}, e}, nil
 	}
 
 	return e, nil
 }
 
+// listedFileInfo is the file info of a file in the file system view, named as
+// it is listed there.
+type listedFileInfo struct {
+	headerFileInfo
+	e *fileListEntry
+}
+
+func (fi listedFileInfo) Name() string                 { return fi.e.Name() }
+func (fi listedFileInfo) Info() (iofs.FileInfo, error) { return fi, nil }
+
 func toValidName(name string) string {
 	name = strings.ReplaceAll(name, `\`, `/`)
 
-- 
2.43.0


From a6ac99877499da5fe63e1150fd0f3915006c7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 21/33] fix: empty volume hid the volumes after it

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8f31568..3cd2496 100644
--- a/reader.go
+++ b/reader.go
@@ -248,7 +248,10 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
 			}
 
-			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
+			// Reading stops at an empty volume
+			if size := info.Size(); size > 0 {
+				sr = append(sr, io.NewSectionReader(f, 0, size))
+			}
 		}
 
 		mr := readerutil.NewMultiReaderAt(sr...)
-- 
2.43.0


From 4d6fff40e11231cdc849c78d1fc3cab75167a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 22/33] fix: self-extracting archive in multiple volumes was
 refused

---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 3cd2496..8590852 100644
--- a/reader.go
+++ b/reader.go
@@ -384,7 +384,8 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// Multiple volumes end with io.ErrUnexpectedEOF
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
-- 
2.43.0


From a2d1580742733576d3a8048b35421dd5dcff65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 23/33] fix: lzma: truncated stream was reported as a wrapped
 end of file

---
 internal/lzma/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..3899c6f 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -95,7 +95,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 		b, err = m.br.ReadByte()
 	}
 
-	if err != nil {
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi byte reading: %w", err)
 	}
 
@@ -104,7 +104,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 
 func (m *multiByteReader) Read(p []byte) (int, error) {
 	n, err := m.mr.Read(p)
-	if err != nil {
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi reading: %w", err)
 	}
 
-- 
2.43.0


From d294bfe24cc1216fe596ac4a910a0cb8d14331f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 24/33] fix: lzma: missing properties were read from the packed
 stream

---
 internal/lzma/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index 3899c6f..6677ace 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -17,8 +17,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("lzma: already closed")
-	errNeedOneReader = errors.New("lzma: need exactly one reader")
+	errAlreadyClosed          = errors.New("lzma: already closed")
+	errNeedOneReader          = errors.New("lzma: need exactly one reader")
+	errInsufficientProperties = errors.New("lzma: not enough properties")
 )
 
 func (rc *readCloser) Close() error {
@@ -54,6 +55,10 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errNeedOneReader
 	}
 
+	if len(p) != 5 {
+		return nil, errInsufficientProperties
+	}
+
 	h := bytes.NewBuffer(p)
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-- 
2.43.0


From 6403ee4a39518269c4d0a22bd7f25b9f93b0acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 25/33] fix: ppmd: second close was not an error

---
 internal/ppmd/reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..5908395 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -22,12 +22,13 @@ type readCloser struct {
 }
 
 func (rc *readCloser) Close() error {
-	var err error
-	if rc.c != nil {
-		err = rc.c.Close()
-		rc.c, rc.r = nil, nil
+	if rc.c == nil || rc.r == nil {
+		return errAlreadyClosed
 	}
 
+	err := rc.c.Close()
+	rc.c, rc.r = nil, nil
+
 	if err != nil {
 		return fmt.Errorf("ppmd: error closing: %w", err)
 	}
-- 
2.43.0


From da1dc43559423f71edcc00ebd9a2d992e8e60189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 26/33] fix: deflate: source was closed twice after a failed
 read

---
 internal/deflate/reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/deflate/reader.go b/internal/deflate/reader.go
index e02a2cd..a994350 100644
--- a/internal/deflate/reader.go
+++ b/internal/deflate/reader.go
@@ -29,13 +29,15 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
-	if err := errors.Join(rc.fr.Close(), rc.c.Close()); err != nil {
-		return fmt.Errorf("deflate: error closing: %w", err)
-	}
+	err := errors.Join(rc.fr.Close(), rc.c.Close())
 
 	flateReaderPool.Put(rc.fr)
 	rc.c, rc.fr = nil, nil
 
+	if err != nil {
+		return fmt.Errorf("deflate: error closing: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d76006f51edd03eaccf2ade6a8af44d14e99244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 27/33] fix: delta: bytes read along with an error were not
 decoded

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 9d07ce1..1eb812c 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -44,7 +44,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.rc.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		return n, fmt.Errorf("delta: error reading: %w", err)
+		err = fmt.Errorf("delta: error reading: %w", err)
 	}
 
 	var (
-- 
2.43.0


From aca464075f83ae85b38912e86fca0447d2407e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 28/33] fix: member stream was reused after a failed read

---
 reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8590852..607e660 100644
--- a/reader.go
+++ b/reader.go
@@ -82,6 +82,8 @@ type fileReader struct {
 	f  *File
 	n  int64
 	e  *fileListEntry
+
+	failed bool
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -113,6 +115,8 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	fr.n -= int64(n)
 
 	if err != nil && !errors.Is(err, io.EOF) {
+		fr.failed = true
+
 		e := &ReadError{
 			Err: err,
 		}
@@ -137,7 +141,7 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	if fr.failed || offset == fr.rc.Size() { // Broken or EOF reached
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
-- 
2.43.0


From fa0e122af374c748c875bc96947ad538b134d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 29/33] fix: zstd: source was read by the decoder after it was
 closed

---
 internal/zstd/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..ea4d533 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,11 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// Wait for the decoder's goroutines, they read from what is closed next
+	if err := rc.r.Reset(nil); err != nil {
+		return fmt.Errorf("zstd: error resetting: %w", err)
+	}
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0


From e68cc9d112ecfbdfd6ef65c5746ae4e97ac53fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 30/33] fix: ppmd: decoder panicked on corrupt data

---
 internal/ppmd/reader.go | 43 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 5908395..f3c3567 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"runtime"
 
 	"github.com/stangelandcl/ppmd"
 )
@@ -14,11 +15,31 @@ var (
 	errAlreadyClosed          = errors.New("ppmd: already closed")
 	errNeedOneReader          = errors.New("ppmd: need exactly one reader")
 	errInsufficientProperties = errors.New("ppmd: not enough properties")
+	errCorrupt                = errors.New("ppmd: corrupt data")
 )
 
 type readCloser struct {
-	c io.Closer
-	r io.Reader
+	c   io.Closer
+	r   io.Reader
+	err error
+}
+
+// recoverCorrupt turns a runtime panic in the decoder, whose model does not
+// check what it computes from corrupt data, into an error.
+func recoverCorrupt(err *error) {
+	if r := recover(); r != nil {
+		if _, ok := r.(runtime.Error); !ok {
+			panic(r)
+		}
+
+		*err = errCorrupt
+	}
+}
+
+func (rc *readCloser) read(p []byte) (n int, err error) {
+	defer recoverCorrupt(&err)
+
+	return rc.r.Read(p) //nolint:wrapcheck
 }
 
 func (rc *readCloser) Close() error {
@@ -41,7 +62,15 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
+	if rc.err != nil {
+		return 0, rc.err
+	}
+
+	n, err := rc.read(p)
+	if errors.Is(err, errCorrupt) {
+		rc.err = err
+	}
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("ppmd: error reading: %w", err)
 	}
@@ -49,6 +78,12 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
+func newReader(r io.Reader, order, memory, uncompressedSize int) (pr ppmd.Reader, err error) {
+	defer recoverCorrupt(&err)
+
+	return ppmd.NewH7zReader(r, order, memory, uncompressedSize) //nolint:wrapcheck
+}
+
 // NewReader returns a new PPMD io.ReadCloser.
 func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
@@ -62,7 +97,7 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+	pr, err := newReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
-- 
2.43.0


From 9aad4341ef5f3b2786bd94acce5ae8d7928f384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 31/33] fix: brotli: streams shorter than the frame header were
 refused

---
 internal/brotli/reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..80d8560 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -80,8 +80,10 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	// The 7-Zip Brotli compressor adds a 16 byte frame to the beginning of
 	// the data which will confuse a pure Brotli implementation. Read it
-	// but keep a copy so we can add it back if it doesn't look right
-	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
+	// but keep a copy so we can add it back if it doesn't look right. A pure
+	// Brotli stream can be shorter than the frame
+	err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr)
+	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
 		if !errors.Is(err, io.EOF) {
 			err = fmt.Errorf("brotli: error reading frame: %w", err)
 		}
@@ -93,7 +95,7 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
+	if err == nil && hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
 		reader = readers[0]
 	} else {
 		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
-- 
2.43.0


From 66ee9ded2bb05c6e7bb82b6e75b425f68dfc2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 32/33] fix: lzma2: the largest dictionary size was refused

---
 internal/lzma2/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index 59cca7b..adb668a 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -58,12 +58,13 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errInsufficientProperties
 	}
 
-	if p[0] > 40 {
+	dictCap, err := lzma.DecodeDictCap(p[0])
+	if err != nil {
 		return nil, errInvalidProperties
 	}
 
 	config := lzma.Reader2Config{
-		DictCap: (2 | (int(p[0]) & 1)) << (p[0]/2 + 11), // This gem came from Lzma2Dec.c
+		DictCap: int(dictCap),
 	}
 
 	if err := config.Verify(); err != nil {
-- 
2.43.0


From 32f7bd3ef4bfb77d3d1951b38049455b2f037ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 33/33] fix: lzma: dictionary sizes of 2 GB and more were
 refused

---
 internal/lzma/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index 6677ace..02d9009 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/ulikunitz/xz/lzma"
 )
@@ -62,7 +63,12 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	h := bytes.NewBuffer(p)
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-	lr, err := lzma.NewReader(multiReader(h, readers[0]))
+	// The default refuses dictionaries of 2 GB and more
+	config := lzma.ReaderConfig{
+		DictCap: int(min(int64(lzma.MaxDictCap), math.MaxInt)),
+	}
+
+	lr, err := config.NewReader(multiReader(h, readers[0]))
 	if err != nil {
 		return nil, fmt.Errorf("lzma: error creating reader: %w", err)
 	}
-- 
2.43.0

