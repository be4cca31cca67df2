From 6fd054c16f05ea9dd21ef7b8df71ae26ff6ce95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/69] fix: make DecompressRLERecursive decompress

It was a copy of CompressRLERecursive, so recursive run-length data could not
be turned back into the original.
---
 utilities/compression/rle8.go | 72 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..ac4f6e8 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,59 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		// Every byte we hit here stands for itself.
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. A repeat count follows: it's
+		// the sum of all the bytes up to and including the first one that isn't
+		// 255.
+		for {
+			countByte, err := source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: incomplete repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(lastByteRead),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err := output.Write(bytes.Repeat([]byte{currentByte}, int(countByte)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
 			}
+			totalBytesWritten += int64(n)
 
-			totalBytesWritten++
+			if countByte != 255 {
+				break
+			}
 		}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
-		}
+		// Reset the last byte read since we're done with this group.
+		lastByteRead = -1
 	}
 }
-- 
2.43.0


From 474a8829188b9225f0b3fc67e1c6cdc63a1433b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 02/69] fix: BlockCache.ReadAt must return the number of bytes
 it read

It returned whole blocks, i.e. more than len(buffer), for partial blocks.
---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..cd72cc4 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -389,8 +389,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From 8fb8485835df9be78df16f37209b77c68853f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 03/69] fix: flushing or loading an empty BlockCache is not an
 error

---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index cd72cc4..14912d1 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -356,12 +356,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From 0deb34e8028499337fd464dd80ce68da8a5850b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 04/69] fix: integer overflow in BlockCache bounds checks

Huge block counts or sizes wrapped around and passed the check.
---
 file_systems/common/blockcache/blockcache.go | 25 +++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 14912d1..d733194 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -220,26 +220,33 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
 // starting from block `start`. If not, it returns an error describing the exact
 // conditions. If no error would occur, this returns nil.
 func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) error {
-	numBlocks := cache.GetMinBlocksForSize(bufferSize)
+	return cache.checkBlockRange(start, cache.GetMinBlocksForSize(bufferSize))
+}
 
+// checkBlockRange verifies that `numBlocks` blocks can be accessed in the cache
+// starting from block `start`.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, numBlocks uint) error {
 	if uint(start) >= cache.totalBlocks {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
-				"can't access %d bytes (%d blocks) starting at block %d; requested"+
-					" range not in [0, %d)",
-				bufferSize,
+				"can't access %d blocks starting at block %d; requested range not"+
+					" in [0, %d)",
 				numBlocks,
 				start,
 				cache.totalBlocks,
@@ -285,7 +292,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -322,7 +329,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -477,7 +484,7 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2256d6d1628fc5afce1cd444af3aa1bfb6f2acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 05/69] fix: marking a block dirty must not discard its stored
 contents

A block that hadn't been loaded yet was flushed as zeros.
---
 file_systems/common/blockcache/blockcache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index d733194..f6dfa45 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -484,7 +484,8 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	// The blocks are going to be written out, so their data must be present.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 99d4cf606e062376a4e5073760f22f0f9bfbe2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 06/69] fix: blocks added to a resized stream-backed BlockCache
 can't be flushed

---
 file_systems/common/blockcache/blockcache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index f6dfa45..ec7aa0e 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -150,7 +150,12 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				// The bounds check in runCb must use the new size from now on.
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From 989a798a2805fffb8edef0cc505daa7ef7111c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 07/69] fix: handle short reads in stream-backed BlockCache

---
 file_systems/common/blockcache/blockcache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index ec7aa0e..832d145 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -124,7 +124,11 @@ func WrapStream(
 		}
 
 		if read {
-			_, err = stream.Read(buffer)
+			// Readers are allowed to return less than what we asked for.
+			_, err = io.ReadFull(stream, buffer)
+			if err == io.ErrUnexpectedEOF {
+				err = io.EOF
+			}
 		} else {
 			_, err = stream.Write(buffer)
 		}
-- 
2.43.0


From a31f0ecc810f69700265d981ccfae0f50a8983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 08/69] fix: BasicStream.Read must advance past data returned
 together with EOF

---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From 51e39f54ffb219cef9dd2df394e645a97811ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 09/69] fix: BasicStream must reject invalid offsets instead of
 panicking

---
 file_systems/common/basicstream/basicstream.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..81f504d 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("negative read offset: %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
@@ -276,6 +282,14 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	}
 
 	bufLen := int64(len(buffer))
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("negative write offset: %d", offset),
+		)
+	} else if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
 	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
 
-- 
2.43.0


From b44a065fe1edcd56b8894675bdc536239da7a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 10/69] fix: BasicStream.ReadFrom lost write errors on the last
 chunk

---
 file_systems/common/basicstream/basicstream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 81f504d..47bcd49 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -155,12 +155,12 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 		totalBytesRead += int64(lastReadSize)
 
 		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
-- 
2.43.0


From ba6b7edb8d4f0c340d1a330e61a22753a7c7bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 11/69] fix: BasicStream.WriteTo ignored failures of the writer

---
 file_systems/common/basicstream/basicstream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 47bcd49..9a95f85 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -340,8 +340,13 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			n, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(n)
+			if writeErr != nil {
+				return totalWritten, writeErr
+			} else if n < blockSize {
+				return totalWritten, io.ErrShortWrite
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From 192aab6d082fce12038a509de41799dd153198de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 12/69] fix: BasicStream writes didn't reach storage and
 computed wrong block ranges

Written blocks were never marked dirty, the number of blocks requested was
wrong for anything but the first block, the stream size wasn't updated when
growing inside existing blocks, and stale data showed up in grown space.
---
 .../common/basicstream/basicstream.go         | 51 +++++++++++++++++--
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 9a95f85..d24d8fd 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -238,11 +238,21 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
+	// If we're growing, the space we gain may have old data in it that must not
+	// show up in the stream.
+	err := stream.zeroOutSlack(size)
 	if err != nil {
 		return err
 	}
 
+	// Blocks that are already there don't need to be allocated again.
+	if size < stream.size || newTotalBlocks > stream.data.TotalBlocks() {
+		err = stream.data.Resize(newTotalBlocks)
+		if err != nil {
+			return err
+		}
+	}
+
 	stream.size = size
 
 	if stream.ioFlags.Synchronous() {
@@ -251,6 +261,27 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// zeroOutSlack clears existing space between the end of the stream and `newSize`.
+// It does nothing if `newSize` isn't past the end of the stream.
+func (stream *BasicStream) zeroOutSlack(newSize int64) error {
+	end := min(newSize, stream.data.Size())
+	if end <= stream.size {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(stream.size)
+	lastBlock, _ := stream.convertLinearAddr(end - 1)
+	numBlocks := uint(lastBlock-firstBlock) + 1
+
+	slack, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+	clear(slack[startOffset : int64(startOffset)+end-stream.size])
+
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
@@ -290,25 +321,37 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrFileTooLarge
 	}
 
+	// Like with reading, the address computations below assume we're writing at
+	// least one byte.
+	if bufLen == 0 {
+		return 0, nil
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
-	if uint(lastBlock) >= stream.data.TotalBlocks() {
+	if offset+bufLen > stream.size {
 		err := stream.Truncate(offset + bufLen)
 		if err != nil {
 			return 0, err
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
 
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From 697f607352b7a3a6e545a4562407764401890856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 13/69] fix: wrapped object handles dropped the handle they
 wrap

---
 driver/driver.go   | 19 +++++++-----
 driver/fsobject.go | 72 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..035deac 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,8 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(
+		baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +218,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -461,7 +462,8 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(
+			name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +504,8 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	return err
 }
 
@@ -688,7 +691,8 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, unwrapObjectHandle(parentObject), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +720,8 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, unwrapObjectHandle(parentObject), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +743,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..6fdb2c0 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -1,6 +1,11 @@
 package driver
 
-import "github.com/dargueta/disko"
+import (
+	"os"
+	"time"
+
+	"github.com/dargueta/disko"
+)
 
 type extObjectHandle interface {
 	disko.ObjectHandle
@@ -8,19 +13,76 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle with the absolute path it was
+// found at.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
 
+// unwrapObjectHandle gives the handle issued by the implementation. Use it when
+// passing a handle back into the implementation.
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	for {
+		wrapper, ok := handle.(*tExtObjectHandle)
+		if !ok {
+			return handle
+		}
+		handle = wrapper.ObjectHandle
+	}
+}
+
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
+
+// Optional interfaces ---------------------------------------------------------
+
+// ListDir implements [disko.SupportsListDirHandle].
+func (xh tExtObjectHandle) ListDir() ([]string, disko.DriverError) {
+	handle, ok := xh.ObjectHandle.(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotSupported
+	}
+	return handle.ListDir()
+}
+
+// Chmod implements [disko.SupportsChmodHandle].
+func (xh tExtObjectHandle) Chmod(mode os.FileMode) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChmodHandle)
+	if !ok {
+		return disko.ErrNotSupported
+	}
+	return handle.Chmod(mode)
+}
+
+// Chown implements [disko.SupportsChownHandle].
+func (xh tExtObjectHandle) Chown(uid, gid int) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChownHandle)
+	if !ok {
+		return disko.ErrNotSupported
+	}
+	return handle.Chown(uid, gid)
+}
+
+// Chtimes implements [disko.SupportsChtimesHandle].
+func (xh tExtObjectHandle) Chtimes(
+	createdAt,
+	lastAccessed,
+	lastModified,
+	lastChanged,
+	deletedAt time.Time,
+) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChtimesHandle)
+	if !ok {
+		return disko.ErrNotSupported
+	}
+	return handle.Chtimes(
+		createdAt, lastAccessed, lastModified, lastChanged, deletedAt)
+}
-- 
2.43.0


From 982b87baff6181458d8c8b925455aebd0c79b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 14/69] fix: infinite recursion resolving nested paths

---
 driver/driver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 035deac..138acd7 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -128,7 +128,8 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 		return wrapObjectHandle(root, path), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	// Parent paths given by posixpath.Split() have a trailing slash.
+	parentPath, baseName := posixpath.Split(posixpath.Clean(path))
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c7f7c851f0d9fa8ccf48cea51d54f4f1cbe573fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 15/69] fix: "." is the working directory, not the root

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 138acd7..655121f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From c91b766000b76c11016cde4388f87d5d03f003c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 16/69] fix: resolve links relative to their directory and
 detect every cycle

---
 driver/driver.go | 56 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 655121f..f15f549 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -13,6 +13,10 @@ import (
 	"github.com/dargueta/disko"
 )
 
+// maxLinksFollowed is the maximum number of symbolic links that will be followed
+// while resolving a single path.
+const maxLinksFollowed = 255
+
 // BaseDriver is an abstraction layer for all file system implementations,
 // providing a single interface for interacting with them.
 type BaseDriver struct {
@@ -50,8 +54,11 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
+// Otherwise, `object` is closed.
+//
+// `linksFollowed` counts the links followed so far to resolve the caller's path.
 func (driver *BaseDriver) resolveSymlink(
-	object extObjectHandle,
+	object extObjectHandle, linksFollowed *int,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
@@ -69,6 +76,7 @@ func (driver *BaseDriver) resolveSymlink(
 
 	for stat.IsSymlink() {
 		symlinkText, err := driver.getContentsOfObject(object)
+		linkDir := posixpath.Dir(object.AbsolutePath())
 		object.Close()
 
 		if err != nil {
@@ -84,14 +92,21 @@ func (driver *BaseDriver) resolveSymlink(
 		}
 
 		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
+		// then we hit a cycle. The link text is relative to the directory the
+		// link is in.
+		nextPath := filepath.ToSlash(string(symlinkText))
+		if !posixpath.IsAbs(nextPath) {
+			nextPath = posixpath.Join(linkDir, nextPath)
+		}
+		nextPath = posixpath.Clean(nextPath)
+
 		_, exists := pathCache[nextPath]
-		if exists {
+		*linksFollowed++
+		if exists || *linksFollowed > maxLinksFollowed {
 			return nil,
 				disko.ErrLinkCycleDetected.WithMessage(
 					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
+						"found cycle resolving symlink %q: hit %q too often",
 						originalPath,
 						nextPath,
 					),
@@ -99,7 +114,7 @@ func (driver *BaseDriver) resolveSymlink(
 		}
 
 		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
+		object, err = driver.lookUpNoFollow(nextPath, linksFollowed)
 		if err != nil {
 			return nil, err
 		}
@@ -107,6 +122,7 @@ func (driver *BaseDriver) resolveSymlink(
 		// Update the latest path and file stats for the next loop iteration.
 		stat = object.Stat()
 		currentPath = nextPath
+		pathCache[currentPath] = true
 	}
 
 	return object, nil
@@ -119,6 +135,15 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	linksFollowed := 0
+	return driver.lookUpNoFollow(path, &linksFollowed)
+}
+
+// lookUpNoFollow implements [getObjectAtPathNoFollow]. `linksFollowed` counts the
+// links followed so far to resolve the caller's path.
+func (driver *BaseDriver) lookUpNoFollow(
+	path string, linksFollowed *int,
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
@@ -127,7 +152,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 
 	// Parent paths given by posixpath.Split() have a trailing slash.
 	parentPath, baseName := posixpath.Split(posixpath.Clean(path))
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, linksFollowed)
 	if err != nil {
 		return nil, err
 	}
@@ -153,15 +178,23 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	linksFollowed := 0
+	return driver.lookUpFollowingLink(path, &linksFollowed)
+}
+
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink]. `linksFollowed`
+// counts the links followed so far to resolve the caller's path.
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string, linksFollowed *int,
+) (extObjectHandle, disko.DriverError) {
+	object, err := driver.lookUpNoFollow(path, linksFollowed)
 	if err != nil {
 		return nil, err
 	}
 
 	stat := object.Stat()
 	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
+		nextObject, err := driver.resolveSymlink(object, linksFollowed)
 		if err != nil {
 			return nil, err
 		}
@@ -543,7 +576,8 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 
 	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
 	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
+	linksFollowed := 0
+	realObject, err := driver.resolveSymlink(object, &linksFollowed)
 	if err != nil {
 		return disko.FileStat{}, err
 	}
-- 
2.43.0


From 3fa3347071bf3a9a19e9b12f19b317a04d536a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 17/69] fix: Lstat must not follow links

---
 driver/driver.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index f15f549..35f5a8a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -574,16 +574,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	linksFollowed := 0
-	realObject, err := driver.resolveSymlink(object, &linksFollowed)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 72e848b9c58a50f875536ab55dec5cf0db08e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 18/69] fix: Remove must remove links themselves and never the
 root

---
 driver/driver.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 35f5a8a..e6aba7d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -617,7 +617,13 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if absPath == "/" {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
@@ -642,9 +648,9 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
+			fmt.Sprintf("can't remove %q: not a file, directory, or link", absPath),
 		)
 	}
 
-- 
2.43.0


From 1dd62c04814e440c8bdaa6816c02a47e69d7f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 19/69] fix: RemoveAll must remove the directory itself

---
 driver/driver.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index e6aba7d..6348ae4 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -759,7 +759,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -772,13 +772,23 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+
+	unlinkErr := directory.Unlink()
+	if unlinkErr != nil {
+		return unlinkErr
+	}
+	return nil
 }
 
 // removeDirectory is equivalent to `rm -rf` for a directory handle.
-- 
2.43.0


From 3e1b01d7534c59a1798ae3775082fca2bd4206a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 20/69] fix: directory creation over existing objects and below
 missing parents

---
 driver/driver.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 6348ae4..03ca86f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -694,6 +694,20 @@ func (driver *BaseDriver) WriteFile(
 	return err
 }
 
+// ensureMissing returns nil if there's no object at `path`, [disko.ErrExists] if
+// there is one, and the original error if that can't be determined. Symbolic
+// links in the last path component aren't followed.
+func (driver *BaseDriver) ensureMissing(path string) disko.DriverError {
+	object, err := driver.getObjectAtPathNoFollow(path)
+	if err == nil {
+		object.Close()
+		return disko.ErrExists.WithMessage(path)
+	} else if errors.Is(err, disko.ErrNotFound) {
+		return nil
+	}
+	return err
+}
+
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
@@ -709,6 +723,11 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
+	err = driver.ensureMissing(absPath)
+	if err != nil {
+		return err
+	}
+
 	parentStat := parentObject.Stat()
 	if !parentStat.IsDir() {
 		return disko.ErrNotADirectory.WithMessage(
@@ -732,6 +751,20 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
 	parentDir, baseName := posixpath.Split(absPath)
 
+	// There's nothing to do if the directory already exists.
+	existing, existingErr := driver.getObjectAtPathFollowingLink(absPath)
+	if existingErr == nil {
+		defer existing.Close()
+
+		stat := existing.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
+		}
+		return nil
+	} else if !errors.Is(existingErr, disko.ErrNotFound) {
+		return existingErr
+	}
+
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
 	perm &^= os.ModeType
@@ -741,7 +774,15 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	if err != nil {
 		if errors.Is(err, disko.ErrNotFound) {
 			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
+			mkdirErr := driver.MkdirAll(parentDir, perm)
+			if mkdirErr != nil {
+				return mkdirErr
+			}
+
+			parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
+			if err != nil {
+				return err
+			}
 		} else {
 			// Different error, we won't handle it.
 			return err
@@ -749,6 +790,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
+	err = driver.ensureMissing(absPath)
+	if err != nil {
+		return err
+	}
+
 	object, err := driver.implementation.CreateObject(
 		baseName, unwrapObjectHandle(parentObject), perm)
 	if err == nil {
-- 
2.43.0


From 02fbc1bde4da1454d60d2a13dcadf700c5bf949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 21/69] fix: OpenFile ignored O_EXCL and created objects over
 links

---
 driver/driver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 03ca86f..bcd7c7e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -283,6 +283,14 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
+	if ioFlags.Create() && ioFlags.Exclusive() {
+		// This also catches links, no matter what they point to.
+		existsErr := driver.ensureMissing(absPath)
+		if existsErr != nil {
+			return File{}, existsErr
+		}
+	}
+
 	object, err = driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
@@ -290,6 +298,11 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				// A link to a missing file already occupies this name.
+				if driver.ensureMissing(absPath) != nil {
+					return File{}, err
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -303,7 +316,7 @@ func (driver *BaseDriver) OpenFile(
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-					perm,
+					perm&^os.ModeType,
 				)
 				parentObject.Close()
 
-- 
2.43.0


From aac0017b8f319652c9559e2af497576136cf28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 22/69] fix: object handles leaked by driver operations

---
 driver/driver.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index bcd7c7e..98436f2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -336,10 +336,16 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+		return File{}, err
+	}
+	return file, nil
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -372,6 +378,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := object.(disko.SupportsChmodHandle)
 	if !ok {
@@ -386,6 +393,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
@@ -403,6 +411,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
@@ -417,6 +426,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChtimesHandle)
 	if !ok {
@@ -531,6 +541,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer oldHandle.Close()
 
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
@@ -547,9 +558,13 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer parentHandle.Close()
 
-	_, err = linker.CreateHardLink(
+	newHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
+	if err == nil {
+		newHandle.Close()
+	}
 	return err
 }
 
-- 
2.43.0


From 766eb7db644467d10e546d30938577aa2b3a4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 23/69] fix: Link must refuse directories and report lookup
 failures

---
 driver/driver.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 98436f2..6dde51b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -543,14 +543,20 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 	defer oldHandle.Close()
 
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create hard link to a directory: " + absOld)
+	}
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
-	if err == nil {
-		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	err = driver.ensureMissing(absNew)
+	if err != nil {
+		return err.WithMessage("can't create hard link: " + absNew)
 	}
 
 	targetParentPath, targetName := posixpath.Split(absNew)
@@ -560,6 +566,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 	defer parentHandle.Close()
 
+	parentStat := parentHandle.Stat()
+	if !parentStat.IsDir() {
+		return disko.ErrNotADirectory.WithMessage(targetParentPath)
+	}
+
 	newHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	if err == nil {
-- 
2.43.0


From b3e881d3a3d00c01ebb03f5c993c7684123fb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 24/69] fix: report lookup failures when creating files

---
 driver/driver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 6dde51b..8e2d47c 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -299,7 +299,8 @@ func (driver *BaseDriver) OpenFile(
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
 				// A link to a missing file already occupies this name.
-				if driver.ensureMissing(absPath) != nil {
+				err = driver.ensureMissing(absPath)
+				if err != nil {
 					return File{}, err
 				}
 
-- 
2.43.0


From 98ee1138cf1d109f82da1b32ad2a4038c52f4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 25/69] fix: Chmod must only pass permission bits to
 implementations

---
 driver/driver.go | 2 +-
 driver/file.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 8e2d47c..fed88a8 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -385,7 +385,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode.Perm())
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..4c95e19 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -146,7 +146,7 @@ func (file *File) Chdir() error {
 func (file *File) Chmod(mode os.FileMode) error {
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode.Perm())
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From dc2f3019a072e52e425e67fbbd68ce6518748b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 26/69] fix: ReadDir must refuse objects that aren't
 directories

---
 driver/driver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index fed88a8..1c318f3 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -505,6 +505,11 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+
 	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8f84d065c8cce71e03c0d84c0991648b31e6f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 27/69] fix: directory entries must implement Stat and report
 types only

---
 driver/dirent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..d564f9b 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -32,7 +32,7 @@ func (dirent DirectoryEntry) IsDir() bool {
 }
 
 func (dirent DirectoryEntry) Type() os.FileMode {
-	return dirent.stat.ModeFlags
+	return dirent.stat.ModeFlags.Type()
 }
 
 func (dirent DirectoryEntry) Info() (os.FileInfo, error) {
@@ -51,6 +51,11 @@ func (dirent DirectoryEntry) ModTime() time.Time {
 	return dirent.stat.LastModified
 }
 
+// Stat implements [disko.DirectoryEntry].
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Sys() any {
 	return dirent.stat
 }
-- 
2.43.0


From d96fc32664e2b59b1c8389d22b15c151a04d6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 28/69] fix: directories can be opened and listed without
 limits

---
 driver/driver.go | 4 +++-
 driver/file.go   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 1c318f3..5f9902e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -335,8 +335,10 @@ func (driver *BaseDriver) OpenFile(
 		}
 	}
 
+	// Directories can be opened as well, but only for listing their contents.
 	stat := object.Stat()
-	if !stat.IsFile() {
+	onlyReads := !ioFlags.RequiresWritePerm() && !ioFlags.Create()
+	if !stat.IsFile() && !(stat.IsDir() && onlyReads) {
 		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
diff --git a/driver/file.go b/driver/file.go
index 4c95e19..726df0f 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -200,6 +200,10 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			// It's not an error if the caller wants whatever is left.
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From d3cfc6d79a964a3f0676ec286f77272f514a4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 29/69] fix: file sizes must be recorded in bytes

---
 driver/file.go | 73 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 726df0f..ec91cb0 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -91,11 +91,19 @@ type File struct {
 	objectHandle extObjectHandle
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
+	state        *fileState
 
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
 }
 
+// fileState is what all copies of a [File] have in common.
+type fileState struct {
+	// recordedSize is the size of the file in the file system, as far as we know.
+	// The stream only resizes it in multiples of the block size.
+	recordedSize int64
+}
+
 // NewFileFromObjectHandle creates a Disko file object that is (more or less) a
 // drop-in replacement for [os.File].
 func NewFileFromObjectHandle(
@@ -109,11 +117,19 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
+	stat := object.Stat()
+	state := &fileState{recordedSize: stat.Size}
+
 	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
+		newSizeBytes := int64(newSize) * stat.BlockSize
+		err := object.Resize(uint64(newSizeBytes))
+		if err != nil {
+			return err
+		}
+		state.recordedSize = newSizeBytes
+		return nil
 	}
 
-	stat := object.Stat()
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
@@ -132,6 +148,7 @@ func NewFileFromObjectHandle(
 		objectHandle: object,
 		ioFlags:      ioFlags,
 		BasicStream:  stream,
+		state:        state,
 		fileInfo: FileInfo{
 			FileStat:     stat,
 			absolutePath: object.AbsolutePath(),
@@ -160,7 +177,57 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	return file.Sync()
+}
+
+// Sync writes out all pending changes, including the exact size of the file.
+func (file *File) Sync() error {
+	size := file.BasicStream.Size()
+	if size != file.state.recordedSize {
+		err := file.objectHandle.Resize(uint64(size))
+		if err != nil {
+			return err
+		}
+		file.state.recordedSize = size
+	}
+	return file.BasicStream.Sync()
+}
+
+// syncIfNeeded calls [File.Sync] after a successful modification of the file if
+// it was opened with [disko.O_SYNC].
+func (file *File) syncIfNeeded(err error) error {
+	if err == nil && file.ioFlags.Synchronous() {
+		return file.Sync()
+	}
+	return err
+}
+
+// Write implements [io.Writer].
+func (file *File) Write(buffer []byte) (int, error) {
+	n, err := file.BasicStream.Write(buffer)
+	return n, file.syncIfNeeded(err)
+}
+
+// WriteAt implements [io.WriterAt].
+func (file *File) WriteAt(buffer []byte, offset int64) (int, error) {
+	n, err := file.BasicStream.WriteAt(buffer, offset)
+	return n, file.syncIfNeeded(err)
+}
+
+// WriteString implements [io.StringWriter].
+func (file *File) WriteString(s string) (int, error) {
+	return file.Write([]byte(s))
+}
+
+// ReadFrom implements [io.ReaderFrom].
+func (file *File) ReadFrom(r io.Reader) (int64, error) {
+	n, err := file.BasicStream.ReadFrom(r)
+	return n, file.syncIfNeeded(err)
+}
+
+// Truncate resizes the file to the given number of bytes.
+func (file *File) Truncate(size int64) error {
+	return file.syncIfNeeded(file.BasicStream.Truncate(size))
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From 44e48fbaf4de30e12af0746489637b3d6c723575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 30/69] fix: closing a file must release its object handle

---
 driver/driver.go |  9 ++++++---
 driver/file.go   | 52 +++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 5f9902e..924015c 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -211,11 +211,11 @@ func (driver *BaseDriver) lookUpFollowingLink(
 func (driver *BaseDriver) getContentsOfObject(
 	object extObjectHandle,
 ) ([]byte, disko.DriverError) {
+	// Closing the file would close `object`, which belongs to the caller.
 	handle, err := NewFileFromObjectHandle(driver, object, disko.O_RDONLY)
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -735,10 +735,13 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
-	return err
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 // ensureMissing returns nil if there's no object at `path`, [disko.ErrExists] if
diff --git a/driver/file.go b/driver/file.go
index ec91cb0..cdb55ab 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -102,6 +102,8 @@ type fileState struct {
 	// recordedSize is the size of the file in the file system, as far as we know.
 	// The stream only resizes it in multiples of the block size.
 	recordedSize int64
+	// closed is true once the object handle has been released.
+	closed bool
 }
 
 // NewFileFromObjectHandle creates a Disko file object that is (more or less) a
@@ -111,16 +113,26 @@ func NewFileFromObjectHandle(
 	object extObjectHandle,
 	ioFlags disko.IOFlags,
 ) (File, error) {
+	stat := object.Stat()
+	state := &fileState{recordedSize: stat.Size}
+
 	fetchCb := func(index common.LogicalBlock, buffer []byte) error {
+		if state.closed {
+			return disko.ErrFileDescriptorBadState
+		}
 		return object.ReadBlocks(index, buffer)
 	}
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
+		if state.closed {
+			return disko.ErrFileDescriptorBadState
+		}
 		return object.WriteBlocks(index, buffer)
 	}
-	stat := object.Stat()
-	state := &fileState{recordedSize: stat.Size}
-
 	resizeCb := func(newSize common.LogicalBlock) error {
+		if state.closed {
+			return disko.ErrFileDescriptorBadState
+		}
+
 		newSizeBytes := int64(newSize) * stat.BlockSize
 		err := object.Resize(uint64(newSizeBytes))
 		if err != nil {
@@ -157,10 +169,17 @@ func NewFileFromObjectHandle(
 }
 
 func (file *File) Chdir() error {
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
 	return file.owningDriver.chdirToObject(file.objectHandle)
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
+
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode.Perm())
@@ -169,6 +188,10 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
+
 	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
@@ -177,11 +200,26 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.Sync()
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
+
+	// The handle must be released even if we can't store pending changes.
+	syncErr := file.Sync()
+	file.state.closed = true
+	closeErr := file.objectHandle.Close()
+	if syncErr != nil {
+		return syncErr
+	}
+	return closeErr
 }
 
 // Sync writes out all pending changes, including the exact size of the file.
 func (file *File) Sync() error {
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
+
 	size := file.BasicStream.Size()
 	if size != file.state.recordedSize {
 		err := file.objectHandle.Resize(uint64(size))
@@ -231,11 +269,15 @@ func (file *File) Truncate(size int64) error {
 }
 
 func (file *File) Name() string {
-	return file.objectHandle.Name()
+	return file.fileInfo.Name()
 }
 
 // ReadDir is equivalent to [os.File.ReadDir].
 func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
+	if file.state.closed {
+		return nil, disko.ErrFileDescriptorBadState
+	}
+
 	stat := file.objectHandle.Stat()
 	if !stat.IsDir() {
 		return nil, disko.ErrNotADirectory
-- 
2.43.0


From 0b3aee54214ce517498df3918339013cbf6d08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 31/69] fix: File.Stat must report the current size

---
 driver/file.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index cdb55ab..4a84267 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -367,5 +367,12 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	if file.state.closed {
+		return nil, disko.ErrFileDescriptorBadState
+	}
+
+	info := file.fileInfo
+	info.FileStat = file.objectHandle.Stat()
+	info.FileStat.Size = file.BasicStream.Size()
+	return info.Info()
 }
-- 
2.43.0


From 9469f0d9eea5c45efbb22217c881ff1af9635e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 32/69] fix: enforce mount permissions in all driver operations

---
 driver/driver.go | 73 +++++++++++++++++++++++++++++++++++++++++++++++-
 driver/file.go   | 10 +++++++
 2 files changed, 82 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 924015c..6429ce3 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -40,6 +40,15 @@ func New(
 	}
 }
 
+// requireMountFlag returns an error if the image wasn't mounted with `flag`.
+func (driver *BaseDriver) requireMountFlag(flag disko.MountFlags) disko.DriverError {
+	if driver.mountFlags&flag == 0 {
+		return disko.ErrReadOnlyFileSystem.WithMessage(
+			"the mount flags don't allow this operation")
+	}
+	return nil
+}
+
 // NormalizePath converts a file path to an absolute path using `/` as the
 // separators, and interprets `.` and `..` entries. Relative paths are rebased
 // from the current working directory (see [Getwd] for more).
@@ -270,7 +279,9 @@ func (driver *BaseDriver) OpenFile(
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
-	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
+	// Files created by this call can be written to regardless.
+	onlyIfCreated := ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite()
+	if onlyIfCreated && !ioFlags.Create() {
 		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
 			fmt.Sprintf(
 				"can't open %q for writing: image is mounted read-only",
@@ -298,6 +309,11 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				err = driver.requireMountFlag(disko.MountFlagsAllowInsert)
+				if err != nil {
+					return File{}, err
+				}
+
 				// A link to a missing file already occupies this name.
 				err = driver.ensureMissing(absPath)
 				if err != nil {
@@ -333,6 +349,11 @@ func (driver *BaseDriver) OpenFile(
 		if err != nil {
 			return File{}, err
 		}
+	} else if onlyIfCreated {
+		object.Close()
+		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf("can't open existing file %q for writing", absPath),
+		)
 	}
 
 	// Directories can be opened as well, but only for listing their contents.
@@ -376,6 +397,11 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 }
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowAdminister)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -391,6 +417,11 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowAdminister)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -409,6 +440,11 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // [BaseDriver.getObjectAtPathNoFollow] instead of [BaseDriver.getObjectAtPathFollowingLink].
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowAdminister)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
@@ -424,6 +460,11 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 }
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowWrite)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -539,6 +580,11 @@ func (driver *BaseDriver) readDir(
 }
 
 func (driver *BaseDriver) Link(oldname, newname string) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowInsert)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	linker, ok := driver.implementation.(disko.HardLinkImplementer)
 	if !ok {
 		return disko.ErrNotSupported
@@ -663,6 +709,11 @@ func removeDotsFromSlice(arr []string) []string {
 }
 
 func (driver *BaseDriver) Remove(path string) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowDelete)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(path)
 	if absPath == "/" {
 		return disko.ErrPermissionDenied.WithMessage(
@@ -706,6 +757,11 @@ func (driver *BaseDriver) Remove(path string) error {
 
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowWrite)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	absPath := driver.NormalizePath(path)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -759,6 +815,11 @@ func (driver *BaseDriver) ensureMissing(path string) disko.DriverError {
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowInsert)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
 	perm &^= os.ModeType
@@ -815,6 +876,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 		return existingErr
 	}
 
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowInsert)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
 	perm &^= os.ModeType
@@ -854,6 +920,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
+	flagErr := driver.requireMountFlag(disko.MountFlagsAllowDelete)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	path = driver.NormalizePath(path)
 	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
diff --git a/driver/file.go b/driver/file.go
index 4a84267..8d38001 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -180,6 +180,11 @@ func (file *File) Chmod(mode os.FileMode) error {
 		return disko.ErrFileDescriptorBadState
 	}
 
+	flagErr := file.owningDriver.requireMountFlag(disko.MountFlagsAllowAdminister)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode.Perm())
@@ -192,6 +197,11 @@ func (file *File) Chown(uid, gid int) error {
 		return disko.ErrFileDescriptorBadState
 	}
 
+	flagErr := file.owningDriver.requireMountFlag(disko.MountFlagsAllowAdminister)
+	if flagErr != nil {
+		return flagErr
+	}
+
 	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From 96df91a9116a65b5d60ea91a91b2acde515d082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 33/69] fix: the last block of a FAT8 image must be readable

---
 file_systems/fat8/iobase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..e67265f 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,7 +10,8 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if uint(start) > totalBlocks || count > totalBlocks-uint(start) {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
 			start,
-- 
2.43.0


From 36f593855e4fb51b07836915d9ccaad68a4ecb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 34/69] fix: mounting a FAT8 image must set up the file system
 statistics

---
 file_systems/fat8/driver.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..c433a70 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -62,11 +62,17 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return err
 	}
 
-	geo, err := GetGeometry(uint(offset) / 128)
+	totalBlocks := uint(offset) / 128
+	geo, err := GetGeometry(totalBlocks)
 	if err != nil {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(totalBlocks),
+		MaxNameLength: 10,
+	}
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -76,8 +82,10 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	}
 	driver.fat = fat
 
-	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	// Build a list of all currently free clusters. Only the beginning of the FAT
+	// is used, the rest is padding.
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
@@ -91,6 +99,10 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return err
 	}
 	driver.defaultFileAttrFlags = infoSector[0]
+
+	blocksFree := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = blocksFree
+	driver.stat.BlocksAvailable = blocksFree
 	driver.isMounted = true
 	return nil
 }
-- 
2.43.0


From 0bf49084db0e58f26a550611852960a7f9294fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 35/69] fix: FAT8 cluster numbers must map to sectors the same
 way everywhere

---
 file_systems/fat8/iobase.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index e67265f..d3a4b7a 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -89,7 +89,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -137,7 +137,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -146,14 +146,13 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 9c7fe766d81d05c41f95a361718f6652c9732885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 36/69] fix: formatting FAT8 must reserve the clusters of the
 directory track

---
 file_systems/fat8/formattingdriver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..a5e6910 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -86,7 +86,7 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From 9974ebf09be13ad3c29d99572bf8c6ed5f07d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 37/69] fix: formatting FAT8 must clear what the image held
 before

---
 file_systems/fat8/formattingdriver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index a5e6910..5bd0372 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,14 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(0)
+	if err != nil {
+		return err
+	}
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
-- 
2.43.0


From d2fcf75d76a107199713b36cb6329abd6730f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 38/69] fix: FAT8 file names must be reversible or rejected

---
 file_systems/fat8/common.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..0a3d9ab 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -92,8 +92,33 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
+	// Anything else would not fit into one byte per character, or clash with the
+	// markers for unused directory entries.
+	for _, char := range []byte(name) {
+		if char < 0x20 || char > 0x7e {
+			message := fmt.Sprintf(
+				"filename must only have printable ASCII characters: %q", name)
+			return nil, disko.ErrInvalidArgument.WithMessage(message)
+		}
+	}
+
 	parts := strings.SplitN(name, ".", 2)
 
+	// Names are padded with spaces and have an implicit period, so these can't
+	// be told apart from other names once they're stored.
+	for _, part := range parts {
+		if strings.HasSuffix(part, " ") {
+			message := fmt.Sprintf(
+				"filename stem and extension can't end with a space: %q", name)
+			return nil, disko.ErrInvalidArgument.WithMessage(message)
+		}
+	}
+	if len(parts) == 2 && strings.Contains(parts[1], ".") {
+		message := fmt.Sprintf(
+			"filename can have at most one period: %q", name)
+		return nil, disko.ErrInvalidArgument.WithMessage(message)
+	}
+
 	// Unless we got an empty string, this will always have at least one element,
 	// the stem of the filename. This cannot be longer than 6 characters.
 	if len(parts[0]) > 6 {
@@ -134,7 +159,10 @@ func BytesToFilename(rawName []byte) (string, error) {
 	extension := bytes.TrimRight(rawName[6:], " ")
 
 	var name string
-	if len(extension) > 0 {
+	if string(extension) == "." {
+		// This is how we store an empty extension; see FilenameToBytes.
+		name = string(stem) + "."
+	} else if len(extension) > 0 {
 		name = string(stem) + "." + string(extension)
 	} else {
 		name = string(stem)
-- 
2.43.0


From f8d78523771e312dc4ec6aa1eba2437b84e50c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 39/69] verif: hooks for FAT8 checks (build tag verif)

---
 file_systems/fat8/verif_hooks.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)
 create mode 100644 file_systems/fat8/verif_hooks.go

diff --git a/file_systems/fat8/verif_hooks.go b/file_systems/fat8/verif_hooks.go
new file mode 100644
index 0000000..98bba06
--- /dev/null
+++ b/file_systems/fat8/verif_hooks.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package fat8
+
+// VerifDirent returns a directory entry of a file stored in the given clusters.
+func VerifDirent(clusters []PhysicalCluster) *DirectoryEntry {
+	return &DirectoryEntry{clusters: clusters, IsBinary: true}
+}
+
+// VerifFreeClusters returns the driver's list of unallocated clusters.
+func (driver *FAT8Driver) VerifFreeClusters() []uint8 {
+	return append([]uint8(nil), driver.freeClusters...)
+}
-- 
2.43.0


From 6b01c1b6ca73eb16ff4a8923ce60939dea7bcea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 40/69] fix: FAT boot sector fields must be exported to be
 decoded

---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From e08de0fc566b35a1e628e626d988fbaa8fcb5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 41/69] fix: validate FAT boot sector fields before dividing by
 them

---
 file_systems/fat/common.go | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..41d36e8 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -82,29 +82,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
 
-	var sectorsPerFAT uint
-	if rawHeader.SectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
-	} else {
-		sectorsPerFAT = uint(sectorsPerFAT32)
-	}
-
-	var totalSectors uint
-	if rawHeader.TotalSectors16 != 0 {
-		totalSectors = uint(rawHeader.TotalSectors16)
-	} else {
-		totalSectors = uint(rawHeader.TotalSectors32)
-	}
-
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +112,29 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	var sectorsPerFAT uint
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
+	} else {
+		sectorsPerFAT = uint(sectorsPerFAT32)
+	}
+
+	var totalSectors uint
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
+	} else {
+		totalSectors = uint(rawHeader.TotalSectors32)
+	}
+
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	rootDirSectors := uint(
+		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
-- 
2.43.0


From ecca0bbc6be9082df272600e8db35e700aa78fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 42/69] fix: FAT root directory size must not overflow 16 bits

---
 file_systems/fat/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 41d36e8..c665c01 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -128,8 +128,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
 	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := ((uint(rawHeader.RootEntryCount) * 32) + (bytesPerSector - 1)) / bytesPerSector
 
 	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
 	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-- 
2.43.0


From 6f403bc5c33b56249d91e1acb7014a89b8a2778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 43/69] fix: FAT data area geometry

---
 file_systems/fat/common.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index c665c01..6b70b57 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -132,7 +132,16 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	rootDirSectors := ((uint(rawHeader.RootEntryCount) * 32) + (bytesPerSector - 1)) / bytesPerSector
 
 	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	firstDataSector := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if firstDataSector > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: data area starts at sector %d but there are only %d sectors",
+			firstDataSector,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - firstDataSector
 	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
 
 	fatVersion := DetermineFATVersion(totalClusters)
@@ -176,8 +185,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(firstDataSector),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From b916f686eb32aa2c3174de361f96c7b9f41cad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 44/69] fix: FAT directory entry field offsets and short
 entries

---
 file_systems/fat/dirent.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..b4f3c08 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -3,6 +3,7 @@ package fat
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"os"
 	"strings"
 	"syscall"
@@ -225,18 +226,24 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf(
+				"directory entry must be %d bytes, got %d", DirentSize, len(data)))
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From 855d293e2d15630ccdcce782b778330339309cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 45/69] fix: FAT timestamps need a location and a valid
 fraction

---
 file_systems/fat/dirent.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index b4f3c08..8f2d49d 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -176,7 +176,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -193,10 +193,18 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(),
+		dateDt.Month(),
+		dateDt.Day(),
+		hours,
+		minutes,
+		seconds,
+		nanoseconds,
+		time.Local,
+	)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From ea8da7bafcdd61d8715b97191b0e0746cccb60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 46/69] fix: FAT attributes must translate to os.FileMode bits

---
 file_systems/fat/dirent.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 8f2d49d..9d2e234 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -208,24 +208,22 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// [os.FileMode].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
-- 
2.43.0


From 22d3193190bd7a3a12d13a61d3ff73532802522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 47/69] fix: FAT directory entries with an empty name must not
 panic

---
 file_systems/fat/dirent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 9d2e234..ed40b96 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -315,7 +315,10 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if trimmedName == "" {
+		return Dirent{}, disko.ErrFileSystemCorrupted.WithMessage(
+			"directory entry has an empty name")
+	} else if trimmedName[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-- 
2.43.0


From 48cb3ccc14874af223565597348d2149e89d2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 48/69] fix: FAT directory entries must implement
 DirectoryEntry

---
 file_systems/fat/dirent.go     | 8 ++++++++
 file_systems/fat/driverbase.go | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index ed40b96..e08bafc 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -402,4 +402,12 @@ func (d Dirent) Sys() any { return d.stat }
 
 func (d Dirent) Stat() disko.FileStat { return d.stat }
 
+// Dirent implementation of DirectoryEntry -------------------------------------
+
+// Type returns the type bits of the mode flags.
+func (d Dirent) Type() os.FileMode { return d.mode.Type() }
+
+// Info returns the directory entry itself.
+func (d Dirent) Info() (os.FileInfo, error) { return d, nil }
+
 // -----------------------------------------------------------------------------
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..2d59a32 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -245,10 +245,10 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft := fi1.Sys().(disko.FileStat)
+	statRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	return statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From 7b6de7446d27131acd0730a4df3aff934e4b11d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 49/69] fix: SetDeletedAt must set the deletion time

---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index e08bafc..0e3b5cf 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -163,7 +163,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From d51d6ec1f49eda71e219fa673ea430ae496cba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 50/69] fix: FAT Chtimes must report timestamps it can't
 represent

---
 file_systems/fat/driverbase.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 2d59a32..fbaf797 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -385,8 +385,14 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From c4da2e6911a47262d02906a3a6ee4f34899b4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 51/69] fix: FAT cluster to sector translation and reads

---
 file_systems/fat/driverbase.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index fbaf797..1b97130 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -34,24 +34,32 @@ type FATDriver struct {
 }
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
+	if !drv.fs.IsValidCluster(cluster) {
+		return 0, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf("invalid cluster 0x%x", cluster))
+	}
+
+	// The first two entries in the FAT are reserved, so the data area starts at
+	// cluster 2.
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*(uint32(cluster)-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
-		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	// Getting an EOF is fine as long as we got everything.
+	if err != nil && !(err == io.EOF && nRead == len(buffer)) {
+		return nil, err
+	} else if nRead < len(buffer) {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
 
 	return buffer, nil
-- 
2.43.0


From 3dd5ebd4f0194041f3d6a179be1f0e71aceea0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 52/69] fix: FAT cluster chains end at the end marker and may
 be damaged

---
 file_systems/fat/driverbase.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 1b97130..2c93ac9 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -81,16 +81,29 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
+	if drv.fs.IsEndOfChain(chainStart) {
+		return []ClusterID{}, nil
+	}
 	if !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
 	chain := []ClusterID{}
+	visited := map[ClusterID]bool{}
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if visited[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"chain from %d loops back to cluster %d at index %d",
+					chainStart,
+					currentCluster,
+					i))
+		}
+		visited[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -98,7 +111,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From 3aae893f0b9073084dce4806ef32e3d6a34dea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 53/69] fix: FAT path resolution

---
 file_systems/fat/driverbase.go | 41 ++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 2c93ac9..d6f53c3 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"io"
 	"os"
+	posixpath "path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -184,35 +186,46 @@ func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, e
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
+	// All paths are relative to the root directory.
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
 
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	// The root directory has no directory entry of its own.
+	currentDirent := Dirent{
+		mode: AttrFlagsToFileMode(AttrDirectory),
+		stat: disko.FileStat{ModeFlags: AttrFlagsToFileMode(AttrDirectory)},
 	}
+	if cleanedPath == "/" {
+		return currentDirent, nil
+	}
+	pathParts := strings.Split(cleanedPath[1:], "/")
 
 	// Get a listing for the root directory. We need to call a separate function because
 	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
 	// Drivers must give us a list of directory entries in the root directory.
 	currentDirContents, err := drv.fs.ListRootDirectory()
 	if err != nil {
-		return Dirent{}, nil
+		return Dirent{}, err
 	}
 
-	var currentDirent Dirent
+	for i, component := range pathParts {
+		if i > 0 {
+			currentDirContents, err = drv.readDirFromDirent(&currentDirent)
+			if err != nil {
+				return Dirent{}, err
+			}
+		}
 
-	for _, component := range pathParts {
+		found := false
 		for _, entry := range currentDirContents {
-			if entry.name == component {
+			if entry.name == component && !entry.isDeleted {
 				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
+				found = true
+				break
 			}
 		}
+		if !found {
+			return Dirent{}, disko.ErrNotFound.WithMessage(path)
+		}
 	}
 
 	return currentDirent, nil
-- 
2.43.0


From 5b2622a7cc3687ffb30decddd84862c718cd3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 54/69] fix: FAT directories end with their cluster chain

---
 file_systems/fat/driverbase.go | 39 +++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index d6f53c3..558cf06 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -170,6 +170,20 @@ func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (Clu
 	return currentCluster, nil
 }
 
+// listClustersOfDirent returns a list of every cluster belonging to `dirent`.
+func (drv *FATDriver) listClustersOfDirent(dirent *Dirent) ([]ClusterID, error) {
+	if dirent.FirstCluster == 0 {
+		// Empty files have no clusters.
+		return []ClusterID{}, nil
+	}
+	if !drv.fs.IsValidCluster(dirent.FirstCluster) {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"%q starts at invalid cluster 0x%x", dirent.name, dirent.FirstCluster))
+	}
+	return drv.listClusters(dirent.FirstCluster)
+}
+
 func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
 	cluster, err := drv.getClusterInChain(dirent.FirstCluster, index)
 	if err != nil {
@@ -238,12 +252,21 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// Only the root directory, and links to it, start at cluster 0.
+	if directoryDirent.FirstCluster == 0 {
+		return drv.fs.ListRootDirectory()
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	allClusters, err := drv.listClustersOfDirent(directoryDirent)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, clusterID := range allClusters {
+		clusterData, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
 		}
@@ -257,8 +280,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
@@ -304,9 +325,11 @@ func (drv *FATDriver) Readdir(path string) ([]os.FileInfo, error) {
 		return nil, err
 	}
 
-	fileInfos := make([]os.FileInfo, len(dirContents))
-	for i, dir := range dirContents {
-		fileInfos[i] = dir
+	fileInfos := make([]os.FileInfo, 0, len(dirContents))
+	for _, dir := range dirContents {
+		if !dir.isDeleted {
+			fileInfos = append(fileInfos, dir)
+		}
 	}
 
 	return fileInfos, nil
-- 
2.43.0


From 196aec49972566d87b9f40855afd1f3145b421d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 55/69] fix: FAT ReadFile must honor the file size

---
 file_systems/fat/driverbase.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 558cf06..f9dfae2 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -346,19 +346,32 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
-	allClusters, err := drv.listClusters(dirent.FirstCluster)
+	allClusters, err := drv.listClustersOfDirent(&dirent)
 	if err != nil {
 		return nil, err
 	}
 
 	bs := drv.fs.GetBootSector()
 	bytesRemaining := dirent.size
+	if bytesRemaining > int64(len(allClusters))*int64(bs.BytesPerCluster) {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"%q is %d bytes but has only %d clusters",
+				path,
+				bytesRemaining,
+				len(allClusters)))
+	}
 
 	// Now that we have a list of all the clusters in this file, we can stitch the file
 	// together by concatenating their contents. The last cluster may not be completely
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			// The rest of the chain is unused.
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9bbd7d8810696dc42a3aca3946968749aac8e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 56/69] fix: removing a FAT file must free its own clusters

---
 file_systems/fat/driverbase.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index f9dfae2..d38d365 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -497,6 +497,12 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
+	// Don't touch anything if the cluster chain is damaged.
+	fileClusters, err := drv.listClustersOfDirent(&dirent)
+	if err != nil {
+		return err
+	}
+
 	// Once we get here we can delete the directory entry *first* and then deallocate its
 	// clusters. If we were to free the clusters first and then try to delete the dirent
 	// but fail, we'd have a dirent pointing at garbage at best, or into a valid cluster
@@ -507,16 +513,12 @@ func (drv *FATDriver) Remove(path string) error {
 	}
 
 	// Successfully deleted the directory entry. Now we release its clusters.
-	fileClusters, err := drv.listClusters(dirent.FirstCluster)
-	if err != nil {
-		return err
-	}
-
+	//
 	// Release clusters starting from the end of the chain, not the beginning. This way,
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 60d81b4c2a37ee0264e8905cfa9191fb2199f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 57/69] verif: hooks for FAT checks (build tag verif)

---
 file_systems/fat/verif_hooks.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)
 create mode 100644 file_systems/fat/verif_hooks.go

diff --git a/file_systems/fat/verif_hooks.go b/file_systems/fat/verif_hooks.go
new file mode 100644
index 0000000..43e0660
--- /dev/null
+++ b/file_systems/fat/verif_hooks.go
@@ -0,0 +1,24 @@
+//go:build verif
+
+package fat
+
+// VerifNewFATDriver returns a driver over a caller-supplied table and disk.
+func VerifNewFATDriver(fs FATDriverCommon, diskFile any) *FATDriver {
+	return &FATDriver{fs: fs, diskFile: diskFile}
+}
+
+// VerifReadCluster returns the contents of one cluster.
+func (drv *FATDriver) VerifReadCluster(cluster ClusterID) ([]byte, error) {
+	return drv.readCluster(cluster)
+}
+
+// VerifListClusters returns the cluster chain beginning at `chainStart`.
+func (drv *FATDriver) VerifListClusters(chainStart ClusterID) ([]ClusterID, error) {
+	return drv.listClusters(chainStart)
+}
+
+// VerifReadClusterOfDirent returns the contents of the `index`th cluster of a
+// directory entry.
+func (drv *FATDriver) VerifReadClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
+	return drv.readClusterOfDirent(dirent, index)
+}
-- 
2.43.0


From 82c4748723eb093b1352c9ad18f92542c2b39c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 58/69] fix: FAT Remove must find the parent of paths with a
 trailing slash

---
 file_systems/fat/driverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index d38d365..b27805d 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -492,7 +492,8 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	parentDirent, err := drv.resolvePathToDirent(
+		posixpath.Dir(posixpath.Clean("/" + filepath.ToSlash(path))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 94d9a3107f5b9305909c0829df3eff560240c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 59/69] fix: Unix v6 inode sizes start with the high byte

---
 file_systems/unixv6/dirents.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..063f131 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,11 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The size is stored as the most significant byte followed by a 16-bit
+	// little-endian integer.
+	size := (uint(inode.Size[0]) << 16) |
+		uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From a366372e722497b9e801125d600439fe2e1141d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 60/69] fix: Unix v6 character devices use the portable mode
 bits

---
 file_systems/unixv6/dirents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index 063f131..00e2d8a 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -69,7 +69,7 @@ func ConvertFSFlagsToStandard(flags uint16) (os.FileMode, error) {
 	case FileTypeBlockDevice:
 		mode |= os.ModeDevice
 	case FileTypeCharDevice:
-		mode |= os.ModeCharDevice
+		mode |= os.ModeDevice | os.ModeCharDevice
 	case FileTypeDirectory:
 		mode |= os.ModeDir
 	}
@@ -89,7 +89,7 @@ func ConvertStandardFlagsToFS(flags os.FileMode) (uint16, error) {
 	mode := uint16(flags&os.ModePerm) | FlagIsAllocated
 
 	switch flags & os.ModeType {
-	case os.ModeCharDevice:
+	case os.ModeCharDevice, os.ModeDevice | os.ModeCharDevice:
 		mode |= FileTypeCharDevice
 	case os.ModeDevice:
 		mode |= FileTypeBlockDevice
-- 
2.43.0


From c87e5868814d643475b3a72731caf3e164957612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 61/69] fix: annotating an error made by NewError must keep its
 message

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index b4fe158..61e859d 100644
--- a/errors.go
+++ b/errors.go
@@ -70,6 +70,9 @@ func (e baseDiskoError) RootCause() DriverError {
 }
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
+	if e != rootError {
+		message = fmt.Sprintf("%s: %s", e.Error(), message)
+	}
 	return customDriverError{
 		message:       message,
 		originalError: e,
-- 
2.43.0


From e56b3e07dbc2d204996fc166ec798eb19d98ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 62/69] verif hooks: keep the ones that name internals apart

---
 file_systems/fat/verif_hooks.go               | 16 ----------------
 file_systems/fat/verif_internals.go           | 19 +++++++++++++++++++
 .../{verif_hooks.go => verif_internals.go}    |  2 +-
 3 files changed, 20 insertions(+), 17 deletions(-)
 create mode 100644 file_systems/fat/verif_internals.go
 rename file_systems/fat8/{verif_hooks.go => verif_internals.go} (93%)

diff --git a/file_systems/fat/verif_hooks.go b/file_systems/fat/verif_hooks.go
index 43e0660..b4b6cc0 100644
--- a/file_systems/fat/verif_hooks.go
+++ b/file_systems/fat/verif_hooks.go
@@ -6,19 +6,3 @@ package fat
 func VerifNewFATDriver(fs FATDriverCommon, diskFile any) *FATDriver {
 	return &FATDriver{fs: fs, diskFile: diskFile}
 }
-
-// VerifReadCluster returns the contents of one cluster.
-func (drv *FATDriver) VerifReadCluster(cluster ClusterID) ([]byte, error) {
-	return drv.readCluster(cluster)
-}
-
-// VerifListClusters returns the cluster chain beginning at `chainStart`.
-func (drv *FATDriver) VerifListClusters(chainStart ClusterID) ([]ClusterID, error) {
-	return drv.listClusters(chainStart)
-}
-
-// VerifReadClusterOfDirent returns the contents of the `index`th cluster of a
-// directory entry.
-func (drv *FATDriver) VerifReadClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
-	return drv.readClusterOfDirent(dirent, index)
-}
diff --git a/file_systems/fat/verif_internals.go b/file_systems/fat/verif_internals.go
new file mode 100644
index 0000000..632d6a3
--- /dev/null
+++ b/file_systems/fat/verif_internals.go
@@ -0,0 +1,19 @@
+//go:build verif && !verifmin
+
+package fat
+
+// VerifReadCluster returns the contents of one cluster.
+func (drv *FATDriver) VerifReadCluster(cluster ClusterID) ([]byte, error) {
+	return drv.readCluster(cluster)
+}
+
+// VerifListClusters returns the cluster chain beginning at `chainStart`.
+func (drv *FATDriver) VerifListClusters(chainStart ClusterID) ([]ClusterID, error) {
+	return drv.listClusters(chainStart)
+}
+
+// VerifReadClusterOfDirent returns the contents of the `index`th cluster of a
+// directory entry.
+func (drv *FATDriver) VerifReadClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
+	return drv.readClusterOfDirent(dirent, index)
+}
diff --git a/file_systems/fat8/verif_hooks.go b/file_systems/fat8/verif_internals.go
similarity index 93%
rename from file_systems/fat8/verif_hooks.go
rename to file_systems/fat8/verif_internals.go
index 98bba06..a0abe97 100644
--- a/file_systems/fat8/verif_hooks.go
+++ b/file_systems/fat8/verif_internals.go
@@ -1,4 +1,4 @@
-//go:build verif
+//go:build verif && !verifmin
 
 package fat8
 
-- 
2.43.0


From e7e1ecb4adde0b4cf98cd4d4a5b8b1e4c68ceef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 63/69] fix: NopObjectHandle panicked on Close and SameAs and
 lacked a usable Chtimes

The methods it doesn't define itself are promoted from an embedded interface
that is always nil, and Chtimes returned the wrong error type for
SupportsChtimesHandle.
---
 driver/nopobject.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..0be9bfd 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -69,7 +69,7 @@ func (obj NopObjectHandle) Chtimes(
 	lastModified,
 	lastChanged,
 	deletedAt time.Time,
-) error {
+) disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
@@ -78,6 +78,16 @@ func (obj NopObjectHandle) ListDir() ([]string, disko.DriverError) {
 	return nil, disko.ErrNotImplemented
 }
 
+// SameAs always returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
+
 // Name returns an empty string.
 func (obj NopObjectHandle) Name() string {
 	return ""
-- 
2.43.0


From aee783f8327f12939d063366d3337a1195712a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 64/69] fix: zipimage and unzipimage destroyed their input when
 the output was the same file

---
 cmd/unzipimage/main.go | 13 +++++++++++++
 cmd/zipimage/main.go   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index b5a88d7..f72c096 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -27,6 +27,19 @@ func main() {
 	}
 	defer sourceFile.Close()
 
+	// Creating the output file would erase the input.
+	sourceInfo, errSrc := sourceFile.Stat()
+	outInfo, errOut := os.Stat(outputFilePath)
+	if errSrc == nil && errOut == nil && sourceInfo.Mode().IsRegular() &&
+		os.SameFile(sourceInfo, outInfo) {
+		fmt.Fprintf(
+			os.Stderr,
+			"Input and output are the same file: `%v` and `%v`\n",
+			sourceFilePath,
+			outputFilePath)
+		os.Exit(1)
+	}
+
 	outFile, errOut := os.Create(outputFilePath)
 	if errOut != nil {
 		fmt.Fprintf(
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index c26bea7..4f05bdf 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -27,6 +27,19 @@ func main() {
 	}
 	defer sourceFile.Close()
 
+	// Creating the output file would erase the input.
+	sourceInfo, errSrc := sourceFile.Stat()
+	outInfo, errOut := os.Stat(outputFilePath)
+	if errSrc == nil && errOut == nil && sourceInfo.Mode().IsRegular() &&
+		os.SameFile(sourceInfo, outInfo) {
+		fmt.Fprintf(
+			os.Stderr,
+			"input and output are the same file: `%v` and `%v`\n",
+			sourceFilePath,
+			outputFilePath)
+		os.Exit(1)
+	}
+
 	outFile, errOut := os.Create(outputFilePath)
 	if errOut != nil {
 		fmt.Fprintf(
-- 
2.43.0


From 98eb6fda64d4567e9cc254c723787f0da74e7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 65/69] fix: zipimage and unzipimage ignored errors of closing
 their output

---
 cmd/unzipimage/main.go | 6 +++++-
 cmd/zipimage/main.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index f72c096..85f78e7 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -46,9 +46,13 @@ func main() {
 			os.Stderr, "Failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.DecompressImage(sourceFile, outFile)
+	// Some file systems report a failed write only here.
+	errClose := outFile.Close()
+	if err == nil {
+		err = errClose
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error expanding file: %s\n", err)
 		os.Exit(2)
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index 4f05bdf..9c09454 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -46,9 +46,13 @@ func main() {
 			os.Stderr, "failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.CompressImage(sourceFile, outFile)
+	// Some file systems report a failed write only here.
+	errClose := outFile.Close()
+	if err == nil {
+		err = errClose
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "error compressing file: %s\n", err)
 		os.Exit(2)
-- 
2.43.0


From b42e2e73fd7f1ccb70a14feb513b7adf09edc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 66/69] fix: FAT timestamps were a day early on days without a
 midnight

TimestampFromParts took the date from DateFromInt's midnight, which in time zones whose clocks go forward at midnight can be 23:00 of the day before.
---
 file_systems/fat/dirent.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 0e3b5cf..c8ddf66 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -173,18 +173,25 @@ const DirentSize = 32
 // DateFromInt converts the FAT on-disk representation of a date into a [time.Time]
 // object.
 func DateFromInt(value uint16) time.Time {
-	createDay := int(value & 0x001f)
-	createMonth := time.Month((value >> 5) & 0x000f)
-	createYear := int(1980 + (value >> 9))
-
+	createYear, createMonth, createDay := splitDate(value)
 	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
+// splitDate extracts the fields of the FAT on-disk representation of a date.
+func splitDate(value uint16) (year int, month time.Month, day int) {
+	day = int(value & 0x001f)
+	month = time.Month((value >> 5) & 0x000f)
+	year = int(1980 + (value >> 9))
+	return
+}
+
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
 // datePart is required; timePart and hundredths should be 0 if they're not
 // present in the source field(s).
 func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time.Time {
-	dateDt := DateFromInt(datePart)
+	// Don't go through DateFromInt() for these: in time zones where the clocks go
+	// forward at midnight, the midnight it asks for may end up on the day before.
+	year, month, day := splitDate(datePart)
 
 	seconds := int((timePart & 0x001f) * 2)
 	if hundredths >= 100 {
@@ -197,9 +204,9 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(),
-		dateDt.Month(),
-		dateDt.Day(),
+		year,
+		month,
+		day,
 		hours,
 		minutes,
 		seconds,
-- 
2.43.0


From f840b01875af86f58fa5e75d2d5246cd05a93572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 67/69] verif: hook to make a file known to a mounted FAT8
 driver

---
 file_systems/fat8/verif_internals.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/file_systems/fat8/verif_internals.go b/file_systems/fat8/verif_internals.go
index a0abe97..1e2b6ab 100644
--- a/file_systems/fat8/verif_internals.go
+++ b/file_systems/fat8/verif_internals.go
@@ -11,3 +11,19 @@ func VerifDirent(clusters []PhysicalCluster) *DirectoryEntry {
 func (driver *FAT8Driver) VerifFreeClusters() []uint8 {
 	return append([]uint8(nil), driver.freeClusters...)
 }
+
+// VerifAddFile makes a file known to a mounted driver.
+func (driver *FAT8Driver) VerifAddFile(
+	name string, index uint, clusters []PhysicalCluster, isBinary bool, unusedSectors uint,
+) {
+	if driver.dirents == nil {
+		driver.dirents = map[string]DirectoryEntry{}
+	}
+	driver.dirents[name] = DirectoryEntry{
+		name:                       name,
+		index:                      index,
+		clusters:                   clusters,
+		IsBinary:                   isBinary,
+		UnusedSectorsInLastCluster: unusedSectors,
+	}
+}
-- 
2.43.0


From e7ba96e093d59854cb6d3083fcc0625f53799760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 68/69] fix: operations on a closed file succeeded and writes
 were lost

---
 driver/file.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/driver/file.go b/driver/file.go
index 8d38001..c77c160 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -250,14 +250,52 @@ func (file *File) syncIfNeeded(err error) error {
 	return err
 }
 
+// Read implements [io.Reader].
+func (file *File) Read(buffer []byte) (int, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
+	return file.BasicStream.Read(buffer)
+}
+
+// ReadAt implements [io.ReaderAt].
+func (file *File) ReadAt(buffer []byte, offset int64) (int, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
+	return file.BasicStream.ReadAt(buffer, offset)
+}
+
+// Seek implements [io.Seeker].
+func (file *File) Seek(offset int64, whence int) (int64, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
+	return file.BasicStream.Seek(offset, whence)
+}
+
+// WriteTo implements [io.WriterTo].
+func (file *File) WriteTo(w io.Writer) (int64, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
+	return file.BasicStream.WriteTo(w)
+}
+
 // Write implements [io.Writer].
 func (file *File) Write(buffer []byte) (int, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
 	n, err := file.BasicStream.Write(buffer)
 	return n, file.syncIfNeeded(err)
 }
 
 // WriteAt implements [io.WriterAt].
 func (file *File) WriteAt(buffer []byte, offset int64) (int, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
 	n, err := file.BasicStream.WriteAt(buffer, offset)
 	return n, file.syncIfNeeded(err)
 }
@@ -269,12 +307,18 @@ func (file *File) WriteString(s string) (int, error) {
 
 // ReadFrom implements [io.ReaderFrom].
 func (file *File) ReadFrom(r io.Reader) (int64, error) {
+	if file.state.closed {
+		return 0, disko.ErrFileDescriptorBadState
+	}
 	n, err := file.BasicStream.ReadFrom(r)
 	return n, file.syncIfNeeded(err)
 }
 
 // Truncate resizes the file to the given number of bytes.
 func (file *File) Truncate(size int64) error {
+	if file.state.closed {
+		return disko.ErrFileDescriptorBadState
+	}
 	return file.syncIfNeeded(file.BasicStream.Truncate(size))
 }
 
-- 
2.43.0


From 275c661c380ec364f966d65a7e6dc5764e2ae4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 69/69] fix: report writes that a wrapped stream has no room
 for

WrapStream() ignored io.EOF from writing a block, so flushing to a stream
that can't grow claimed success and marked the block clean without storing it.
---
 file_systems/common/blockcache/blockcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 832d145..643cec7 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -133,7 +133,7 @@ func WrapStream(
 			_, err = stream.Write(buffer)
 		}
 
-		if err != nil && err != io.EOF {
+		if err != nil && !(read && err == io.EOF) {
 			return err
 		}
 		return nil
-- 
2.43.0

