From 3cf860d8336a2125a4cb8dec2137495f7aec1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 01/56] fix: adaptive pass closes an idle worker's channel
 twice

A worker that gets no bins in a pass had its channel closed at once and
again by the sender at the end of the pass: close of closed channel. The
sender could also still be closing channels when the pass dropped inChans.
---
 indexedhashes3/adaptivepass.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..b4b6a8a 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening; the sender closes the channel in the end
 			}
 
 			wg.Add(1)
@@ -335,7 +334,9 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
+		wg.Add(1) // The pass isn't over (and inChans mustn't be dropped) until the sender has finished too
 		go func() {
+			defer wg.Done()
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
-- 
2.43.0


From ae0fc56311ab0216246bee73ca88d472f3fa0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 02/56] fix: adaptive preloader ignores an error of its
 counting stage

The bins were then never written and IndexTheHashes reported success.
---
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..2d362e4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From efef3cbe96054f02393f1045b07f54c1664f9c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 03/56] fix: reading an array whose file was never needed is
 not an error

An address that was paid once has no further outputs; when no address of
its file had any, the file doesn't exist and its history was unreadable.
---
 intarrayarray/cachedintarraymapstore.go | 3 +++
 intarrayarray/intarraymapstore.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..9c36c9d 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,6 +53,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing has ever been appended to any array of that file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..79d26fd 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -45,6 +45,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing has ever been appended to any array of that file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From bf266c7c7cefe3587aafc188d0240beb1614b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 04/56] fix: an empty word file can't be opened memory-mapped

mmap of zero bytes fails with EINVAL, so a database whose chain has no
inputs yet could not be opened for reading in ram.
---
 memfile/mmapfile.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 20fcbe4..bd8980b 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -18,6 +18,18 @@ var _ io.Closer = (*MmapReadOnly)(nil)
 var _ LookupFile = (*MmapReadOnly)(nil)
 
 func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
+	// An empty file can't be mapped (and needn't be)
+	stat, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if stat.Size() == 0 {
+		return &MmapReadOnly{
+			data: nil,
+			file: f,
+		}, nil
+	}
+
 	// Map as read-only. 0 is the flag for default behaviour.
 	m, err := mmap.Map(f, mmap.RDONLY, 0)
 	if err != nil {
@@ -45,12 +57,18 @@ func (m *MmapReadOnly) ReadAll() ([]byte, error) {
 }
 
 func (m *MmapReadOnly) Sync() error {
+	if m.data == nil {
+		return nil // Empty file
+	}
 	return m.data.Flush()
 }
 
 func (m *MmapReadOnly) Close() error {
 	// 1. Unmap the memory first
-	err := m.data.Unmap()
+	var err error
+	if m.data != nil { // (An empty file isn't mapped)
+		err = m.data.Unmap()
+	}
 	// 2. Close thee underlying file
 	if fErr := m.file.Close(); fErr != nil {
 		return fErr
-- 
2.43.0


From d0464a8655891c81e43c72699813bbe2062b003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 05/56] fix: one announcement of freed memory wakes only one of
 the waiters

---
 memblocker/memblocker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index a4b997a..cfd2f81 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -43,7 +43,8 @@ func (mb *MemBlocker) StartFreeingMem() {
 }
 func (mb *MemBlocker) MemoryWasFreed() {
 	mb.someBytesFreedCond.L.Unlock()
-	mb.someBytesFreedCond.Signal()
+	// Broadcast, because what was freed may be enough for more than one waiter
+	mb.someBytesFreedCond.Broadcast()
 }
 
 // countAllocatedMemory returns the current process heap allocation.
-- 
2.43.0


From 3cb92e2730d6e2b35582ceddd8ecbd3e8f839876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 06/56] fix: a failed, short or foreign header response yields
 invented block hashes

---
 corereader2/blockhashes.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..f7a12d1 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,7 @@
 package corereader2
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -43,10 +44,18 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			close(channel)
 			return err
 		}
-		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
-		err = resp.Body.Close()
+		// Fewer headers than we ask for come back when we are near the tip of the blockchain
+		bodyOutHeaders, err := io.ReadAll(resp.Body)
+		closeErr := resp.Body.Close()
+		if err == nil {
+			err = closeErr
+		}
+		if err == nil && resp.StatusCode != 200 {
+			err = errors.New("StreamBlockHashes(): response is not 200 OK: " + resp.Status)
+		}
+		if err == nil && (len(bodyOutHeaders) == 0 || len(bodyOutHeaders)%80 != 0 || len(bodyOutHeaders) > 80*1002) {
+			err = errors.New("StreamBlockHashes(): response is not a list of headers")
+		}
 		if err != nil {
 			fmt.Println(err.Error())
 			close(channel)
@@ -54,7 +63,7 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 		}
 
 		// Each header is 80 bytes. header counts from 0
-		for header := range len(bodyOutHeaders)/80 - 2 {
+		for header := range min(len(bodyOutHeaders)/80-1, 1000) {
 			// We will ignore the first header, as the second header contains the hash of the first block (as "prev hash")
 			offset := (header + 1) * 80
 
-- 
2.43.0


From ac170fd5f3c90cc5a2ff50af7020ed4e0668c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 07/56] fix: bodies of failed block responses are never closed

---
 corereader2/getparseblocksbinary.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 901ef0a..9e2341a 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -95,10 +95,12 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 									fmt.Printf("Error closing response body\n")
 								}
 							} else {
+								resp.Body.Close()
 								fmt.Println(err.Error())
 								fmt.Printf("ReadAll() returned error\n")
 							}
 						} else {
+							resp.Body.Close()
 							fmt.Println(resp.Status)
 							fmt.Printf("Response is not 200 OK\n")
 						}
-- 
2.43.0


From e0198e858bad4c48c17f61442ff9bdccfb30650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 08/56] fix: a phase reports success when the hash stream
 failed or data could not be written at its end

---
 jobs/intrinsicparallel.go | 56 +++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..46c0ec9 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -287,11 +287,9 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -351,8 +349,14 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		progress.Update(transCount)
 	}
 
+	// The blocks also come to an end when the stream of hashes fails
+	err = <-streamResult
+	if err == nil {
+		// Close() has no way of reporting that buffered hashes can't be written
+		err = hc.Sync()
+	}
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -369,11 +373,9 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -436,8 +438,14 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 		progress.Update(transCount)
 	}
 
+	// The blocks also come to an end when the stream of hashes fails
+	err = <-streamResult
+	if err == nil {
+		// Close() has no way of reporting that buffered hashes can't be written
+		err = hc.Sync()
+	}
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
@@ -449,11 +457,9 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -531,8 +537,14 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// The blocks also come to an end when the stream of hashes fails
+	err = <-streamResult
+	if err == nil {
+		// Close() has no way of reporting that buffered data can't be written
+		err = ac.Sync()
+	}
 	ac.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
@@ -544,11 +556,9 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -622,8 +632,14 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// The blocks also come to an end when the stream of hashes fails
+	err := <-streamResult
+	if err == nil {
+		// Close() has no way of reporting that buffered data can't be written
+		err = ac.Sync()
+	}
 	ac.Close()
-	return nil
+	return err
 }
 
 type Progress struct {
-- 
2.43.0


From f9e4f2d1b54778a3e579120b13f105c89c8930fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 09/56] fix: ingestion fails when standard output can't be
 synced

---
 indexedhashes3/multipasspreloader.go | 6 ++----
 jobs/intrinsicparallel.go            | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..ea0ec17 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -49,10 +49,8 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		// Not every standard output (a pipe, say) can be synced, so this is only an attempt
+		_ = os.Stdout.Sync()
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 46c0ec9..f4b4ea6 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -694,10 +694,8 @@ func (p *Progress) Update(currentItem int64) {
 			float64(100)*float64(currentItem-p.startItem)/float64(p.endItem-p.startItem),
 			p.taskName, prediction.Format(dateFormat), int(math.Round(itemsPerSecond)))
 		fmt.Printf("%s%s          ", p.backslashR, msg)
-		err := os.Stdout.Sync()
-		if err != nil {
-			panic(err)
-		}
+		// Not every standard output (a pipe, say) can be synced, so this is only an attempt
+		_ = os.Stdout.Sync()
 
 		p.checkpointTime = now
 		p.checkpointItem = currentItem
-- 
2.43.0


From a3de6a94527b68ee202ec0cada29ef19192cc732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 10/56] fix: a failure to append an address hash goes unnoticed

---
 chainstorage/concretehasheschain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
-- 
2.43.0


From a2c917f5ff4f2a9f821c7c1628303d74bdbaf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 11/56] fix: a transaction that is not indexed is written at
 height -1

---
 chainstorage/concreteappendablechain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..c7550d4 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -223,6 +223,9 @@ func (cac *concreteAppendableChain) appendTransactionFrame(blockChain chainreadi
 		if err != nil {
 			return -1, err
 		}
+		if transNum == -1 {
+			return -1, errors.New("hash of transaction should already be known")
+		}
 		if trans.HeightSpecified() && trans.Height() != transNum {
 			panic("cannot append a transaction out of sequence")
 		}
@@ -695,6 +698,12 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 	if !cac.transactionIndexingIsDelegated {
 		// We now assume that all hashes have already been stored and indexed
 		transNum, err := cac.trnHashes.IndexOfHash(&transHash) // ToDo is this legal in the face of duplicate trans hashes?
+		if err != nil {
+			return -1, err
+		}
+		if transNum == -1 {
+			return -1, errors.New("hash of transaction should already be known")
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
-- 
2.43.0


From 3cef99c9920d0949b74c54f1586396c474fd056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 12/56] fix: an input whose source transaction is not indexed
 is stored with source -1

---
 chainstorage/concreteappendablechain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index c7550d4..e6239f4 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -423,6 +423,9 @@ func (cac *concreteAppendableChain) appendTxi(txi chainreadinterface.ITxi, trans
 		if err != nil {
 			return -1, err
 		}
+		if sourceTransHeight == -1 {
+			return -1, errors.New("hash of source transaction should already be known")
+		}
 	} else {
 		panic("source trans must be specified somehow")
 	}
@@ -832,6 +835,9 @@ func (cac *concreteAppendableChain) appendTxiChi(txi *chainhandleinterface.TxiRe
 	if err != nil {
 		return -1, err
 	}
+	if sourceTransHeight == -1 {
+		return -1, errors.New("hash of source transaction should already be known")
+	}
 
 	var txiHeight int64
 	txiHeight, err = cac.txiTx.CountWords()
-- 
2.43.0


From fa0b7fa069ca5ae3e576f31f577b87c55fc03700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 13/56] fix: the readable view of an appendable chain has no
 parents

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e6239f4..82e7f08 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -65,6 +65,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From 66e8fe001e12c31a3f0801c7bdc5636b6a58d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 14/56] fix: a non-essential int file that exists but can not
 be opened is silently left out

---
 chainstorage/concreteappendablechainfactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..3ea414f 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -479,6 +479,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := blkNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !os.IsNotExist(err) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -490,6 +493,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := trnNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !os.IsNotExist(err) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -700,6 +706,8 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := blkNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !os.IsNotExist(err) {
+			return nil, err
 		}
 	}
 
@@ -711,6 +719,8 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := trnNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !os.IsNotExist(err) {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 9dc56cd9523950ac4f2fc390c852aa771522b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 15/56] fix: a block or transaction handle looked up by hash
 can not tell its hash

---
 chainstorage/concretereadablechain.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..167dd21 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -269,7 +269,10 @@ func (crc *concreteReadableChain) AddressHandleByHeight(addressHeight int64) (ch
 }
 func (crc *concreteReadableChain) AddressHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IAddressHandle, error) {
 	result := AddressHandle{}
-	index, _ := crc.addrHashes.IndexOfHash(&sha256)
+	index, err := crc.addrHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("address hash not found")
 	}
@@ -285,25 +288,33 @@ func (crc *concreteReadableChain) AddressHandleByString(address string) (chainre
 
 func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.ITransHandle, error) {
 	result := TransHandle{}
-	index, _ := crc.trnHashes.IndexOfHash(&sha256)
+	index, err := crc.trnHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
 func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IBlockHandle, error) {
 	result := BlockHandle{}
-	index, _ := crc.blkHashes.IndexOfHash(&sha256)
+	index, err := crc.blkHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From aeff79edf3a6aa46310a752455b9c297ba2fe822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 16/56] fix: hashes appended after reopening overwrite those
 from before

---
 chainstorage/concretehasheschainfactory.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..1cf1d3f 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -97,7 +97,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	info, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.blkHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -107,7 +111,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	info, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.trnHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -117,7 +125,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	info, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.adrHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	return &result, nil
 }
-- 
2.43.0


From 1c0c0b586ab2cdddbe19fd265248ad6189c1e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 17/56] fix: an array file that exists but can not be read or
 saved is later overwritten without its data

---
 intarrayarray/cachedintarraymapstore.go |  7 ++++---
 intarrayarray/intarraymapstore.go       | 25 ++++++++++++++++---------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 9c36c9d..cf8dafb 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -83,8 +83,9 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		// (We don't mind if there's no file yet, we just stay empty)
+		return nil, err
 	}
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
@@ -134,7 +135,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 79d26fd..c6f510f 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -71,7 +71,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
@@ -79,13 +82,15 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		if err != nil {
 			return err
 		}
+		ms.latestFilepath = "" // The previous latest is replaced, even if the following fails
+		err = ms.latestIntArrayArray.LoadFile(filepath)
+		if err != nil && !os.IsNotExist(err) {
+			// (We don't mind about file not found, happy to be empty)
+			return err
+		}
 		// Make a note of the filename and number
 		ms.latestFilepath = filepath
 		ms.latestFileNumber = fileNumber
-		err = ms.latestIntArrayArray.LoadFile(filepath)
-		if err != nil {
-			// We don't mind about file not found, happy to be empty
-		}
 		// Append to the array
 		ms.latestIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
@@ -113,12 +118,14 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 			}
 		}
 		// We can now safely load the required file into "older"
-		// Make a note of the filename
-		ms.olderFilepath = filepath
+		ms.olderFilepath = "" // The previous older is replaced, even if the following fails
 		err := ms.olderIntArrayArray.LoadFile(filepath)
-		if err != nil {
-			// We don't mind a file not found here
+		if err != nil && !os.IsNotExist(err) {
+			// (We don't mind a file not found here)
+			return err
 		}
+		// Make a note of the filename
+		ms.olderFilepath = filepath
 		// And append to it
 		ms.olderIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
-- 
2.43.0


From ac65ed6523cab15cb595017dc3564500aa1143e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 18/56] fix: an older array file in a new folder can never be
 saved

---
 intarrayarray/intarraymapstore.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index c6f510f..b90c3b5 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -106,13 +106,7 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 			if err != nil {
 				return err
 			}
@@ -124,6 +118,11 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 			// (We don't mind a file not found here)
 			return err
 		}
+		// Don't forget to create the folder... as it may not exist yet
+		err = os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// Make a note of the filename
 		ms.olderFilepath = filepath
 		// And append to it
-- 
2.43.0


From 8158799773d967a61595083f0768cc14d19127f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 19/56] fix: a full array cache is trimmed forever

---
 intarrayarray/cachedintarraymapstore.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index cf8dafb..869f6cc 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -92,14 +92,17 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return &cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
-	oldest := ms.lastAccessCounter // Start at latest
+	oldest := ms.lastAccessCounter + 1 // Start later than the latest
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
@@ -148,6 +151,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 		sep := string(os.PathSeparator)
 		foldersFilename = folders + sep + filename
 	}
+	ms.mapFolderFilenameToArrayArray[foldersFilename] = *cached // Its tally has changed
 	ms.lastAccessCounter++
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = ms.lastAccessCounter
 
-- 
2.43.0


From 9743a38d207270778358207a3324a14aae021201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 20/56] fix: reading the whole of a read-only file never
 returns

---
 memfile/filewithsize.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..1cd62b5 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -31,4 +31,15 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	stat, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	data := make([]byte, stat.Size())
+	_, err = fws.file.ReadAt(data, 0)
+	if err != nil {
+		return nil, err
+	}
+	return data, nil
+}
-- 
2.43.0


From 5d5eebd3a2d829b46e466ef2c9931e4f6aa79e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 21/56] fix: reading the whole of a file starts wherever the
 last access ended

---
 memfile/appendoptimized.go |  7 +++++--
 wordfile/wordfile.go       | 10 ++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..97f298d 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,10 +46,13 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	info, _ := a.file.Stat()
+	info, err := a.file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	size := info.Size()
 	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	_, err = a.file.ReadAt(data, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..cbe8c61 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -84,14 +84,12 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
-	size := info.Size()
-	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
-	if err != nil {
+	items := wf.wordCount
+	data := make([]byte, items*wf.wordSize)
+	_, err := wf.file.ReadAt(data, 0)
+	if err != nil && !(err == io.EOF && items == 0) {
 		return nil, err
 	}
-	items := size / wf.wordSize
 	data64 := make([]int64, items)
 	for i := int64(0); i < items; i++ {
 		var intBytes [8]byte
-- 
2.43.0


From 6f02687300f85054b9b568f0ce8bd1f287d0196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 22/56] fix: words read after writing too big a value have its
 upper bytes

---
 wordfile/wordfile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index cbe8c61..94cb308 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -46,6 +46,7 @@ func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
+	clear(wf.scratch8[wf.wordSize:]) // A value too big for a word may have been written
 	word := int64(binary.LittleEndian.Uint64(wf.scratch8[:])) // Remember scratch's data is INSIDE scratch8
 	return word, nil
 }
-- 
2.43.0


From 6bb9fcb516c062c44c114d0bee4c437f6442e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 23/56] fix: a word that could not be written is read back from
 the shadow

---
 wordfile/memshadowedwordfile.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..22cddc3 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -34,7 +34,11 @@ func (wf *MemShadowedWordFile) ReadWholeFileAsInt64s() ([]int64, error) {
 }
 
 func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
-	// Write to shadow and underlying
+	// Write to underlying and shadow
+	err := wf.underlying.WriteWordAt(val, off)
+	if err != nil {
+		return err
+	}
 	length := int64(len(wf.shadow))
 	if off >= length {
 		newVals := off + 1 - length
@@ -43,9 +47,7 @@ func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
 		}
 	}
 	wf.shadow[off] = val
-
-	err := wf.underlying.WriteWordAt(val, off)
-	return err
+	return nil
 }
 
 func (wf *MemShadowedWordFile) CountWords() (words int64, err error) {
-- 
2.43.0


From 11664cf20410c81b3938f185e861e66ae61b0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 24/56] fix: an append after a failed append goes to the wrong
 place

---
 memfile/appendoptimized.go | 14 ++++++++------
 wordfile/wordfile.go       |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 97f298d..18bdd8d 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -67,8 +67,7 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 			// So we just squirt it through the buffer
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
-				// A failed append doesn't count as an append
-				a.bufferedWriter = nil
+				// Earlier appends are lost too. The writer we keep goes on reporting the error
 				a.totalSize += int64(nWritten)
 				return nWritten, err
 			}
@@ -93,13 +92,15 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		// Previous operation was not append. But what about this operation?
 		if off == a.totalSize {
 			// Yes it is an append, set up a buffer and use it
-			a.file.Seek(0, io.SeekEnd)
+			_, err = a.file.Seek(0, io.SeekEnd)
+			if err != nil {
+				return 0, err
+			}
 			a.bufferedWriter = bufio.NewWriter(a.file)
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
-				// A failed append doesn't count as an append
+				// The writer we keep goes on reporting the error
 				a.totalSize += int64(nWritten)
-				a.bufferedWriter = nil
 				return nWritten, err
 			}
 			a.nextAppendOffset = off + int64(nWritten)
@@ -117,10 +118,11 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 
 func (a *appendOptimizedFile) Close() error {
 	er := a.flush()
+	err := a.file.Close()
 	if er != nil {
 		return er
 	}
-	return a.file.Close()
+	return err
 }
 
 func (a *appendOptimizedFile) Size() int64 {
diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index 94cb308..7ace182 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -46,7 +46,7 @@ func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	clear(wf.scratch8[wf.wordSize:]) // A value too big for a word may have been written
+	clear(wf.scratch8[wf.wordSize:])                          // A value too big for a word may have been written
 	word := int64(binary.LittleEndian.Uint64(wf.scratch8[:])) // Remember scratch's data is INSIDE scratch8
 	return word, nil
 }
-- 
2.43.0


From 40e872e677b264889f1696ec6187c9bc65e985a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 25/56] fix: reading beyond the end of a shadowed word file
 panics

---
 wordfile/memshadowedwordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index 22cddc3..284fcf1 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"github.com/KitchenMishap/pudding-shed/memfile"
+	"io"
 	"os"
 )
 
@@ -25,6 +26,9 @@ func NewMemShadowedWordFile(file memfile.AppendableLookupFileReadAll, underlying
 }
 
 func (wf *MemShadowedWordFile) ReadWordAt(off int64) (int64, error) {
+	if off < 0 || off >= int64(len(wf.shadow)) {
+		return -1, io.EOF // As the underlying file does
+	}
 	// Just read the shadow
 	return wf.shadow[off], nil
 }
-- 
2.43.0


From ad213f38838a5905182a7746210776608b3cab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 26/56] fix: hashes of an overflow file that can not be read
 are taken to be absent

---
 indexedhashes3/binfiles.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..b4bc00c 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -32,10 +32,10 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
-			// Do nothing when file doesn't exist
-		} else {
+		if err == nil {
 			theBinBytes = append(theBinBytes, overflowBytes...)
+		} else if !os.IsNotExist(err) { // (Do nothing when file doesn't exist)
+			return nil, err
 		}
 	}
 
@@ -63,10 +63,10 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
-			// Do nothing when file doesn't exist
-		} else {
+		if err == nil {
 			theBinBytes = append(theBinBytes, overflowBytes...)
+		} else if !os.IsNotExist(err) { // (Do nothing when file doesn't exist)
+			return err
 		}
 	}
 
-- 
2.43.0


From f65e054de2ac4af227483a36c1162ed4a8896b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 27/56] fix: a failure to write the parameters of an index goes
 unnoticed

---
 indexedhashes3/hashstorecreator.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..8841614 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -25,10 +25,10 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(params, hashStoreFolderPath)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -50,10 +50,10 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(params, hashStoreFolderPath)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -72,6 +72,14 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	return creator, preloader, nil
 }
 
+func writeParamsFile(params *HashIndexingParams, hashStoreFolderPath string) error {
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(hashStoreFolderPath+string(os.PathSeparator)+"HashIndexingParams.json", byts, 0666)
+}
+
 func NewHashStoreCreatorFromFile(
 	folder string, name string, hashesInRamDANGER bool) (indexedhashes.HashStoreCreator, error) {
 	sep := string(os.PathSeparator)
-- 
2.43.0


From c97205a212d81bc8f3a8bc4be4bb1b02d774155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 28/56] fix: a new hash store only has room for its first bin

---
 indexedhashes3/hashstorecreator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index 8841614..2eed33a 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -135,11 +135,12 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	err = binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 	if err != nil {
+		_ = binStartsFile.Close()
 		return err
 	}
-	return nil
+	return binStartsFile.Close()
 }
 
 func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
-- 
2.43.0


From 2cca5db324dc11df72a07b4616704ebac1aefaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 29/56] fix: adaptive pass fails when a read of the hashes file
 returns less than it asked for

---
 indexedhashes3/adaptivepass.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index b4b6a8a..45c2129 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -2,7 +2,6 @@ package indexedhashes3
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -68,14 +67,10 @@ func stageOneCountBinWork(hashesFilepath string, params *HashIndexingParams) ([]
 	// Read first hash
 	hi := int64(0)
 
-	var bytesRead int
-	bytesRead, err = reader.Read(hash[:])
+	_, err = io.ReadFull(reader, hash[:])
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
-	if bytesRead != 32 && err != io.EOF {
-		return nil, errors.New("stageOneCountBinHashes(): Couldn't read 32 bytes")
-	}
 	for err != io.EOF {
 		h := Hash(hash[:])
 		abbr := h.toAbbreviatedHash()
@@ -84,13 +79,10 @@ func stageOneCountBinWork(hashesFilepath string, params *HashIndexingParams) ([]
 		result[bn].hashCount++
 
 		// Read next hash
-		bytesRead, err = reader.Read(hash[:])
+		_, err = io.ReadFull(reader, hash[:])
 		if err != nil && err != io.EOF {
 			return nil, err
 		}
-		if bytesRead != 32 && err != io.EOF {
-			return nil, errors.New("stageOneCountBinHashes(): Couldn't read 32 bytes")
-		}
 		hi++
 	}
 	err = fil.Close()
@@ -349,14 +341,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 			hi := int64(0)
 
 			// Read first hash
-			var bytesRead int
-			bytesRead, ferr = hashesReader.Read(hash[:])
+			_, ferr = io.ReadFull(hashesReader, hash[:])
 			if ferr != nil && ferr != io.EOF {
 				panic(ferr) // ToDo
 			}
-			if bytesRead != 32 && ferr != io.EOF {
-				panic("stageOneCountBinHashes(): Couldn't read 32 bytes") // ToDo
-			}
 			for ferr != io.EOF {
 				h := Hash(hash[:])
 				abbr := h.toAbbreviatedHash()
@@ -383,13 +371,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 				}
 
 				// Read next hash
-				bytesRead, ferr = hashesReader.Read(hash[:])
+				_, ferr = io.ReadFull(hashesReader, hash[:])
 				if ferr != nil && ferr != io.EOF {
 					panic(ferr) // ToDo
 				}
-				if bytesRead != 32 && ferr != io.EOF {
-					panic("stageOneCountBinHashes(): Couldn't read 32 bytes")
-				}
 				hi++
 			}
 			// We have sent all the hashes, close all the workers' chans
-- 
2.43.0


From 21b254108fac094eb750b8a656298a71a35bceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 30/56] fix: a hash that shares its sort number with another in
 its bin cannot be found

---
 indexedhashes3/binbytes.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..4708202 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -211,7 +211,16 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 		} else if snMid > sn {
 			return startIndex, midIndex
 		} else {
-			// Equal
+			// Equal, but hashes that share their sort number sit side by side. Step back to the first of them
+			// (we know snStart < sn, so there is always an entry before midIndex to compare with)
+			for {
+				entryBefore := b.getEntry(midIndex-1, p)
+				_, snBefore := entryBefore.getHashIndexSortNum(p)
+				if snBefore != sn {
+					break
+				}
+				midIndex--
+			}
 			return midIndex, midIndex // END
 		}
 	} else {
-- 
2.43.0


From 4a77054bfb57a16f43539ed2cf22768ec607afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 31/56] fix: overflow files of an earlier index are taken for
 part of a new one

---
 indexedhashes3/adaptivepasspreloader.go | 5 +++++
 indexedhashes3/hashstorecreator.go      | 7 ++++++-
 indexedhashes3/multipasspreloader.go    | 5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 2d362e4..4209159 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -153,6 +153,11 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
+	// Overflow files of an earlier index here would be taken for part of the new one
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index 2eed33a..3133dc8 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -128,8 +128,13 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	// Create the BinStarts file and truncate to the required size
+	// Overflow files of an earlier store here would be taken for part of the new one
 	sep := string(os.PathSeparator)
+	err = os.RemoveAll(c.folderPath + sep + "BinOverflows")
+	if err != nil {
+		return err
+	}
+	// Create the BinStarts file and truncate to the required size
 	binStartsFilename := c.folderPath + sep + "BinStarts.bes"
 	binStartsFile, err := os.Create(binStartsFilename)
 	if err != nil {
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index ea0ec17..8016107 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -179,6 +179,11 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
+	// Overflow files of an earlier index here would be taken for part of the new one
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From 46039d983f113356e39328a1cd64d2de88550c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 32/56] fix: a failed append to the lookup hash store loses the
 hash it collides with

---
 indexedhashes/hashstore.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..514ed00 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -113,36 +113,40 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			log.Println("AppendHash(): FATAL: Size of collisions file is now too large to index into")
 			return -1, err
 		}
-		chunkIndexBytes := [8]byte{0, 0, 0, 0, 0, 0, 0, 0}
-		binary.LittleEndian.PutUint64(chunkIndexBytes[0:8], uint64((availableChunks+1)|MSB))
-		_, err = hs.lookupsFile.WriteAt(chunkIndexBytes[0:NBYTES], partialKey*NBYTES)
-		if err != nil {
-			log.Println(err)
-			log.Println("AppendHash(): Could not WriteAt() into lookups file")
-			return -1, err
-		}
+		// (Rounded down, in case a previous attempt left part of a chunk)
+		chunkOffset := availableChunks * NBYTES * (CPC + 1)
 
 		// Append lookup to collisions file
-		_, err = hs.collisionsFile.WriteAt(lookupBytes[0:NBYTES], filestat.Size())
+		_, err = hs.collisionsFile.WriteAt(lookupBytes[0:NBYTES], chunkOffset)
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
 		// Append valnum+1 to collisions file
-		_, err = hs.collisionsFile.WriteAt(valnumBytes[0:NBYTES], filestat.Size()+NBYTES)
+		_, err = hs.collisionsFile.WriteAt(valnumBytes[0:NBYTES], chunkOffset+NBYTES)
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
 		var zeroBytes [ZEROBUF]byte
-		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:(CPC+1-2)*NBYTES], filestat.Size()+NBYTES*2)
+		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:(CPC+1-2)*NBYTES], chunkOffset+NBYTES*2)
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
+
+		// Only once the chunk is all there can the lookup file refer to it
+		chunkIndexBytes := [8]byte{0, 0, 0, 0, 0, 0, 0, 0}
+		binary.LittleEndian.PutUint64(chunkIndexBytes[0:8], uint64((availableChunks+1)|MSB))
+		_, err = hs.lookupsFile.WriteAt(chunkIndexBytes[0:NBYTES], partialKey*NBYTES)
+		if err != nil {
+			log.Println(err)
+			log.Println("AppendHash(): Could not WriteAt() into lookups file")
+			return -1, err
+		}
 	} else {
 		// MSB set, so append to an existing linked list in collisions file
 
@@ -197,7 +201,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 					availableChunks := filestat.Size() / (NBYTES * (CPC + 1))
 					// Append a chunk of zeroes to the collisions file
 					var zeroBytes [ZEROBUF]byte
-					_, err = hs.collisionsFile.WriteAt(zeroBytes[0:NBYTES*(CPC+1)], filestat.Size())
+					_, err = hs.collisionsFile.WriteAt(zeroBytes[0:NBYTES*(CPC+1)], availableChunks*NBYTES*(CPC+1))
 					if err != nil {
 						log.Println(err)
 						log.Println("AppendHash(): Could not call WriteAt() on collisions file")
-- 
2.43.0


From e1b196f2d2e054bba54d43871a14b44940843a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 33/56] fix: a wedding cake keeps the caller's hash buffer
 instead of a copy of it

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..75fb46f 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From 4379357fb7b5f51722f76671538dbb842e590811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 34/56] fix: a wedding cake gives a later index of a duplicate
 hash, or panics when baking it

---
 weddingcakeback/tierbelowsource.go |  9 +++++++++
 weddingcakeback/tiertop.go         | 25 ++++++++++++++++++-------
 weddingcakefront/cake.go           | 14 +++++++++-----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index e8b2a29..4834959 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -34,6 +34,7 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 	jumpTableIndex := index
 
 	result := make([]SingleTreeHash, 0, 1000)
+	alreadySeen := make(map[Sha256]struct{}, 1000) // Trees don't tolerate duplicates
 
 	// Work out the size of each jump table
 	nodeIdConfig := &tb.ThisTierConfig.NodeIdConfig
@@ -73,6 +74,14 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 						panic(err)
 					}
 
+					// The DonutForests are visited in order of presentation. A duplicate of a hash
+					// in an earlier DonutForest is left out
+					_, duplicate := alreadySeen[hash]
+					if duplicate {
+						return
+					}
+					alreadySeen[hash] = struct{}{}
+
 					// singleTreeOffset is used to convert globalPi to singleTreePi.
 					// It needs to be the same in all cases for this bake, as these pairs will be sent to construct a SingleTree.
 					// It is therefore the firstPresentationIndex from the source tier (ie, this TierBelow)
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 75fb46f..2f2bf58 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -120,7 +120,11 @@ func (tt *TierTop) Open(readOnly bool) error {
 		if err != nil {
 			return err
 		}
-		tt.theMap[hash] = i
+		// A duplicate hash keeps the FIRST index at which it was presented
+		_, duplicate := tt.theMap[hash]
+		if !duplicate {
+			tt.theMap[hash] = i
+		}
 		tt.theSlice[i] = hash[:]
 	}
 	return nil
@@ -192,7 +196,11 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
+	// A duplicate hash keeps the FIRST index at which it was presented
+	_, duplicate := tt.theMap[h]
+	if !duplicate {
+		tt.theMap[h] = TierTopIndex(index)
+	}
 	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
@@ -238,14 +246,17 @@ func (tt *TierTop) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []Si
 	if index != 0 {
 		panic("TierZero.GetHashesForIndex() should only be called with index=0")
 	}
-	result := make([]SingleTreeHash, len(tt.theSlice))
+	result := make([]SingleTreeHash, 0, len(tt.theSlice))
 	for i := range tt.theSlice {
+		if tt.theMap[Sha256(tt.theSlice[i])] != TierTopIndex(i) {
+			continue // A duplicate of an earlier hash. Trees don't tolerate duplicates
+		}
 		globalPi := GlobalPiFromTierTopIndex(TierTopIndex(i), offsetToUse)
 		singleTreePi := SingleTreePiFromGlobalPi(globalPi)
-		result[i].PresentationIndex = singleTreePi
-		//result[i].SourceOffset = offsetToUse
-		result[i].Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
-		copy(result[i].Hash, tt.theSlice[i][:])
+		pair := SingleTreeHash{PresentationIndex: singleTreePi}
+		pair.Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
+		copy(pair.Hash, tt.theSlice[i][:])
+		result = append(result, pair)
 	}
 	return result
 }
diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index e6a3496..b47b0de 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -28,20 +28,24 @@ func (c *Cake) IndexOfHash(hash *Sha256) (int64, error) {
 	found := false
 	reader := c.tierReader
 	var result GlobalPiType
-	var err error
 	tierCount := -1 // To represent TierTop
-	for !found && reader != nil {
+	// We go through ALL the tiers, because a duplicate hash is to be found at the FIRST index
+	// it was presented at, and the lower the tier, the lower the indices
+	for reader != nil {
 		if tierCount == 1 {
 			fmt.Printf("Breakpoint here: tier %d\n", tierCount)
 		}
-		result, found, err = reader.TryIndexOfHash((*hash)[:])
+		tierResult, foundInTier, err := reader.TryIndexOfHash((*hash)[:])
 		if err != nil {
 			return -1, err
 		}
-		if !found {
+		if foundInTier {
+			result = tierResult
+			found = true
+		} else {
 			fmt.Printf("Hash not found in tier %d\n", tierCount)
-			reader = reader.GetNextTier()
 		}
+		reader = reader.GetNextTier()
 		tierCount++
 	}
 	if !found {
-- 
2.43.0


From 7029353598997d87389206e7d5725f5a11e8e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 35/56] fix: after baking, a wedding cake goes on reading a
 tier that it has closed

---
 weddingcakeback/donutforestwrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..7983d2a 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -199,9 +199,14 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 
 	// Empty the source tier ready for new hashes
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
+	// The destination tier will be closed, and opened again as newTierBelow. What must be preserved is
+	// the tier AFTER the destination tier.
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		destTier := sourceReadable.GetNextTier()
+		if destTier != nil {
+			preservedNextTier = destTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From cf97ac0ad255409da97d656a06c2471c878283b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 36/56] fix: wedding cake level files from the eleventh on are
 written by one name and read by another

---
 weddingcakeback/donutforestwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 7983d2a..8eee82d 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -329,7 +329,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open for append or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -440,7 +440,7 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tier
 			}
 			if dfw.LevelFiles[levelNum] == nil {
 				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 				filePath := filepath.Join(tierFolderPath, filename)
 				var err error
 				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From 33c05f6b2f6c73f80bf15aa2b03fd9cd0b28ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 37/56] fix: a wedding cake never finds a hash that is alone
 with its prefix

---
 weddingcakeback/singletree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..92fa4a2 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,11 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The reassurance bytes are the first ones after the prefix (which has already been examined)
+		unexaminedBytes := input[0].Hash[PrefixBytesN:]
+		reassuranceCount := min(int(reassuranceBytes), len(unexaminedBytes))
+		leafNode.ReassuranceHashBytes = make([]byte, reassuranceCount)
+		copy(leafNode.ReassuranceHashBytes, unexaminedBytes)
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From d020b8ecd948c97b29e61d6d1e42dfd95d896cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 38/56] fix: a wedding cake tier takes a hash that shares some
 bytes for the one looked up

---
 weddingcakeback/tierbelow.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..e6bd528 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -238,9 +239,17 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match. Check the whole hash against the hashes file
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				wholeHash := make([]byte, len(hash))
+				found, err := tb.TryGetHashAtIndex(globalPi, wholeHash)
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if found && bytes.Equal(wholeHash, hash) {
+					return globalPi, true, nil
+				}
+				// It was a different hash. The one we're after may still be in a subsequent DonutForest
 			}
 		}
 	}
-- 
2.43.0


From 46022bcb4c9f383376a333d8469ac60b2c3277a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 39/56] fix: the top tier of a wedding cake panics on the index
 of a hash once it has been baked

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 2f2bf58..485b78a 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -150,7 +150,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From 0808e392cdc09578b6d0d1f2b652a0ba6392e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 40/56] fix: nodes of a forest of several trees are written
 where the lookup does not look for them

Node ids run through a level's format groups one after another over the
whole DonutForest, and ExtractNode() computes a node's place from that.
But the nodes were appended tree by tree, so from Tier1 on (256 trees and
more) lookups went to other nodes, and panicked or found nothing. Each
group's nodes are now written at the group's own place in the level file.
---
 weddingcakeback/donutforestwrite.go | 69 ++++++++++++++++-------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 8eee82d..ef4662e 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,10 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// GroupOffsets is indexed by level then by group, and holds the offset in the level's file at which to write
+	// the group's next node. Node ids run through the groups one after another, so the nodes of a group must sit
+	// together in the file, whichever of the DonutForest's trees they come from.
+	GroupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -117,7 +122,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.writeToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -328,27 +333,39 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			levelIndexBytes = append(levelIndexBytes, serializedNodeSpecBytes[:]...)
 		}
 		if dfw.LevelFiles[levelNum] == nil {
-			// Open for append or create if not yet opened
+			// Open or create if not yet opened
 			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		// This DonutForest goes after those already in the file
+		startOffset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+		// The nodes go after the index bytes, group by group
+		groupOffset := startOffset + int64(len(levelIndexBytes))
+		dfw.GroupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.GroupOffsets[levelNum][groupIndex] = groupOffset
+			groupOffset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is a slice (one element for each level of the tree) of slices of byte slices (one for each group).
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -361,10 +378,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level, a byte slice for each group
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -373,7 +390,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -395,6 +411,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			groupNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -407,20 +424,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 				switch spec.Format {
 				case NodeFormatLeaf:
 					// fmt.Println("Serializing FormatLeaf node")
-					dfw.serializeLeafNode(node.LeafNode, levelNodesBytes, sourceOffset)
+					dfw.serializeLeafNode(node.LeafNode, groupNodesBytes, sourceOffset)
 				case NodeFormatFull:
 					// fmt.Println("Serializing FormatFull node")
-					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatMedium:
 					// fmt.Println("Serializing FormatMedium node")
-					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatTiny:
 					// fmt.Println("Serializing FormatTiny node")
 					nodeId := currentLevelIdMap[node]
 					if nodeId == 31220 {
 						fmt.Printf("Breakpoint here\n")
 					}
-					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				}
 			}
 		}
@@ -432,25 +449,17 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+func (dfw *DonutForestWrite) writeToLevelsFiles(levelsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsNodesBytes {
+		for groupIndex, groupNodesBytes := range groupsNodesBytes {
+			if len(groupNodesBytes) != 0 {
+				// The level files were opened by serializeIndexBytes()
+				groupOffset := &dfw.GroupOffsets[levelNum][groupIndex]
+				_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, *groupOffset)
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				*groupOffset += int64(len(groupNodesBytes))
 			}
 		}
 	}
-- 
2.43.0


From 1a2d92c09cb4410748b2d5abf708c5556fc30718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 41/56] fix: hashes baked into the third tier of a wedding cake
 are not found

Baking writes the jump table entries with the first prefix byte as the
most significant; the lookup took it as the least significant. They only
agree on tiers with a prefix of at most one byte.
---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index e6bd528..9120bdc 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// Baking subdivides each entry of the jump table above into 256, so the first byte is the most significant
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From a6ea655bd8e6cd1e324cb0fb920aedb23794a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 42/56] fix: a wedding cake tier that cannot be looked for is
 taken for empty

Any error from Stat() was taken to mean that the tier has no files, so
after a passing I/O error its hashes were reported as never stored.
---
 weddingcakeback/tierbelow.go | 7 +++++--
 weddingcakeback/tiertop.go   | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 9120bdc..204d8cb 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -61,11 +61,14 @@ func NewTierBelow(folder string, tierIndex byte, config *CakeConfig) *TierBelow
 	return &result
 }
 
-func (tb *TierBelow) ExistsOnDisk() bool {
+func (tb *TierBelow) ExistsOnDisk() (bool, error) {
 	// We deem a tier to exist on disk if Hashes.hsh file exists
 	hashesFilePath := filepath.Join(tb.TierFolder, "Hashes.hsh")
 	_, err := os.Stat(hashesFilePath)
-	return err == nil
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // OpenAsEmptyTier performs no disk access, and is for use when ExistsOnDisk() returns false.
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 485b78a..ac71b14 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -53,7 +53,10 @@ func NewTierTop(cakeFolder string, config *CakeConfig, readOnly bool) (*TierTop,
 	// Check as many as are described in the config
 	for i := byte(0); i < byte(len(config.TierBelowConfigs)); i++ {
 		nextTier := NewTierBelow(cakeFolder, i, config)
-		exists := nextTier.ExistsOnDisk()
+		exists, err := nextTier.ExistsOnDisk()
+		if err != nil {
+			return nil, err
+		}
 		if exists {
 			err = nextTier.Open()
 			if err != nil {
-- 
2.43.0


From e51bb16f85ba4b8aef7f8456aac084f0ef1956bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 43/56] fix: a uniform hash store can not be created

CreateHashStore opened Params.json without write access, so writing the
parameters always failed.
---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..d56c000 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_WRONLY|os.O_CREATE, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From 8d8337b4a50b13683fb4620ed3194580ab1fda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 44/56] fix: a uniform hash store has no bin for the biggest
 hashes

Where the divider does not divide 2^64, the number of bins was rounded to
nearest, which leaves out the last, small bin: hashes that belong there were
left out of the index, and looking them up was an error.
---
 indexedhashes/multipasspreloader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..cea6011 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,8 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	// The bin of the biggest possible hash is the last (it can be a small one, when hashDivider does not divide 2^64)
+	return int64(math.MaxUint64/hashDivider) + 1
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From d6314b37a7032ea4617a4d41826ef25e5ea31533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 45/56] fix: a uniform hash index leaves out the hashes after a
 failed read

An error while reading the hashes file was taken for its end, so indexing
reported success over an index that lacks the hashes from there on.
---
 indexedhashes/multipasspreloader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index cea6011..f93e618 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"sync"
@@ -130,7 +131,7 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 
 	chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
 
-	nBytes, _ := hashesFile.Read(chunk)
+	nBytes, err := hashesFile.Read(chunk)
 	for nBytes > 0 {
 		if nBytes%32 != 0 {
 			return errors.New("invalid hash file length")
@@ -141,7 +142,10 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 			spd.dealWithOneHash(&ih, mp)
 			ih.index++
 		}
-		nBytes, _ = hashesFile.Read(chunk)
+		nBytes, err = hashesFile.Read(chunk)
+	}
+	if err != nil && err != io.EOF {
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From ae5d503773707c3adc4bb459898ea526cf07db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 46/56] fix: a hash appended to a uniform store is never found

AppendHash added entries of an older format to the overflow file of the bin,
in a folder that need not exist, and left the bin's count as it was, so
looking the hash up did not find it.
---
 indexedhashes/uniform.go | 61 ++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index d56c000..0349537 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 )
 
 func NewUniformHashStoreCreatorAndPreloader(
@@ -211,42 +212,66 @@ func (us *UniformHashStore) folderPathFilePathForAddress(address uint64) (string
 }
 
 func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
+	earlierIndex, err := us.IndexOfHash(hash)
+	if err != nil {
+		return -1, err
+	}
 	newIndex := us.hashFile.CountHashes()
-	err := us.hashFile.WriteHashAt(*hash, newIndex)
+	err = us.hashFile.WriteHashAt(*hash, newIndex)
 	if err != nil {
 		return -1, err
 	}
+	if earlierIndex != -1 {
+		return newIndex, nil // Only the first occurrence of a hash goes in a bin
+	}
 
-	// Appending index followed by hash
-	toAppend := [40]byte{}
-	binary.LittleEndian.PutUint64(toAppend[0:8], uint64(newIndex))
-	copy(toAppend[8:40], hash[0:32])
-
+	// The index goes in the first free slot of the bin
 	address := us.addressForHash(hash)
-	folderPath, filePath := us.folderPathFilePathForAddress(address)
-	err = os.MkdirAll(folderPath, 0755)
+	offset := int64(address * binStartSize)
+	countBytes := [8]byte{}
+	_, err = us.binStartsFile.ReadAt(countBytes[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
+	slot := int64(binary.LittleEndian.Uint64(countBytes[:]))
+	toAppend := [8]byte{}
+	binary.LittleEndian.PutUint64(toAppend[:], uint64(newIndex))
+	if slot < 102 {
+		_, err = us.binStartsFile.WriteAt(toAppend[:], offset+16+slot*8)
+		if err != nil {
+			return -1, err
+		}
+	} else {
+		err = us.writeOverflowEntry(address, slot-102, toAppend[:])
+		if err != nil {
+			return -1, err
+		}
+	}
+	binary.LittleEndian.PutUint64(countBytes[:], uint64(slot+1))
+	_, err = us.binStartsFile.WriteAt(countBytes[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	_, err = file.Write(toAppend[:])
+
+	return newIndex, nil
+}
+
+func (us *UniformHashStore) writeOverflowEntry(address uint64, entry int64, bytes []byte) error {
+	_, filePath := us.folderPathFilePathForAddress(address)
+	err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Sync()
+	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0755)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Close()
+	_, err = file.WriteAt(bytes, entry*8)
 	if err != nil {
-		return -1, err
+		_ = file.Close()
+		return err
 	}
-	file = nil
-
-	return newIndex, nil
+	return file.Close()
 }
 
 func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
-- 
2.43.0


From 9d97ad1779c31cd79fbd1232b6e89fe06fecd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 47/56] fix: of several chunks read back, only the last can be
 looked up

The index of the chunk being read was never advanced, so each chunk was read
over the first one, and the others were left without levels.
---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From 8d20a636906b8e08f811b173579758e979b63aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 48/56] fix: hashes of an in-memory index from before it was
 opened are not found

---
 .../concretehashstorecreatormemory.go          |  8 ++++++++
 indexedhashes/memoryindexed.go                 | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..01775f2 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.load()
+	if err != nil {
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +93,9 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.load()
+	if err != nil {
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..21d22f2 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -17,6 +17,24 @@ func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
 	return &result
 }
 
+// load fills the map with the hashes that are already in the store
+func (mih *MemoryIndexedHashes) load() error {
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for index := int64(0); index < count; index++ {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(index, &hash)
+		if err != nil {
+			return err
+		}
+		mih.theMap[hash] = index
+	}
+	mih.count = count
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	index, err := mih.theStore.AppendHash(hash)
 	if err != nil {
-- 
2.43.0


From a4197dee455e183105de3fbe78739ab6c4bf51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 49/56] fix: weddingcake: a tree of all 65 levels can't be
 measured

CountLevelShapes() went one level beyond the non-empty ones, which for
the deepest possible tree (64 byte hashes that differ in one byte each)
was beyond the end of the array: preparing the chunk panicked.
---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From befc74c272074ea8c69a8004811ba4ad5d52e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 50/56] fix: cake: a write whose failure shows at Close goes
 unnoticed in a bake

---
 weddingcakeback/tierbelowsource.go |  6 +++---
 weddingcakeback/tiertop.go         |  6 +++---
 weddingcakeback/tiertopcreator.go  | 10 +++++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index 4834959..fd7b109 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -133,16 +133,16 @@ func (tb *TierBelow) AppendHashesFile(hashesFile *os.File) error {
 	}
 	defer func() { _ = srcFile.Close() }()
 
-	defer func() { _ = hashesFile.Close() }()
-
 	// 3. Efficiently stream/copy the data from source to destination
 	// io.Copy uses a small internal buffer, preventing high memory usage for large files
 	_, err = io.Copy(hashesFile, srcFile)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 
-	return nil
+	// A failed write may only be reported here
+	return hashesFile.Close()
 }
 func (tb *TierBelow) GetFirstPresentationIndex() GlobalPiType {
 	// This is only called when TierBelow is the source tier in the context of baking.
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ac71b14..4bdfe24 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -277,16 +277,16 @@ func (tt *TierTop) AppendHashesFile(hashesFile *os.File) error {
 	}
 	defer func() { _ = srcFile.Close() }()
 
-	defer func() { _ = hashesFile.Close() }()
-
 	// 3. Efficiently stream/copy the data from source to destination
 	// io.Copy uses a small internal buffer, preventing high memory usage for large files
 	_, err = io.Copy(hashesFile, srcFile)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 
-	return nil
+	// A failed write may only be reported here
+	return hashesFile.Close()
 }
 func (tt *TierTop) GetFirstPresentationIndex() GlobalPiType {
 	return tt.firstGlobalPresentationIndex
diff --git a/weddingcakeback/tiertopcreator.go b/weddingcakeback/tiertopcreator.go
index a7bcb60..8d8210b 100644
--- a/weddingcakeback/tiertopcreator.go
+++ b/weddingcakeback/tiertopcreator.go
@@ -41,20 +41,24 @@ func (ttc *TierTopCreator) Create(firstGlobalPresentationIndex GlobalPiType) err
 	if err != nil {
 		return err
 	}
-	defer func() { _ = file.Close() }()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
 	// Also create a file <folder>/Tier0/FirstPresentationIndex.bin containing a uint64 of 0
 	filePath2 := filepath.Join(ttc.folder, "TierTop", "FirstPresentationIndex.bin")
 	file2, err := os.Create(filePath2)
 	if err != nil {
 		return err
 	}
-	defer func() { _ = file2.Close() }()
 	err = binary.Write(file2, binary.LittleEndian, firstGlobalPresentationIndex)
 	if err != nil {
+		_ = file2.Close()
 		return err
 	}
 
-	return nil
+	// A failed write may only be reported here
+	return file2.Close()
 }
 
 func (ttc *TierTopCreator) Open() (*TierTop, error) {
-- 
2.43.0


From 175ca0d8ffc6209871e869e3c8aa809345d0ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 51/56] fix: uniform index: a write whose failure shows at
 Close goes unnoticed

---
 indexedhashes/multipasspreloader.go | 7 ++++++-
 indexedhashes/uniform.go            | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index f93e618..8a35190 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -218,16 +218,21 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 			if err != nil {
 				return err
 			}
-			defer file.Close()
 			for i := 0; i < len(element); i++ {
 				ih := element[i]
 				bytes := make([]byte, 8)
 				binary.LittleEndian.PutUint64(bytes[0:8], uint64(ih.index))
 				_, err = file.Write(bytes)
 				if err != nil {
+					_ = file.Close()
 					return err
 				}
 			}
+			// A failed write may only be reported here
+			err = file.Close()
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 0349537..4e7afa3 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -128,17 +128,18 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 
 	sep := string(os.PathSeparator)
 	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_WRONLY|os.O_CREATE, 0755)
-	defer fileParams.Close()
 	if err != nil {
 		return err
 	}
 	byts, err := json.Marshal(uc.params)
 	_, err = fileParams.Write(byts)
 	if err != nil {
+		_ = fileParams.Close()
 		return err
 	}
 
-	return nil
+	// A failed write may only be reported here
+	return fileParams.Close()
 }
 
 func (uc *UniformHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
-- 
2.43.0


From 161c173604b2fc604a359e6b7cbe00123ed73222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 52/56] fix: the self-test of a uniform hash store with fewer
 than 100 hashes divides by zero

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 4e7afa3..6d8cbc6 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -389,7 +389,7 @@ func (us *UniformHashStore) Test() (bool, error) {
 			}
 		}
 
-		if i%(count/100) == 0 {
+		if count >= 100 && i%(count/100) == 0 {
 			percent := 100.0 * float64(i) / float64(count)
 			fmt.Println("Percentage tested:", percent)
 		}
-- 
2.43.0


From 8c77d30602900b2dae9cf1cff2954b08bbe5c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 53/56] fix: a hash store whose hashes file cannot be measured
 is opened without it

---
 indexedhashes/concretehashstorecreator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..3e57426 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -103,7 +103,11 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 	hashesCount := stat.Size() / 32
 	var hashesFile memfile.AppendableLookupFile
 	if hsc.useAppendOptimizedForHashes {
-		hashesFile, _ = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		hashesFile, err = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		if err != nil {
+			hashesFileUnderlying.Close()
+			return nil, err
+		}
 	} else {
 		hashesFile = hashesFileUnderlying
 	}
-- 
2.43.0


From 76a7a9a047669d18f34b20106a7170d06dc467a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 54/56] fix: the adaptive indexing of hashes never closes its
 file of bins

---
 indexedhashes3/adaptivepasspreloader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 4209159..121f783 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -55,6 +55,10 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	if err != nil {
 		return err
 	}
+	err = ap.binStartsFile.Close()
+	if err != nil {
+		return err
+	}
 	fmt.Println("...Done passes")
 	return nil
 }
-- 
2.43.0


From 1e29c3c564fc2e32913d562d2cb48f6d0e7f3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 55/56] fix: the test of an index of hashes leaves its store
 open

---
 indexedhashes3/multipasspreloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 8016107..7c3cd30 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -96,8 +96,10 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 		wfc := wordfile.NewConcreteWordFileCreator("BinNums", mp.folderPath, mp.params.bytesRoomForBinNum, false, false)
 		hs, err := newHashStoreObject(mp.params, mp.folderPath, wfc, binStartsFile, false)
 		if err != nil {
+			_ = binStartsFile.Close()
 			return err
 		}
+		defer func() { _ = hs.Close() }()
 
 		hashesFilepath := mp.folderPath + sep + "Hashes.hsh"
 		hashesFile, err := os.Open(hashesFilepath)
-- 
2.43.0


From 512b169e5987767894c8d9931b38e59e1a932651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 56/56] fix: baking removes synced hashes before what they are
 baked into is on the disk

A wedding cake that fills a tier bakes it into the one below and then removes
it. The copied hashes, the level files, the jumps and the new first
presentation index were only handed to the operating system: a power failure
soon after a baking lost hashes that an earlier Sync() had made safe.
---
 weddingcakeback/donutforestwrite.go | 17 ++++++++++++++++-
 weddingcakeback/tierbelowsource.go  |  6 ++++++
 weddingcakeback/tiertop.go          |  6 ++++++
 weddingcakeback/tiertopcreator.go   |  5 +++++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index ef4662e..75387e2 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -151,7 +151,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	}
 	for _, file := range dfw.LevelFiles {
 		if file != nil {
-			err := file.Close()
+			// The source is about to be removed
+			err := file.Sync()
+			if err != nil {
+				return err
+			}
+			err = file.Close()
 			if err != nil {
 				return err
 			}
@@ -202,6 +207,16 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 		}
 	}
 
+	// All that was baked must be on the disk before the source is removed
+	err = jumpsFile.Sync()
+	if err != nil {
+		return err
+	}
+	err = infoFile.Sync()
+	if err != nil {
+		return err
+	}
+
 	// Empty the source tier ready for new hashes
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	// The destination tier will be closed, and opened again as newTierBelow. What must be preserved is
diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index fd7b109..0124608 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -140,6 +140,12 @@ func (tb *TierBelow) AppendHashesFile(hashesFile *os.File) error {
 		_ = hashesFile.Close()
 		return err
 	}
+	// This tier's own copy is about to be removed
+	err = hashesFile.Sync()
+	if err != nil {
+		_ = hashesFile.Close()
+		return err
+	}
 
 	// A failed write may only be reported here
 	return hashesFile.Close()
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 4bdfe24..4582997 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -284,6 +284,12 @@ func (tt *TierTop) AppendHashesFile(hashesFile *os.File) error {
 		_ = hashesFile.Close()
 		return err
 	}
+	// This tier's own copy is about to be removed
+	err = hashesFile.Sync()
+	if err != nil {
+		_ = hashesFile.Close()
+		return err
+	}
 
 	// A failed write may only be reported here
 	return hashesFile.Close()
diff --git a/weddingcakeback/tiertopcreator.go b/weddingcakeback/tiertopcreator.go
index 8d8210b..f725f36 100644
--- a/weddingcakeback/tiertopcreator.go
+++ b/weddingcakeback/tiertopcreator.go
@@ -56,6 +56,11 @@ func (ttc *TierTopCreator) Create(firstGlobalPresentationIndex GlobalPiType) err
 		_ = file2.Close()
 		return err
 	}
+	err = file2.Sync()
+	if err != nil {
+		_ = file2.Close()
+		return err
+	}
 
 	// A failed write may only be reported here
 	return file2.Close()
-- 
2.43.0

