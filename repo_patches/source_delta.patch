From 25c1b9a9f35a72b11881f56ffb6afd1c4c570317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 01/41] fix: accept the distribution name that
 dataManagerSpec() writes

dataManagerSpec() names the Student-T distribution 'StudentsT', but a
storage manager constructed from such a record only knew 'StudentT' and
threw.
---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..7425ef8 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -85,7 +85,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentsT" || str == "StudentT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From 05ec3e0892e7355a31cf57fd72b4e0ae2340cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 02/41] fix: load the right contents when starting to write in
 another block

A put in a block that was still in the write cache loaded what the file
contained so far and so dropped the rows that were still to be written, and a
put in a block that is not in the file kept the rows of the previous block in
the buffer.
---
 threadeddyscocolumn.cc | 21 ++++++++++++---------
 threadeddyscocolumn.h  |  1 +
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..30f044e 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -75,8 +75,20 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
   _shape = shape;
 }
 
+// Wait until the given block is not in the write cache
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilWritten(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  waitUntilWritten(blockIndex);
+
+  // Rows of the previous block should not leak into the new block
+  _timeBlockBuffer->ResetData();
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -120,15 +132,6 @@ void ThreadedDyscoColumn<DataType>::getValues(
       // Make sure array storage is contiguous.
       casacore::Bool deleteIt;
       DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
-
       if (_currentBlock != blockIndex) {
         if (_isCurrentBlockChanged) storeBlock();
         loadBlock(blockIndex);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..b730d42 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -199,6 +199,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  void waitUntilWritten(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
-- 
2.43.0


From 93ad963517ac171fdb41ac5f41c990f93e366159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 03/41] fix: return values that were put but not yet written to
 the file

Reading a row of the block that is being filled, or of a block that was not
yet flushed to the file, returned zeros until the block happened to be written.
---
 threadeddyscocolumn.cc | 48 +++++++++++++++++++++++-------------------
 timeblockbuffer.h      |  5 +++++
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 30f044e..8496e7c 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -118,31 +118,35 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
-  if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
-  } else {
-    size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
+  // As long as the manager did not initialize its offsets, the rows written so
+  // far are all in the buffer and belong to the first block.
+  size_t blockRow = rowNr;
+  if (areOffsetsInitialized()) {
+    const size_t blockIndex = getBlockIndex(rowNr);
+    blockRow = getRowWithinBlock(rowNr);
+    if (blockIndex != _currentBlock) {
+      // Wait until the block to be read is not in the write cache
+      waitUntilWritten(blockIndex);
+      if (blockIndex >= nBlocksInFile()) {
+        // Trying to read a row that was not stored yet -- return zero
+        *dataArr = DataType();
+        return;
       }
-
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
     }
   }
+  // The buffer now contains the unpacked block.
+  if (_timeBlockBuffer->HasRow(blockRow)) {
+    // Make sure array storage is contiguous.
+    casacore::Bool deleteIt;
+    DataType* dataPtr = dataArr->getStorage (deleteIt);
+    _timeBlockBuffer->GetData(blockRow, dataPtr);
+    dataArr->putStorage (dataPtr, deleteIt);
+  } else {
+    // This row was not written -- return zero
+    *dataArr = DataType();
+  }
 }
 
 template <typename DataType>
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..61d86c9 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -44,6 +44,11 @@ class TimeBlockBuffer {
            sizeof(data_t) * _data[blockRow].visibilities.size());
   }
 
+  /** Whether data was set for the given row. */
+  bool HasRow(size_t blockRow) const {
+    return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From 873bf664fd567fa8f5e7e1c5a1e7aadd8e429f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 04/41] fix: do not decode uninitialized memory for data past
 the end of the file

When the last block was written by one column only, reading that block of
another column decoded whatever was left in the read buffer.
---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 7425ef8..fc593b6 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -425,6 +427,8 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
     if (blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
+    // The part that was not written reads as zeros
+    std::fill(dest + _fStream->gcount(), dest + size, 0);
     _fStream->clear();  // reset fail bit
   }
 }
-- 
2.43.0


From 0a349b7fe5f0d65972598bb66ea0dd75a35ed516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 05/41] fix: count an incompletely stored last block when
 opening a table

If the last column of the last block was never written, the file is shorter
than a whole number of blocks and the other columns of that block were lost
on reopening.
---
 dyscostman.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index fc593b6..98ef2f0 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -301,7 +301,9 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
   if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+    // The last block may be incomplete, when not all columns were written
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
-- 
2.43.0


From 15a1f46683bcd9942b46dd12f13a4ca890b61f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 06/41] fix: store zeros for rows of a block that were not
 written

The encoders expect data for all rows of a block: a block with gaps made the
encoding thread read from an empty row, and rows missing at the end were
encoded from uninitialized memory.
---
 threadeddyscocolumn.cc |  1 +
 timeblockbuffer.h      | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 8496e7c..8efb0be 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -153,6 +153,7 @@ template <typename DataType>
 void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
+  _timeBlockBuffer->FillMissingRows(nRowsInBlock());
   std::unique_lock<std::mutex> lock(_mutex);
   CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 61d86c9..9bc7a4d 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -49,6 +49,18 @@ class TimeBlockBuffer {
     return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
   }
 
+  /** Fill rows that were not set with zeros, such that @p nRows can be encoded. */
+  void FillMissingRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) {
+        row.antenna1 = 0;
+        row.antenna2 = 0;
+        row.visibilities.resize(_nPol * _nChannels);
+      }
+    }
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From 826311ed844876a3a13d85db12966a5fd0646b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 07/41] fix: allow reading the last block when the table ends
 halfway the block

Loading such a block looked up the antennas of rows that do not exist.
---
 threadeddyscocolumn.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 8efb0be..23a03df 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -104,7 +104,10 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
     _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The last block is incomplete when rows are still to be added to the table
+    const size_t nTableRows =
+        std::min<uint64_t>(nRows, storageManager().getNRow() - startRow);
+    for (size_t blockRow = 0; blockRow != nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-- 
2.43.0


From 8c8ce7cffe58059ef685a4170f3d4c3e39e93752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 08/41] fix: allow reopening a table to which no data was
 written

The header was only written together with the first data.
---
 dyscostman.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 98ef2f0..b07fe6b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -175,6 +175,8 @@ void DyscoStMan::create(casacore::uInt nRow) {
     throw DyscoStManError("I/O error: could not create new file '" +
                           fileName() + "'");
   _nBlocksInFile = 0;
+  // Without a header, the table can not be opened when no data is written to it
+  writeHeader();
 }
 
 void DyscoStMan::writeHeader() {
@@ -300,7 +302,7 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
+  if (size > _headerSize && _blockSize != 0)
     // The last block may be incomplete, when not all columns were written
     _nBlocksInFile =
         (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
-- 
2.43.0


From c5081864a9664bc6f261797c41bd3e507abc1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 09/41] fix: store the data of a table that holds a single time
 block

The size of a block was only determined by writing the first row of a second
block, so closing a table with one time block lost its data and terminated
the program.
---
 threadeddyscocolumn.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 23a03df..75a88fc 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -36,7 +36,15 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
 // called to empty the cache.
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::shutdown() {
-  if (_isCurrentBlockChanged) storeBlock();
+  if (_isCurrentBlockChanged) {
+    // If there is only one time block, it was not followed by a row from which
+    // the size of the block could be determined.
+    const size_t nRows = _timeBlockBuffer->NRows();
+    if (!areOffsetsInitialized() && nRows == storageManager().getNRow())
+      initializeRowsPerBlock(nRows, _timeBlockBuffer->MaxAntennaIndex() + 1);
+    storeBlock();
+    _currentBlock = std::numeric_limits<size_t>::max();
+  }
 
   stopThreads();
 }
-- 
2.43.0


From 0a8c24bd41c5942e1d7df38ba0a35f27982fd0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 10/41] fix: do not lose or hang on pending data when adding a
 column

Preparing all columns again dropped the rows of a first time block that was
still in memory, and waited for the write threads while holding the lock that
these threads need when the first block was being written.
---
 dyscostman.cc | 34 ++++++++++++++++++++--------------
 dyscostman.h  |  2 ++
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index b07fe6b..b461274 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -354,6 +354,18 @@ void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 
 void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
 
+void DyscoStMan::prepareColumn(DyscoStManColumn &col) {
+  DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(&col);
+  if (dataCol)
+    dataCol->SetBitsPerSymbol(_dataBitCount);
+  else {
+    DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(&col);
+    if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
+  }
+  col.Prepare(_distribution, _normalization, _studentTNu,
+              _distributionTruncation);
+}
+
 void DyscoStMan::prepare() {
   std::lock_guard<std::mutex> lock(_mutex);
 
@@ -362,17 +374,7 @@ void DyscoStMan::prepare() {
         "One of the required parameters of the DyscoStMan was not "
         "set!\nDyscoStMan was not correctly initialized by your program.");
 
-  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
-    DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(col.get());
-    if (dataCol)
-      dataCol->SetBitsPerSymbol(_dataBitCount);
-    else {
-      DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(col.get());
-      if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
-    }
-    col->Prepare(_distribution, _normalization, _studentTNu,
-                 _distributionTruncation);
-  }
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) prepareColumn(*col);
 
   // In case this is a new measurement set, we do not know the rowsPerBlock yet
   // If this measurement set is opened, we do know it, and we have to call
@@ -393,12 +395,16 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
   _nRow--;
 }
 
-void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+void DyscoStMan::addColumn(casacore::DataManagerColumn *column) {
+  if (_nBlocksInFile != 0 || areOffsetsInitialized())
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
-  prepare();
+  // The other columns might already hold data of the first block, so only
+  // prepare the new column.
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+    if (col.get() == column) prepareColumn(*col);
+  }
   writeHeader();
 }
 
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..a99e247 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -321,6 +321,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void makeEmpty();
 
+  void prepareColumn(DyscoStManColumn &col);
+
   void setFromSpec(const casacore::Record &spec);
 
   size_t getFileOffset(size_t blockIndex) const {
-- 
2.43.0


From f6d41c0976d30e645294796565d8e4012c5ef7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 11/41] fix: keep the data of the other columns when removing a
 column

Removing a column changes the header and block sizes, but the stored blocks of
the remaining columns were left in place so that these read garbage. This also
happened in decompress when both DATA and WEIGHT_SPECTRUM were compressed.
---
 dyscostman.cc         | 47 +++++++++++++++++++++++++++++++++++++++++--
 dyscostman.h          |  3 +++
 dyscostmancol.h       |  9 +++++++++
 threadeddyscocolumn.h |  4 ++++
 4 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index b461274..f32b3e1 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <unistd.h>
+
 #include <algorithm>
 
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
@@ -413,8 +415,20 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
-      _columns.erase(i);
-      writeHeader();
+      (*i)->DiscardChanges();
+      if (areOffsetsInitialized() && (*i)->IsPartOfBlock()) {
+        // The data of the other columns will move inside the file, so they
+        // should not be writing while this is done.
+        for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->shutdown();
+        removeFromBlocks(**i);
+        _columns.erase(i);
+        initializeRowsPerBlock(_rowsPerBlock, _antennaCount, true);
+      } else {
+        _columns.erase(i);
+        // When offsets are initialized, the column was refused by addColumn()
+        // and is not part of the header.
+        if (!areOffsetsInitialized()) writeHeader();
+      }
       return;
     }
   }
@@ -422,6 +436,35 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+void DyscoStMan::removeFromBlocks(const DyscoStManColumn &column) {
+  const size_t columnSize =
+      column.CalculateBlockSize(_rowsPerBlock, _antennaCount);
+  const size_t newBlockSize = _blockSize - columnSize;
+  const size_t newHeaderSize =
+      _headerSize - sizeof(GenericColumnHeader) - column.ExtraHeaderSize();
+  std::vector<char> block(_blockSize);
+  // Blocks only move towards the beginning of the file, so blocks are never
+  // overwritten before they have been read.
+  for (size_t blockIndex = 0; blockIndex != _nBlocksInFile; ++blockIndex) {
+    _fStream->seekg(getFileOffset(blockIndex), std::ios_base::beg);
+    _fStream->read(block.data(), _blockSize);
+    std::fill(block.begin() + _fStream->gcount(), block.end(), 0);
+    if (_fStream->eof()) _fStream->clear();  // last block may be incomplete
+    const std::vector<char>::iterator columnStart =
+        block.begin() + column.OffsetInBlock();
+    std::copy(columnStart + columnSize, block.end(), columnStart);
+    _fStream->seekp(newHeaderSize + newBlockSize * blockIndex,
+                    std::ios_base::beg);
+    _fStream->write(block.data(), newBlockSize);
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(),
+               newHeaderSize + newBlockSize * _nBlocksInFile) != 0)
+    throw DyscoStManError("I/O error: could not remove column from file '" +
+                          fileName() + "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index a99e247..6ac02f6 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -323,6 +323,9 @@ class DyscoStMan : public casacore::DataManager {
 
   void prepareColumn(DyscoStManColumn &col);
 
+  /** Remove the stored data of the given column from the file. */
+  void removeFromBlocks(const DyscoStManColumn &column);
+
   void setFromSpec(const casacore::Record &spec);
 
   size_t getFileOffset(size_t blockIndex) const {
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..e0b8e4c 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -28,6 +28,7 @@ class DyscoStManColumn : public casacore::StManColumn {
   explicit DyscoStManColumn(DyscoStMan *parent, int dtype)
       : casacore::StManColumn(dtype),
         _offsetInBlock(0),
+        _isPartOfBlock(false),
         _storageManager(parent) {}
 
   /** Destructor */
@@ -36,6 +37,9 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** To be called before destructing the class. */
   virtual void shutdown() = 0;
 
+  /** Drop changes that are not yet passed on to be written. */
+  virtual void DiscardChanges() = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
@@ -64,8 +68,12 @@ class DyscoStManColumn : public casacore::StManColumn {
 
   size_t OffsetInBlock() const { return _offsetInBlock; }
 
+  /** Whether this column was assigned an offset in the blocks of the file. */
+  bool IsPartOfBlock() const { return _isPartOfBlock; }
+
   void SetOffsetInBlock(size_t offsetInBlock) {
     _offsetInBlock = offsetInBlock;
+    _isPartOfBlock = true;
   }
 
  protected:
@@ -113,6 +121,7 @@ class DyscoStManColumn : public casacore::StManColumn {
   void operator=(const DyscoStManColumn &source) = delete;
 
   size_t _offsetInBlock;
+  bool _isPartOfBlock;
   DyscoStMan *_storageManager;
 };
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index b730d42..60bb91f 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -118,6 +118,10 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual size_t ExtraHeaderSize() const override { return Header::Size(); }
 
+  virtual void DiscardChanges() final override {
+    _isCurrentBlockChanged = false;
+  }
+
   virtual void SerializeExtraHeader(std::ostream &stream) const final override;
 
   virtual void UnserializeExtraHeader(std::istream &stream) final override;
-- 
2.43.0


From 584880313783eb56a4ecfc0b2d1a96e33d32fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 12/41] fix: refuse unsupported bit counts when creating
 columns

Only the packing in the encoding threads noticed that a bit count is not
supported, which terminated the program after data had been written.
---
 bytepacker.h  | 17 +++++++++++++++++
 dyscostman.cc |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..4c13d9c 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -145,6 +145,23 @@ class BytePacker {
   static void unpack16(unsigned *symbolBuffer, unsigned char *packedBuffer,
                        size_t symbolCount);
 
+  /** Whether pack() and unpack() support the given bit count. */
+  static bool isSupported(unsigned bitCount) {
+    switch (bitCount) {
+      case 2:
+      case 3:
+      case 4:
+      case 6:
+      case 8:
+      case 10:
+      case 12:
+      case 16:
+        return true;
+      default:
+        return false;
+    }
+  }
+
   static size_t bufferSize(size_t nSymbols, size_t nBits) {
     return (nSymbols * nBits + 7) / 8;
   }
diff --git a/dyscostman.cc b/dyscostman.cc
index f32b3e1..4e4aada 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -1,4 +1,5 @@
 #include "dyscostman.h"
+#include "bytepacker.h"
 #include "dyscodatacolumn.h"
 #include "dyscostmancol.h"
 #include "dyscostmanerror.h"
@@ -364,6 +365,10 @@ void DyscoStMan::prepareColumn(DyscoStManColumn &col) {
     DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(&col);
     if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
   }
+  // Check this here, because the encoding threads can not report an error
+  if (!BytePacker::isSupported(dataCol ? _dataBitCount : _weightBitCount))
+    throw DyscoStManError("Unsupported bit count for column: should be "
+                          "2, 3, 4, 6, 8, 10, 12 or 16");
   col.Prepare(_distribution, _normalization, _studentTNu,
               _distributionTruncation);
 }
-- 
2.43.0


From e58111699d79241bf4f5998d0ad28dc762fcdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 13/41] fix: decompress a measurement set without
 WEIGHT_SPECTRUM column

The tool stopped with an exception after it had renamed the DATA column.
---
 decompress.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompress.cc b/decompress.cc
index 9a96fe3..f3942db 100644
--- a/decompress.cc
+++ b/decompress.cc
@@ -14,8 +14,10 @@ int main(int argc, char *argv[]) {
       new casacore::Table(argv[1], casacore::Table::Update));
   StManModifier modifier(*ms);
 
-  bool isDataReplaced = modifier.InitColumnWithDefaultStMan("DATA", false);
+  bool isDataReplaced = ms->tableDesc().isColumn("DATA") &&
+                        modifier.InitColumnWithDefaultStMan("DATA", false);
   bool isWeightReplaced =
+      ms->tableDesc().isColumn("WEIGHT_SPECTRUM") &&
       modifier.InitColumnWithDefaultStMan("WEIGHT_SPECTRUM", true);
 
   if (isDataReplaced) modifier.MoveColumnData<casacore::Complex>("DATA");
-- 
2.43.0


From 641ac233b2d33ded4c5dea8a708573f785f568e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 14/41] fix: validate the measurement set before changing it in
 dscompress

Flagged values were already replaced by NaNs in a measurement set that was
then refused for not being regular.
---
 dscompress.cc | 60 +++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..0b17fac 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -227,38 +227,8 @@ int main(int argc, char *argv[]) {
       new casacore::Table(msPath, casacore::Table::Update));
 
   Stopwatch watch(true);
-  std::cout << "Replacing flagged values by NaNs...\n";
-  for (const std::string &columnName : columnNames) {
-    if (columnName != "WEIGHT_SPECTRUM") {
-      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
-      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
-      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
-      casacore::Array<bool> flagArr(flagCol.shape(0));
-      for (size_t row = 0; row != ms->nrow(); ++row) {
-        dataCol.get(row, dataArr);
-        flagCol.get(row, flagArr);
-        casacore::Array<bool>::contiter f = flagArr.cbegin();
-        bool isChanged = false;
-        for (casacore::Array<std::complex<float>>::contiter d =
-                 dataArr.cbegin();
-             d != dataArr.cend(); ++d) {
-          if (*f) {
-            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
-                                     std::numeric_limits<float>::quiet_NaN());
-            isChanged = true;
-          }
-          ++f;
-        }
-        if (isChanged) dataCol.put(row, dataArr);
-      }
-    }
-  }
-  std::cout << "Time taken: " << watch.ToString() << '\n';
-
   if (doCheckMSFormat) {
     std::cout << "Validating MS ordering...\n";
-    watch.Reset();
-    watch.Start();
 
     casacore::ScalarColumn<int> antenna1Col(*ms, "ANTENNA1");
     casacore::ScalarColumn<int> antenna2Col(*ms, "ANTENNA2");
@@ -326,6 +296,36 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  watch.Reset();
+  watch.Start();
+  std::cout << "Replacing flagged values by NaNs...\n";
+  for (const std::string &columnName : columnNames) {
+    if (columnName != "WEIGHT_SPECTRUM") {
+      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
+      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
+      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
+      casacore::Array<bool> flagArr(flagCol.shape(0));
+      for (size_t row = 0; row != ms->nrow(); ++row) {
+        dataCol.get(row, dataArr);
+        flagCol.get(row, flagArr);
+        casacore::Array<bool>::contiter f = flagArr.cbegin();
+        bool isChanged = false;
+        for (casacore::Array<std::complex<float>>::contiter d =
+                 dataArr.cbegin();
+             d != dataArr.cend(); ++d) {
+          if (*f) {
+            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
+                                     std::numeric_limits<float>::quiet_NaN());
+            isChanged = true;
+          }
+          ++f;
+        }
+        if (isChanged) dataCol.put(row, dataArr);
+      }
+    }
+  }
+  std::cout << "Time taken: " << watch.ToString() << '\n';
+
   watch.Reset();
   watch.Start();
 
-- 
2.43.0


From bb4c3f7db51db66c619067fb0fd7320bb26bc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 15/41] fix: do not read past the baseline list in dscompress

A timeblock with more rows than the first one indexed outside the vector
before it was refused.
---
 dscompress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index 0b17fac..06f8b9e 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -264,7 +264,7 @@ int main(int argc, char *argv[]) {
       }
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
-      } else {
+      } else if (blockOffset < antennasInBlock.size()) {
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
           std::string antstr;
-- 
2.43.0


From cd395c0c218e9047d039735739d12d2e06ac86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 16/41] fix: keep the shape of each column in dscompress

All columns were created with the shape of the last one, so compressing columns
of different shapes failed halfway.
---
 dscompress.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 06f8b9e..5bd2a64 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -10,6 +10,8 @@
 #include <casacore/tables/Tables/ArrayColumn.h>
 #include <casacore/tables/Tables/ScalarColumn.h>
 
+#include <map>
+
 using namespace dyscostman;
 
 template <typename T>
@@ -331,9 +333,10 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
+  std::map<std::string, casacore::IPosition> shapes;
   bool isDataReplaced = false;
   for (std::string columnName : columnNames) {
+    casacore::IPosition &shape = shapes[columnName];
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
@@ -348,11 +351,11 @@ int main(int argc, char *argv[]) {
     for (std::string columnName : columnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
+            *ms, columnName, shapes[columnName], bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
+            *ms, columnName, shapes[columnName], bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
     }
     for (std::string columnName : columnNames) {
-- 
2.43.0


From 9f461bc0d2a72cfaf01ffcba23d714328aaab11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 17/41] fix: skip columns that are already compressed in
 dscompress

---
 dscompress.cc | 56 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 5bd2a64..cb2c00a 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -11,30 +11,40 @@
 #include <casacore/tables/Tables/ScalarColumn.h>
 
 #include <map>
+#include <set>
 
 using namespace dyscostman;
 
+bool hasDataManager(casacore::Table &ms, const std::string &managerName) {
+  try {
+    ms.findDataManager(managerName);
+    return true;
+  } catch (std::exception &e) {
+    return false;
+  }
+}
+
 template <typename T>
 void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
+                            const std::string &managerName,
                             const casacore::IPosition &shape,
                             unsigned bitsPerComplex, unsigned bitsPerWeight,
                             Normalization normalization,
                             DyscoDistribution distribution, double studentsTNu,
                             double distributionTruncation, bool staticSeed) {
   std::cout << "Constructing new column '" << name << "'...\n";
-  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", "DyscoStMan",
+  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", managerName,
                                           shape);
   columnDesc.setOptions(casacore::ColumnDesc::Direct |
                         casacore::ColumnDesc::FixedShape);
 
   std::cout << "Querying storage manager...\n";
   bool isAlreadyUsed;
-  try {
-    ms.findDataManager("DyscoStMan");
+  if (hasDataManager(ms, managerName)) {
     isAlreadyUsed = true;
-  } catch (std::exception &e) {
+  } else {
     std::cout << "Constructing storage manager...\n";
-    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight);
+    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight, managerName);
     switch (distribution) {
       case GaussianDistribution:
         dataManager.SetGaussianDistribution();
@@ -59,10 +69,9 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
     isAlreadyUsed = false;
   }
 
-  // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, "DyscoStMan", false);
+    ms.addColumn(columnDesc, managerName, false);
   }
 }
 
@@ -228,6 +237,22 @@ int main(int argc, char *argv[]) {
   std::unique_ptr<casacore::Table> ms(
       new casacore::Table(msPath, casacore::Table::Update));
 
+  StManModifier modifier(*ms);
+  // Columns that are already compressed are left as they are
+  const std::set<std::string> uniqueNames(columnNames.begin(),
+                                          columnNames.end());
+  columnNames.clear();
+  for (const std::string &columnName : uniqueNames) {
+    const std::string dataManager =
+        columnName == "WEIGHT_SPECTRUM"
+            ? modifier.GetStorageManager<float>(columnName)
+            : modifier.GetStorageManager<casacore::Complex>(columnName);
+    if (dataManager == "DyscoStMan")
+      std::cout << "Column " << columnName << " is already compressed.\n";
+    else
+      columnNames.push_back(columnName);
+  }
+
   Stopwatch watch(true);
   if (doCheckMSFormat) {
     std::cout << "Validating MS ordering...\n";
@@ -331,8 +356,6 @@ int main(int argc, char *argv[]) {
   watch.Reset();
   watch.Start();
 
-  StManModifier modifier(*ms);
-
   std::map<std::string, casacore::IPosition> shapes;
   bool isDataReplaced = false;
   for (std::string columnName : columnNames) {
@@ -348,15 +371,22 @@ int main(int argc, char *argv[]) {
   }
 
   if (isDataReplaced) {
+    // No columns can be added to a storage manager that already holds data, so
+    // don't use the storage manager of previously compressed columns.
+    std::string managerName = "DyscoStMan";
+    for (size_t i = 1; hasDataManager(*ms, managerName); ++i)
+      managerName = "DyscoStMan" + std::to_string(i);
     for (std::string columnName : columnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, columnName, shapes[columnName], bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, columnName, managerName, shapes[columnName], bitsPerFloat,
+            bitsPerWeight, normalization, distribution, 1.0,
+            distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shapes[columnName], bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, columnName, managerName, shapes[columnName], bitsPerFloat,
+            bitsPerWeight, normalization, distribution, 1.0,
+            distributionTruncation, staticSeed);
     }
     for (std::string columnName : columnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
-- 
2.43.0


From 06407b7f72b943a19e59236010fc621215996882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 18/41] fix: refuse unsupported bit rates in dscompress before
 changing the measurement set

---
 dscompress.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index cb2c00a..3ba9700 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -1,3 +1,4 @@
+#include "bytepacker.h"
 #include "dyscodistribution.h"
 #include "dysconormalization.h"
 #include "dyscostman.h"
@@ -233,6 +234,10 @@ int main(int argc, char *argv[]) {
   }
   std::cout << "\n\n";
 
+  if (!BytePacker::isSupported(bitsPerFloat) ||
+      !BytePacker::isSupported(bitsPerWeight))
+    throw std::runtime_error("The requested bit rate is not supported");
+
   std::cout << "Opening ms...\n";
   std::unique_ptr<casacore::Table> ms(
       new casacore::Table(msPath, casacore::Table::Update));
-- 
2.43.0


From 43e305d76bf105afaa042a243b8492bebeecda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 19/41] fix: refuse columns with missing or unequally shaped
 cells in dscompress

---
 dscompress.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 3ba9700..0a03239 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -76,6 +76,22 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   }
 }
 
+/**
+ * Throws an exception if a column can not be stored with Dysco, because not all
+ * its cells are filled or not all its cells have the same shape.
+ */
+template <typename T>
+void checkShapes(casacore::Table &ms, const std::string &name) {
+  casacore::ArrayColumn<T> column(ms, name);
+  for (size_t row = 0; row != ms.nrow(); ++row) {
+    if (!column.isDefined(row) || !column.shape(row).isEqual(column.shape(0)))
+      throw std::runtime_error(
+          "Column " + name +
+          " has missing values or has cells with different shapes. The cells "
+          "should have equal shapes to be able to compress with Dysco.");
+  }
+}
+
 /**
  * Compress a given measurement set.
  * @param argc Command line parameter count
@@ -328,6 +344,13 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  for (const std::string &columnName : columnNames) {
+    if (columnName == "WEIGHT_SPECTRUM")
+      checkShapes<float>(*ms, columnName);
+    else
+      checkShapes<casacore::Complex>(*ms, columnName);
+  }
+
   watch.Reset();
   watch.Start();
   std::cout << "Replacing flagged values by NaNs...\n";
-- 
2.43.0


From b503773a4f6bdf1d4781713ed240995456188a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 20/41] fix: allow opening a table of which the weight column
 was renamed

---
 dyscostman.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 4e4aada..21a0801 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -327,7 +327,12 @@ casacore::DataManagerColumn *DyscoStMan::makeDirArrColumn(
     const casacore::String & /*dataTypeID*/) {
   std::unique_ptr<DyscoStManColumn> col;
 
-  if (name == "WEIGHT_SPECTRUM") {
+  // When opening a table (in which case the settings are not known yet), the
+  // column might have been renamed, so then only the type says what it holds.
+  const bool isOpening = _dataBitCount == 0;
+  const bool isWeight =
+      isOpening ? dataType == casacore::TpFloat : name == "WEIGHT_SPECTRUM";
+  if (isWeight) {
     if (dataType == casacore::TpFloat)
       col.reset(new DyscoWeightColumn(this, dataType));
     else
-- 
2.43.0


From ef1e2037b4ec01971922905bd9270a2e995d6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:43 +0000
Subject: [PATCH 21/41] fix: store a value equal to a quantization level
 exactly for every dither value

---
 stochasticencoder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..9546e65 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -113,7 +113,9 @@ class StochasticEncoder {
 
       ValueType ditherMark =
           ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
-      if (ditherMark > ditherValue)
+      // The comparison is done with doubles, because rounding the dither value
+      // to a float can make it equal to the mark of a value that is exact.
+      if (double(ditherMark) > double(ditherValue))
         return _decDictionary.symbol(lowerBound);
       else
         return _decDictionary.symbol(lowerBound - 1);
-- 
2.43.0


From 3c1c0658c14b658b18d1d9045ce40e5f5d274156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 22/41] fix: keep finite samples finite when a channel or a
 block has no finite cross-correlations

---
 aftimeblockencoder.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 81afe09..9a622f8 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -1,5 +1,7 @@
 #include "aftimeblockencoder.h"
 
+#include <algorithm>
+#include <cmath>
 #include <random>
 
 namespace {
@@ -282,6 +284,9 @@ void AFTimeBlockEncoder::encode(
   for (DBufferRow &row : data) {
     for (size_t i = 0; i != visPerRow; ++i) {
       double rms = channelRMSes[i].RMS();
+      // Without any finite visibility there's no rms, but a visibility of which
+      // only one component is finite still needs a valid scaling factor.
+      if (!std::isfinite(rms)) rms = 1.0;
       if (rms != 0.0) {
         row.visibilities[i] /= rms;
       }
@@ -361,6 +366,13 @@ void AFTimeBlockEncoder::calculateAntennaeRMS(
   // (note that _rmsPerAntenna is larger, so don't use assign())
   for (size_t i = 0; i != antennaCount; ++i) _rmsPerAntenna[i] = 1.0;
 
+  // If there are no finite, non-zero cross-correlations, the iterations below
+  // would converge to zero and scale the auto-correlations to infinity.
+  const bool hasCrossCorrelations = std::any_of(
+      matrix.begin(), matrix.end(),
+      [](double rms) { return std::isfinite(rms) && rms != 0.0; });
+  if (!hasCrossCorrelations) return;
+
   double precision = 1.0;
   for (size_t iteration = 0; iteration != 100 && precision > 1e-6;
        ++iteration) {
-- 
2.43.0


From cd5322a3c6e887f93879ae78fd9611a814616b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 23/41] fix: do not use uninitialized values when a header is
 truncated

---
 serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serializable.h b/serializable.h
index 172885d..525033a 100644
--- a/serializable.h
+++ b/serializable.h
@@ -124,7 +124,7 @@ class Serializable {
  private:
   template <typename T>
   static T Unserialize(std::istream &stream) {
-    T val;
+    T val = T();
     stream.read(reinterpret_cast<char *>(&val), sizeof(val));
     return val;
   }
-- 
2.43.0


From f544de0aa2e1b514a6b1f8c3a8347ba7ba5bb05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 24/41] fix: refuse files with an unknown distribution or
 normalization

---
 dyscostman.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 21a0801..35b3659 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -255,6 +255,12 @@ void DyscoStMan::readHeader() {
     throw DyscoStManError(s.str());
   }
 
+  if (header.distribution > TruncatedGaussianDistribution ||
+      header.normalization > uint8_t(Normalization::kRow))
+    throw DyscoStManError("The compressed file '" + fileName() +
+                          "' has an unknown distribution or normalization "
+                          "-- is the file corrupted?");
+
   for (size_t i = 0; i != _columns.size(); ++i) {
     DyscoStManColumn &col = *_columns[i];
     GenericColumnHeader cHeader;
-- 
2.43.0


From 7640f4ef49b11e8803471fab02cb59023920187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 25/41] fix: refuse column shapes that are not two-dimensional

---
 threadeddyscocolumn.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 75a88fc..816a0f3 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -80,6 +80,10 @@ void ThreadedDyscoColumn<DataType>::stopThreads() {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::setShapeColumn(
     const casacore::IPosition &shape) {
+  if (shape.size() != 2 || shape[0] <= 0 || shape[1] <= 0)
+    throw DyscoStManError(
+        "The cells of a column stored with DyscoStMan should have two "
+        "dimensions (polarizations and channels), that are not zero");
   _shape = shape;
 }
 
-- 
2.43.0


From 1b67455b49b919d92d5865eaf350f1f4e5a8dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 26/41] fix: refuse bit counts that can not be written in the
 header

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 35b3659..1e2eb62 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -391,6 +391,9 @@ void DyscoStMan::prepare() {
     throw DyscoStManError(
         "One of the required parameters of the DyscoStMan was not "
         "set!\nDyscoStMan was not correctly initialized by your program.");
+  // The header has room for values up to 255
+  if (_dataBitCount > 255 || _weightBitCount > 255)
+    throw DyscoStManError("The requested bit count is not supported");
 
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) prepareColumn(*col);
 
-- 
2.43.0


From 4f3650c96f9409bdac441c7d342b31b2fee504b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 27/41] fix: encode blocks in the order in which they were
 stored

---
 threadeddyscocolumn.cc | 12 ++++++++++--
 threadeddyscocolumn.h  |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 816a0f3..8f8c83f 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -178,6 +178,8 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
     _cacheChangedCondition.wait(lock);
     cacheItemPtr = _cache.find(_currentBlock);
   }
+  for (const typename cache_t::value_type &cacheItem : _cache)
+    item->order = std::max(item->order, cacheItem.second->order + 1);
   _cache.insert(typename cache_t::value_type(_currentBlock, item));
   _cacheChangedCondition.notify_all();
   lock.unlock();
@@ -362,8 +364,14 @@ void ThreadedDyscoColumn<DataType>::EncodingThreadFunctor::operator()() {
 template <typename DataType>
 bool ThreadedDyscoColumn<DataType>::isWriteItemAvailable(
     typename cache_t::iterator &i) {
-  i = _cache.begin();
-  while (i != _cache.end() && i->second->isBeingWritten) ++i;
+  // Items are taken in the order in which they were stored: with a static seed,
+  // the result should not depend on how fast the items are written.
+  i = _cache.end();
+  for (typename cache_t::iterator j = _cache.begin(); j != _cache.end(); ++j) {
+    if (!j->second->isBeingWritten &&
+        (i == _cache.end() || j->second->order < i->second->order))
+      i = j;
+  }
   return (i != _cache.end());
 }
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 60bb91f..a55f6b9 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -165,9 +165,10 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
  private:
   struct CacheItem {
     CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_)
-        : encoder(std::move(encoder_)), isBeingWritten(false) {}
+        : encoder(std::move(encoder_)), order(0), isBeingWritten(false) {}
 
     std::unique_ptr<TimeBlockBuffer<data_t>> encoder;
+    size_t order;  // Items with a lower value were stored earlier
     bool isBeingWritten;
   };
 
-- 
2.43.0


From 00ca5a19506b099c9a7cc9b1af1b892346c55212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 28/41] fix: add all columns to the storage manager that was
 made for them

---
 dscompress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index 0a03239..9f0ef18 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -72,7 +72,7 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
 
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, managerName, false);
+    ms.addColumn(columnDesc, managerName, true);
   }
 }
 
-- 
2.43.0


From 0d8ed695c84bb302925e832171309325ed975efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 29/41] fix: do not add a decompressed column to the DyscoStMan

---
 stmanmodifier.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..4384bd3 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -65,12 +65,12 @@ class StManModifier {
         casacore::ArrayColumn<float> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<float> columnDesc(columnName,
                                                     oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, "StandardStMan", false);
       } else {
         casacore::ArrayColumn<casacore::Complex> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<casacore::Complex> columnDesc(
             columnName, oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, "StandardStMan", false);
       }
       return true;
     } else {
-- 
2.43.0


From 4149b9b0344b13972c3d77e49d353ab3ff51deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 30/41] fix: decompress changed the values of other compressed
 columns

---
 decompress.cc   |  7 ++++++-
 stmanmodifier.h | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/decompress.cc b/decompress.cc
index f3942db..c11b96d 100644
--- a/decompress.cc
+++ b/decompress.cc
@@ -24,7 +24,12 @@ int main(int argc, char *argv[]) {
   if (isWeightReplaced) modifier.MoveColumnData<float>("WEIGHT_SPECTRUM");
 
   if (isDataReplaced || isWeightReplaced) {
-    StManModifier::Reorder(ms, argv[1]);
+    // Rewriting the measurement set would compress the values of columns that
+    // remain compressed again, which changes them.
+    if (modifier.HasDyscoColumns())
+      std::cout << "Not reordering, because other columns are compressed.\n";
+    else
+      StManModifier::Reorder(ms, argv[1]);
   }
 
   std::cout << "Finished.\n";
diff --git a/stmanmodifier.h b/stmanmodifier.h
index 4384bd3..8f6721c 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -37,6 +37,16 @@ class StManModifier {
     return dataCol.columnDesc().dataManagerType();
   }
 
+  /**
+   * Whether the table has columns that are stored with Dysco.
+   */
+  bool HasDyscoColumns() const {
+    for (const casacore::String &name : _ms.tableDesc().columnNames()) {
+      if (_ms.tableDesc()[name].dataManagerType() == "DyscoStMan") return true;
+    }
+    return false;
+  }
+
   /**
    * Rename the old column and create a new column with the default storage
    * manager. After all columns have been renamed, the operation should be
-- 
2.43.0


From 0f3c4eed31d29c792405ea7d2b7c4e9d43701b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 31/41] fix: dscompress refused columns without two dimensions
 halfway

---
 dscompress.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 9f0ef18..a24b4ac 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -90,6 +90,10 @@ void checkShapes(casacore::Table &ms, const std::string &name) {
           " has missing values or has cells with different shapes. The cells "
           "should have equal shapes to be able to compress with Dysco.");
   }
+  if (column.ndim(0) != 2 || column.shape(0).product() == 0)
+    throw std::runtime_error("The cells of column " + name +
+                             " do not have two dimensions (polarizations and "
+                             "channels), so it can not be compressed.");
 }
 
 /**
-- 
2.43.0


From 0cb79c1b842b7d7d46e46e011af94bcf6f4997db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 32/41] fix: dscompress used flags with another shape than the
 data

---
 dscompress.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index a24b4ac..97ecba8 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -96,6 +96,22 @@ void checkShapes(casacore::Table &ms, const std::string &name) {
                              "channels), so it can not be compressed.");
 }
 
+/**
+ * Throws an exception if a column does not have a flag for each of its values.
+ */
+void checkFlags(casacore::Table &ms, const std::string &name) {
+  casacore::ArrayColumn<casacore::Complex> column(ms, name);
+  casacore::ArrayColumn<bool> flagColumn(ms, "FLAG");
+  for (size_t row = 0; row != ms.nrow(); ++row) {
+    if (!flagColumn.isDefined(row) ||
+        !flagColumn.shape(row).isEqual(column.shape(row)))
+      throw std::runtime_error(
+          "The FLAG column has missing values or has cells with a different "
+          "shape than those of column " +
+          name + ".");
+  }
+}
+
 /**
  * Compress a given measurement set.
  * @param argc Command line parameter count
@@ -351,8 +367,10 @@ int main(int argc, char *argv[]) {
   for (const std::string &columnName : columnNames) {
     if (columnName == "WEIGHT_SPECTRUM")
       checkShapes<float>(*ms, columnName);
-    else
+    else {
       checkShapes<casacore::Complex>(*ms, columnName);
+      checkFlags(*ms, columnName);
+    }
   }
 
   watch.Reset();
-- 
2.43.0


From 9fa167c4cedfa38683fb646ab1eee0a79f601d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 33/41] fix: refuse to replace a column when its temporary name
 is in use

---
 decompress.cc   |  6 ++++++
 dscompress.cc   |  1 +
 stmanmodifier.h | 13 +++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/decompress.cc b/decompress.cc
index c11b96d..0094522 100644
--- a/decompress.cc
+++ b/decompress.cc
@@ -14,6 +14,12 @@ int main(int argc, char *argv[]) {
       new casacore::Table(argv[1], casacore::Table::Update));
   StManModifier modifier(*ms);
 
+  for (const std::string name : {"DATA", "WEIGHT_SPECTRUM"}) {
+    if (ms->tableDesc().isColumn(name) &&
+        ms->tableDesc()[name].dataManagerType() == "DyscoStMan")
+      modifier.CheckTemporaryName(name);
+  }
+
   bool isDataReplaced = ms->tableDesc().isColumn("DATA") &&
                         modifier.InitColumnWithDefaultStMan("DATA", false);
   bool isWeightReplaced =
diff --git a/dscompress.cc b/dscompress.cc
index 97ecba8..cf26ad5 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -365,6 +365,7 @@ int main(int argc, char *argv[]) {
   }
 
   for (const std::string &columnName : columnNames) {
+    modifier.CheckTemporaryName(columnName);
     if (columnName == "WEIGHT_SPECTRUM")
       checkShapes<float>(*ms, columnName);
     else {
diff --git a/stmanmodifier.h b/stmanmodifier.h
index 8f6721c..e9ecbaa 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -37,6 +37,19 @@ class StManModifier {
     return dataCol.columnDesc().dataManagerType();
   }
 
+  /**
+   * Throws an exception when the temporary name that is used for replacing a
+   * column is in use. To be called before any column is replaced.
+   * @param columnName Name of column.
+   */
+  void CheckTemporaryName(const std::string &columnName) const {
+    const std::string tempName = "TEMP_" + columnName;
+    if (_ms.tableDesc().isColumn(tempName))
+      throw std::runtime_error("The table already has a column named " +
+                               tempName + ", so column " + columnName +
+                               " can not be replaced.");
+  }
+
   /**
    * Whether the table has columns that are stored with Dysco.
    */
-- 
2.43.0


From 255d4ecc0f9c2d537024eb4d9194bd426d3c9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 34/41] fix: decompress failed on uncompressed columns with
 another type

---
 stmanmodifier.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9ecbaa..f27605f 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -71,11 +71,8 @@ class StManModifier {
    */
   bool InitColumnWithDefaultStMan(const std::string &columnName,
                                   bool isWeight) {
-    std::string dataManager;
-    if (isWeight)
-      dataManager = GetStorageManager<float>(columnName);
-    else
-      dataManager = GetStorageManager<casacore::Complex>(columnName);
+    const std::string dataManager =
+        _ms.tableDesc()[columnName].dataManagerType();
     std::cout << "Current data manager of " + columnName + " column: "
               << dataManager << '\n';
 
-- 
2.43.0


From 05b0639121e625fd4174cf9841dc10eb4d377ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 35/41] fix: do not let what is stored depend on the speed of
 other columns

---
 dyscostman.cc          |  2 +-
 dyscostmancol.h        |  2 +-
 threadeddyscocolumn.cc | 15 ++++++++++++---
 threadeddyscocolumn.h  |  9 ++++++++-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 1e2eb62..f36874b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -289,7 +289,7 @@ void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
     col->SetOffsetInBlock(_blockSize);
     _blockSize += columnBlockSize;
 
-    col->InitializeAfterNRowsPerBlockIsKnown();
+    col->InitializeAfterNRowsPerBlockIsKnown(_nBlocksInFile);
   }
   if (writeToHeader) writeHeader();
 }
diff --git a/dyscostmancol.h b/dyscostmancol.h
index e0b8e4c..b0b4ec9 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -50,7 +50,7 @@ class DyscoStManColumn : public casacore::StManColumn {
                        Normalization normalization, double studentsTNu,
                        double distributionTruncation) = 0;
 
-  virtual void InitializeAfterNRowsPerBlockIsKnown() = 0;
+  virtual void InitializeAfterNRowsPerBlockIsKnown(uint64_t nBlocksInFile) = 0;
 
   virtual size_t CalculateBlockSize(size_t nRowsInBlock,
                                     size_t nAntennae) const = 0;
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 8f8c83f..872858d 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -27,6 +27,7 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
       _stopThreads(false),
       _currentBlock(std::numeric_limits<size_t>::max()),
       _isCurrentBlockChanged(false),
+      _nStoredBlocks(0),
       _blockSize(0),
       _antennaCount(0),
       _timeBlockBuffer() {}
@@ -101,7 +102,12 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 
   // Rows of the previous block should not leak into the new block
   _timeBlockBuffer->ResetData();
-  if (blockIndex < nBlocksInFile()) {
+  if (blockIndex < _nStoredBlocks) {
+    // A block that was skipped is in the file once a later block is written
+    std::unique_lock<std::mutex> lock(_mutex);
+    while (nBlocksInFile() <= blockIndex && !_cache.empty())
+      _cacheChangedCondition.wait(lock);
+    lock.unlock();
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
                  nRows = nRowsInBlock(),
@@ -142,7 +148,7 @@ void ThreadedDyscoColumn<DataType>::getValues(
     if (blockIndex != _currentBlock) {
       // Wait until the block to be read is not in the write cache
       waitUntilWritten(blockIndex);
-      if (blockIndex >= nBlocksInFile()) {
+      if (blockIndex >= _nStoredBlocks) {
         // Trying to read a row that was not stored yet -- return zero
         *dataArr = DataType();
         return;
@@ -185,6 +191,7 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   lock.unlock();
 
   _isCurrentBlockChanged = false;
+  _nStoredBlocks = std::max<uint64_t>(_nStoredBlocks, _currentBlock + 1);
   const size_t nPolarizations = _shape[0], nChannels = _shape[1];
   _timeBlockBuffer.reset(
       new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
@@ -271,12 +278,14 @@ size_t ThreadedDyscoColumn<DataType>::defaultThreadCount() const {
 }
 
 template <typename DataType>
-void ThreadedDyscoColumn<DataType>::InitializeAfterNRowsPerBlockIsKnown() {
+void ThreadedDyscoColumn<DataType>::InitializeAfterNRowsPerBlockIsKnown(
+    uint64_t nBlocksInFile) {
   stopThreads();
   if (_bitsPerSymbol == 0)
     throw DyscoStManError(
         "bitsPerSymbol not initialized in ThreadedDyscoColumn");
 
+  _nStoredBlocks = nBlocksInFile;
   _antennaCount = nAntennae();
   _blockSize = CalculateBlockSize(nRowsInBlock(), _antennaCount);
   _packedBlockReadBuffer.resize(_blockSize);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index a55f6b9..453d5b6 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -103,7 +103,8 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   /**
    * Prepare this column for reading/writing. Used internally by the stman.
    */
-  virtual void InitializeAfterNRowsPerBlockIsKnown() override;
+  virtual void InitializeAfterNRowsPerBlockIsKnown(
+      uint64_t nBlocksInFile) override;
 
   /**
    * Set the bits per symbol. Should only be called by DyscoStMan.
@@ -227,6 +228,12 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   std::condition_variable _cacheChangedCondition;
   size_t _currentBlock;
   bool _isCurrentBlockChanged;
+  /**
+   * End of the blocks that might hold data of this column: the blocks that were
+   * in the file when the threads were started and those stored since. Unlike
+   * nBlocksInFile(), it does not depend on the speed of the encoding threads.
+   */
+  uint64_t _nStoredBlocks;
   size_t _blockSize;
   size_t _antennaCount;
 
-- 
2.43.0


From d9b004f9b76351aded8e0a5e94bc2844de51283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 36/41] fix: report that the last data could not be written to
 the file

---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index f36874b..5ac36dd 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -213,6 +213,7 @@ void DyscoStMan::writeHeader() {
     cHeader.Serialize(*_fStream);
     col->SerializeExtraHeader(*_fStream);
   }
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: could not write to file");
 }
@@ -515,6 +516,9 @@ void DyscoStMan::writeCompressedData(size_t blockIndex,
   size_t fileOffset = getFileOffset(blockIndex);
   _fStream->seekp(fileOffset + column->OffsetInBlock(), std::ios_base::beg);
   _fStream->write(reinterpret_cast<const char *>(data), size);
+  // What stays in the stream is written when the stream is closed, and then it
+  // would not be noticed that it could not be written
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error while writing file '" + fileName() +
                           "'");
-- 
2.43.0


From 70d1066a7d5dd37ad452ad3f29626af00a5a319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 37/41] fix: an error while reading the last block was taken
 for an incomplete block

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 5ac36dd..4326f62 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -497,7 +497,7 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   if (_fStream->fail()) {
     // This can be sort of ok ; row exists because other columns have written
     // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile)
+    if (_fStream->bad() || blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
     // The part that was not written reads as zeros
-- 
2.43.0


From 10f4cb0016a158143c8cc6bb638fd04a97f0aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 38/41] fix: the previous block read as zeros after a block
 could not be read

---
 threadeddyscocolumn.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 872858d..41cd504 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -100,8 +100,10 @@ template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   waitUntilWritten(blockIndex);
 
-  // Rows of the previous block should not leak into the new block
+  // Rows of the previous block should not leak into the new block. No block is
+  // loaded when reading fails.
   _timeBlockBuffer->ResetData();
+  _currentBlock = std::numeric_limits<size_t>::max();
   if (blockIndex < _nStoredBlocks) {
     // A block that was skipped is in the file once a later block is written
     std::unique_lock<std::mutex> lock(_mutex);
-- 
2.43.0


From cab5dfcfb2a5553dda83e2c89d0edbba58c79f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:41 +0000
Subject: [PATCH 39/41] fix: a table could not be opened after all columns of a
 manager were removed

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 4326f62..2b33095 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -449,6 +449,9 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
         // and is not part of the header.
         if (!areOffsetsInitialized()) writeHeader();
       }
+      // Casacore deletes the storage manager with its last column, and counts
+      // the columns with this.
+      decrementNcolumn();
       return;
     }
   }
-- 
2.43.0


From 397f9535cc84570e050a82d5db47aaab3f17032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:56 +0000
Subject: [PATCH 40/41] fix: removing the last column of a manager with a
 pending block terminated the program

---
 dyscostman.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 2b33095..c0a4b00 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -367,7 +367,11 @@ casacore::DataManagerColumn *DyscoStMan::makeIndArrColumn(
 
 void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 
-void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
+void DyscoStMan::deleteManager() {
+  // There is nothing left to write, and no file to write to
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->DiscardChanges();
+  unlink(fileName().c_str());
+}
 
 void DyscoStMan::prepareColumn(DyscoStManColumn &col) {
   DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(&col);
-- 
2.43.0


From f302706f47251cd11ff78df7b0576743b3acd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:28 +0000
Subject: [PATCH 41/41] fix: writing to other columns hung after the removal of
 a column failed

---
 dyscostman.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index c0a4b00..8a3226c 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -444,7 +444,13 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
         // The data of the other columns will move inside the file, so they
         // should not be writing while this is done.
         for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->shutdown();
-        removeFromBlocks(**i);
+        try {
+          removeFromBlocks(**i);
+        } catch (...) {
+          // The columns stay, and should be able to write again
+          initializeRowsPerBlock(_rowsPerBlock, _antennaCount, false);
+          throw;
+        }
         _columns.erase(i);
         initializeRowsPerBlock(_rowsPerBlock, _antennaCount, true);
       } else {
-- 
2.43.0

