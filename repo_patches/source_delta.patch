From 1496cf53d704088b550de5cf9a142f641f448d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 01/26] fix: keep the clock hand of the cache inside the clock
 for large hand spreads

---
 cache/lru.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..77d746a 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -38,6 +38,8 @@
 #ifndef CACHE_LRU_H
 #define CACHE_LRU_H
 
+#include <algorithm>
+
 namespace cache
 {
 	
@@ -82,7 +84,8 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			// The hand must stay on the clock
+			m_nextClear = std::min(static_cast<unsigned long>(handDiff), size - 1);
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From ebc72f440533b34cceb3b8b954c266d75895f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 02/26] fix: do not drop a valid dictionary entry when the
 removed entry is not listed

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..bbdf068 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -193,6 +193,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// Entry was already dropped from the dictionary
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 737397b28fc9f2fc88eaff73a26411000ec73f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 03/26] fix: make the barrier robust against spurious wakeups
 and report failed locks

---
 threads/sync.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..b598321 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,15 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		// Wait until all threads left the previous barrier
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +143,16 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From 704ddad4ed1f92fe69ccfca68825ba1a2af9646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 04/26] fix: clamp NaN coordinates to the grid

The result of inf * 0 (single grid point) or of a NaN coordinate passed the
range check and was converted to an arbitrary index.
---
 grid/level/level.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..1a61c29 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -358,12 +358,13 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			// Negated to catch NaN as well
+			if (!(x >= 0 && x < m_size[i])) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
-					x = 0;
-				else
+				if (x >= m_size[i])
 					x = m_size[i]-1;
+				else
+					x = 0;
 			}
 
 			index[i] = x;
-- 
2.43.0


From 672e42b0cd58ebac05f29cacd60389b3c4771718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 05/26] fix: do not copy open levels when a level is added

std::vector::resize copied all levels (including file handles and pointers to
memory) and destroyed the originals.
---
 grid/simplecontainer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..a095802 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -54,8 +54,11 @@ template<class Level, class Type>
 class SimpleContainer : public TypedContainer<Type>
 {
 private:
-	/** All grids we control */
-	std::vector<Level> m_levels;
+	/**
+	 * All grids we control. Levels can not be copied after they are opened,
+	 * thus the container must not move them when it grows.
+	 */
+	std::deque<Level> m_levels;
 
 public:
 	/**
-- 
2.43.0


From a77f3f85f0fc9d51d4980606c1dd26c997bc1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 06/26] fix: report the counters of the requested level

Grid::getCounter ignored its level argument.
---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..87ed8d8 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From e8f20f256f66b7fd1f04704b7f4516fb42e6f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 07/26] fix: typed getters of arrays and structs overflowed the
 result

convert(const void*, void*) hid the conversions inherited from BasicType, so
the typed getters copied the whole variable into a single element.
---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..237c245 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	/** Do not hide the conversion of the first element */
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..96b4b30 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	/** Do not hide the conversion of the first element */
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From e2380adebc10eed6d841dca9484a53594e9998e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 08/26] fix: keep the default block size of 1 in the time
 dimension

---
 grid/level/blocked.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..e9e5436 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -103,21 +103,18 @@ protected:
 			timeDimension = -1;
 		}
 
-		// Set block size in time dimension
-		if ((timeDimension >= 0) && (blockSize[timeDimension] == 0)) {
-			logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
-			// C to Fortran mapping
-			m_blockSize[this->dimensions() - timeDimension - 1] = 1;
-		}
-
 		// Set default block size and calculate number of blocks and total block size
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
-				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
+				// Setting default block size
+				if (static_cast<int>(this->dimensions() - i - 1) == timeDimension) {
+					logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
+					m_blockSize[i] = 1;
+				} else
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From fca95a8990e0c8962af8bfc2e8ff2310991e1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 09/26] fix: use the NUMA distributed cache if NUMA
 communication is enabled

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 87ed8d8..5eef5ee 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -347,9 +347,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From 3d96868eb3c64b80127139224630f80332cc2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 10/26] fix: keep the sign of numeric parameters

---
 grid/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 5eef5ee..6719cce 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -205,7 +205,8 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	if (n != "VARIABLE"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
-		std::replace(v.begin(), v.end(), '-', '_');
+		// A leading '-' is the sign of a number
+		std::replace(v.begin() + (v.empty() ? 0 : 1), v.end(), '-', '_');
 	}
 
 	m_params[level][n] = v;
-- 
2.43.0


From b13a896d19341b66dfd705352cba8de1caba9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 11/26] fix: protect the Fortran handles against concurrent
 creation of grids

---
 fortran/pointerarray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..da0f1a5 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,10 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the
+	 * vector (adding a pointer may move all other pointers)
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +86,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +99,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From ced3bd228234af821826c1f3ef3e7a5fef7c4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 12/26] fix: same error codes in the C and the C++ interface

---
 include/asagi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..ae3a295 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,8 +438,8 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
-	ASAGI_INVALID_VAR_SIZE
+	ASAGI_INVALID_VAR_SIZE,
+	ASAGI_MULTIPLE_TOPGRIDS
 } asagi_error;
 #endif
 
-- 
2.43.0


From 25b8fcbf07891ec54cc0f669a0511e9beecb2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 13/26] fix: never use a negative color in nodeLocalRank

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..fd33eb1 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -109,7 +109,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	assert(mpiResult == MPI_SUCCESS);
 
 	MPI_Comm nodeComm;
-	mpiResult = MPI_Comm_split(comm, hash, rank, &nodeComm);
+	// The color must not be negative
+	mpiResult = MPI_Comm_split(comm, hash & 0x7fffffff, rank, &nodeComm);
 	assert(mpiResult == MPI_SUCCESS);
 
 	// Gather all proc names of this node to detect Adler32 collisions
-- 
2.43.0


From 4654b8649087ac97eb7418565be9d8d91f89fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 14/26] fix: pin the communication thread to the requested CPU
 for negative ids

---
 mpi/commthread.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..d9fc267 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -157,7 +157,7 @@ public:
 #ifndef __APPLE__
 		// Pin the thread
 		int numCPUs = std::thread::hardware_concurrency();
-		if (schedCPU < numCPUs && -schedCPU <= numCPUs) {
+		if (schedCPU < numCPUs && schedCPU >= -numCPUs) {
 			// Only pin if a valid CPU id is given
 			cpu_set_t cpuset;
 			CPU_ZERO(&cpuset);
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From e997b4ba28b0a23112ec6f0819762aae3d0a7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/26] fix: receive dictionary entries with the tag of the
 level

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..631a6ca 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From b35d160cd467bc6c5721e55fa56b435553f1099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 16/26] fix: separate the replies of different levels of a full
 grid (communication thread)

---
 transfer/mpithreadfull.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..468f66f 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -175,7 +175,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_tag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -186,7 +186,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_tag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From 1eac8b0d880fd5d1b4aa2be56da5558f9c594ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 17/26] fix: a receiver is registered on all processes before
 messages are sent to it

---
 mpi/commthread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index d9fc267..f17b653 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -237,6 +237,11 @@ public:
 		MPI_Comm_group(comm, &detail.group);
 		m_receiver[tag] = detail;
 
+		// Nobody is allowed to send messages before all processes
+		// can receive them
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From 329c5e96e3fd0b2f60da6ddc0bed3ae884a03985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 18/26] fix: blocks of all domains are stored before other
 processes read them

---
 transfer/mpithreadfull.h | 24 ++++++++++++++----------
 transfer/mpiwinfull.h    | 15 +++++++++------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 468f66f..3c2b930 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -108,8 +108,9 @@ public:
 
 	virtual ~MPIThreadFull()
 	{
-		if (m_numaDomainId == 0 && m_tag >= 0) {
-			mpi::CommThread::commThread.unregisterReceiver(m_tag);
+		if (m_numaDomainId == 0) {
+			if (m_tag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_tag);
 
 			delete m_sendRecvMutex;
 		}
@@ -139,20 +140,23 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		if (m_numaDomainId == 0)
+			m_sendRecvMutex = new threads::Mutex();
+
+		// This also makes sure that all domains have stored their blocks
+		// before other processes can access them
+		asagi::Grid::Error err = numaComm.broadcast(m_sendRecvMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		if (m_numaDomainId == 0) {
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
-
-			m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
-		err = numaComm.broadcast(m_sendRecvMutex);
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..4cfb120 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -123,11 +123,18 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		if (m_numaDomainId == 0)
+			m_winMutex = new threads::Mutex();
+
+		// This also makes sure that all domains have stored their blocks
+		// before other processes can access them
+		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
-			m_winMutex = new threads::Mutex();
-
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 
 			// Create the mpi window for distributed blocks
@@ -140,10 +147,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_window);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From fe37d86dce28a7db689e08a71de69e9098ec574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 19/26] fix: directory and cache managers are complete before
 other processes use them

---
 transfer/mpithreadcache.h | 51 +++++++++++++++++++++------------------
 transfer/mpiwincache.h    | 45 +++++++++++++++++++---------------
 2 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 631a6ca..b03ef67 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,15 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			if (m_blockInfoTag >= 0) {
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+			}
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
@@ -377,8 +378,27 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
+			m_tagOffset = mpiComm.reserveTags(3);
+
+			m_infoMutex = new threads::Mutex();
+			m_blockMutex = new threads::Mutex();
+		}
+
+		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		m_cacheManager[m_numaDomainId] = &cacheManager;
+
+		// This also makes sure that all domains have set their cache manager
+		// before other processes can send messages
+		err = numaComm.broadcast(m_mutexes);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		if (m_numaDomainId == 0) {
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
@@ -397,23 +417,8 @@ public:
 				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
-
-			m_tagOffset = mpiComm.reserveTags(3);
-
-			m_infoMutex = new threads::Mutex();
-			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
-		m_cacheManager[m_numaDomainId] = &cacheManager;
-
-		err = numaComm.broadcast(m_mutexes);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..6681cb3 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -170,10 +170,33 @@ public:
 				blockCount, mpiComm, numaComm);
 
 		if (m_numaDomainId == 0) {
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-
 			m_dictWinMutex = new threads::Mutex();
 
+			// Create the MPI mutex
+			m_mpiMutex = new mpi::Mutex();
+
+			// Create cache window mutex
+			m_cacheWinMutex = new threads::Mutex();
+		}
+
+		err = numaComm.broadcast(m_mpiMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		// Initialize the mutex memory
+		for (unsigned long i = blockCount * m_numaDomainId;
+				i < blockCount * (m_numaDomainId+1); i++)
+			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
+
+		// This also makes sure that all domains have initialized their part
+		// of the dictionary before other processes can access it
+		err = numaComm.broadcast(m_dictWinMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		if (m_numaDomainId == 0) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
 			if (MPI_Win_create(dictionary(),
 				sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
 				sizeof(long),
@@ -182,13 +205,8 @@ public:
 				&m_dictWin) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
-			// Create the MPI mutex
-			m_mpiMutex = new mpi::Mutex();
 			m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
 
-			// Create cache window mutex
-			m_cacheWinMutex = new threads::Mutex();
-
 			// Create the window to access the cache
 			if (MPI_Win_create(cache,
 				m_typeSize * blockSize * rankCacheSize(),
@@ -199,18 +217,10 @@ public:
 				return asagi::Grid::MPI_ERROR;
 		}
 
-		err = numaComm.broadcast(m_dictWinMutex);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_dictWin);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		err = numaComm.broadcast(m_mpiMutex);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_cacheWinMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -219,11 +229,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From ea2fd09fba5276bbd60a370e3c1e0e443a885aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 20/26] fix: do not ask a process again that waits for this
 block itself

---
 grid/level/cachedist.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..65ab7e5 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -173,6 +173,7 @@ public:
 
 				bool retry;
 				bool received = false;
+				long lastEntry = -1;
 
 				do {
 					retry = false;
@@ -183,6 +184,12 @@ public:
 							this->blockNodeOffset(globalBlockId),
 							cacheOffset + m_cacheSize * this->numaDomainId());
 
+					// The same entry failed before. The other rank may not be able
+					// to answer until this block is available.
+					if (entry >= 0 && entry == lastEntry)
+						break;
+					lastEntry = entry;
+
 					// Fill the cache
 					if (m_mpiTrans.transfer(entry, globalBlockId, data, retry)) {
 						this->incCounter(perf::Counter::MPI);
-- 
2.43.0


From 86437a623516e6912badbe537427364f3b757eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 21/26] fix: receivers can be added while messages are sent and
 received

---
 mpi/commthread.h | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index f17b653..3d7530c 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,9 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/** Lock for the map of receivers */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -235,7 +238,9 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
+		m_receiverLock.lock();
 		m_receiver[tag] = detail;
+		m_receiverLock.unlock();
 
 		// Nobody is allowed to send messages before all processes
 		// can receive them
@@ -268,17 +273,34 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Finds the receiver for a tag
+	 *
+	 * @return False if there is no such receiver
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -301,18 +323,21 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
+				commThread.m_receiverLock.lock();
 				commThread.m_receiver.erase(data);
+				commThread.m_receiverLock.unlock();
+
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From a6ef8c111fc21facb53bddf371cd95904909d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 22/26] fix: report the error of a domain that could not open
 the file

---
 grid/grid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 6719cce..de06d16 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -242,11 +242,16 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	}
 
 	// Synchronize the return value (also acts as a barrier)
-	asagi::Grid::Error err2 = m_numa.broadcast(err);
+	asagi::Grid::Error rootErr = err;
+	asagi::Grid::Error err2 = m_numa.broadcast(rootErr);
 	if (err2 != asagi::Grid::SUCCESS)
 		return err2;
 
-	return err;
+	// Opening the file may have failed in the domain of this thread only
+	if (err != asagi::Grid::SUCCESS)
+		return err;
+
+	return rootErr;
 }
 
 unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
-- 
2.43.0


From ac895e10c04cbb0cb314d402942545c237bf232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 23/26] fix: one-time initialisation tests its flag without a
 data race

---
 threads/once.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/threads/once.h b/threads/once.h
index 609e46b..f567ba6 100644
--- a/threads/once.h
+++ b/threads/once.h
@@ -38,6 +38,7 @@
 #ifndef THREADS_ONCE_H
 #define THREADS_ONCE_H
 
+#include <atomic>
 #include <mutex>
 
 #include "mutex.h"
@@ -50,8 +51,8 @@ namespace threads
  */
 class Once {
 private:
-	/** Already executed */
-	bool m_state;
+	/** Already executed (tested without holding the mutex) */
+	std::atomic<bool> m_state;
 
 	/** Mutex to lock the state */
 	Mutex m_mutex;
-- 
2.43.0


From b47014a087acc6bd06fcbe4d6d78db0934379c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 24/26] fix: report errors of the setup of the distributed
 directory

---
 transfer/mpicache.h       | 7 +++++--
 transfer/mpithreadcache.h | 6 ++++--
 transfer/mpiwincache.h    | 4 +++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index bbdf068..fe9a62b 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,16 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error err;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			err = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
+			if (err != asagi::Grid::SUCCESS)
+				return err;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index b03ef67..1bc11a8 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -364,8 +364,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -384,7 +386,7 @@ public:
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6681cb3..16025d8 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,8 +166,10 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_dictWinMutex = new threads::Mutex();
-- 
2.43.0


From a0bebcb8dbe0bb7d1dff67233e991e6653d1be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 25/26] fix: no receiver gets a tag of the communication thread

---
 mpi/commthread.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 3d7530c..a3f8ad5 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -232,6 +232,10 @@ public:
 		if (MPI_Allreduce(&m_nextTag, &tag, 1, MPI_INT, MPI_MAX, comm) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 
+		// The remaining tags are used by the communication thread itself
+		if (tag >= UNREG_TAG)
+			return asagi::Grid::MPI_ERROR;
+
 		m_nextTag = tag+1;
 
 		// Save the receiver
-- 
2.43.0


From 72dced471cf20aa52c1d1e83130390229ad95367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:37 +0000
Subject: [PATCH 26/26] fix: the size of arrays and structs is set when their
 MPI type is complete

---
 types/arraytype.h  | 15 ++++++---------
 types/structtype.h | 12 +++++-------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 237c245..a310945 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -94,25 +94,22 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// All domains use the same type, thus it has to be complete before
+		// another thread sees the array size
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
+			m_arraySize = arraySize;
+		} else {
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index 96b4b30..feb9783 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,11 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// All domains use the same type, thus it has to be complete before
+		// another thread sees the size
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -181,9 +179,9 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
+			m_size = size;
+		} else {
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0

