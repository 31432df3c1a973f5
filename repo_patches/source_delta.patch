From 34efaf700fe885eb50167cd2d64ad8fc9b1a1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 01/76] fix: open key-value storage files without a directory
 part

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..f1474e2 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -120,7 +120,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-	if (!std::filesystem::exists(dbfileParentDir)) {
+	if (!dbfileParentDir.empty() && !std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-- 
2.43.0


From 8216656d8b630a958255ab38f2828abbbeccd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 02/76] fix: keep key-value storage data when the process dies
 while opening it

---
 extra/kvstorage/driver.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index f1474e2..533647a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -124,9 +124,12 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	compact into a side file first, so that the existing data stays intact until it is complete
+	const auto compactFilename = this->m_filename + ".compact";
+
+	this->m_stream = std::fstream(compactFilename, std::ios::out | std::ios::binary);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + compactFilename);
 	}
 
 	DBBasicHeader dbHeader;
@@ -140,6 +143,18 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
 	}
+
+	this->m_stream.close();
+	if (this->m_stream.fail()) {
+		throw std::runtime_error("Failed to write db file: " + compactFilename);
+	}
+
+	std::filesystem::rename(compactFilename, this->m_filename);
+
+	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+	}
 }
 
 Driver::~Driver() {
-- 
2.43.0


From 12a04708feea76b6d5a901918347e0a2dbb536ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 03/76] fix: write key-value storage records in one piece

---
 extra/kvstorage/driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 533647a..b4c44fe 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -189,7 +189,8 @@ void Driver::handleTransaction(const Transaction& tractx) {
 		Bits::storenormx(static_cast<uint32_t>(tractx.value ? tractx.value->size() : 0))
 	};
 
-	this->m_stream.write((const char*)&recordHeader, sizeof(recordHeader));
+	//	a record goes out in one write, so that it's never torn by a crash
+	std::string record((const char*)&recordHeader, sizeof(recordHeader));
 
 	if (tractx.type != TransactionType::Clear) {
 
@@ -197,7 +198,7 @@ void Driver::handleTransaction(const Transaction& tractx) {
 			throw std::runtime_error("a transaction should specify a key to operate on");
 		}
 
-		this->m_stream.write(tractx.key->data(), tractx.key->size());
+		record.append(*tractx.key);
 	}
 
 	if (tractx.type == TransactionType::Put) {
@@ -206,8 +207,10 @@ void Driver::handleTransaction(const Transaction& tractx) {
 			throw std::runtime_error("a write transaction should provida a value");
 		}
 
-		this->m_stream.write(tractx.value->data(), tractx.value->size());
+		record.append(*tractx.value);
 	}
 
+	this->m_stream.write(record.data(), record.size());
+
 	this->m_stream.flush();
 }
-- 
2.43.0


From ca130e86445343793aa425505c21f58b0b0797c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 04/76] fix: refuse storage keys and values that the file
 format cannot hold

---
 extra/kvstorage/driver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index b4c44fe..3802c0f 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -6,6 +6,7 @@
 #include <filesystem>
 #include <vector>
 #include <iterator>
+#include <limits>
 #include <memory.h>
 
 using namespace Lambda::Storage;
@@ -183,6 +184,15 @@ std::optional<Container> Driver::sync() {
 
 void Driver::handleTransaction(const Transaction& tractx) {
 
+	//	refuse what the record header is not able to represent
+	if (tractx.key && tractx.key->size() > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("storage key is too long");
+	}
+
+	if (tractx.value && tractx.value->size() > std::numeric_limits<uint32_t>::max()) {
+		throw std::runtime_error("storage value is too long");
+	}
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
-- 
2.43.0


From b0edb6bbfa945bda7f6b80ebc9540c6d73a01b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 05/76] fix: lock key-value storage in hasItem and size

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..76dda86 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -75,5 +76,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From 50e2644f4f36c95b015c51c77d5f52352d712f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 06/76] fix: report failed writes of the key-value storage

---
 extra/kvstorage/driver.cpp    | 4 ++++
 extra/kvstorage/interface.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 3802c0f..0d17609 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -223,4 +223,8 @@ void Driver::handleTransaction(const Transaction& tractx) {
 	this->m_stream.write(record.data(), record.size());
 
 	this->m_stream.flush();
+
+	if (!this->m_stream) {
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
 }
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 76dda86..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -57,22 +57,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From 0b385bf25c7adf1ac37fd483e80525dec1d828dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 07/76] fix: keep virtual files and statistics right when
 moving

Moving a file onto its own name deleted it, replacing a file kept the replaced one in the statistics, and a failed move changed them.
---
 extra/vfs/interface.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..9bb542f 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,20 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
+	if (newPathNormalized == pathNormalized) {
+		return;
+	}
+
+	const auto itrNew = this->m_data.find(newPathNormalized);
+	if (itrNew != this->m_data.end()) {
+		this->m_info.totalSize -= (itrNew->first.size() + itrNew->second.buffer.size());
+		this->m_info.totalFiles--;
+	}
+
+	this->m_info.totalSize += (newPath.size() - oldPath.size());
+
 	this->m_data[newPathNormalized] = itrOld->second;
-	this->m_data.erase(itrOld);
+	this->m_data.erase(pathNormalized);
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From b9e7e42abfed2f7f63252fedb8a40cf02744e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 08/76] fix: report created and modified times of virtual files
 in their own fields

---
 extra/vfs/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 9bb542f..a2e7483 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -116,8 +116,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -138,8 +138,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
-- 
2.43.0


From b57cea9532841caeaedf2eed8bcbaf1a88c14642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 09/76] fix: count loaded snapshot files in the virtual
 filesystem statistics

---
 extra/vfs/interface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index a2e7483..0fb6922 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -181,6 +181,15 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr == this->m_data.end()) {
+				this->m_info.totalFiles++;
+			} else {
+				this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
+			}
+
+			this->m_info.totalSize += (pathNormalized.size() + vfsentry.buffer.size());
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
-- 
2.43.0


From 4bb9d61892b44b9c8609746aadbad0ae8daa8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 10/76] fix: refuse snapshot files with an unsupported
 extension

---
 extra/vfs/interface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 0fb6922..1e7c29d 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -150,10 +150,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
-- 
2.43.0


From 17c2cd43dca518ca4ac657aebff2f8e069772f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 11/76] fix: end snapshot queues without watching a future that
 is not assigned yet

The worker thread could wait on the future before it was assigned and fail with 'No associated state'; the queue was also read without its lock.
---
 extra/vfs/formats.hpp   | 10 ++++------
 extra/vfs/interface.cpp | 21 +++++++++++++++++----
 extra/vfs/syncqueue.cpp | 38 ++++++++++----------------------------
 3 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..d0922b8 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -7,17 +7,16 @@
 #include <vector>
 #include <array>
 #include <future>
-#include <shared_mutex>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda::VFS::Formats {
 
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
-			std::shared_mutex m_future_mtx;
-			bool m_done = false;
-			std::future<void>* m_watch_future = nullptr;
+			mutable std::mutex m_queue_mtx;
+			std::atomic<bool> m_done = false;
 
 		public:
 			SyncQueue& operator=(const SyncQueue& other) = delete;
@@ -30,7 +29,6 @@ namespace Lambda::VFS::Formats {
 			void close() noexcept;
 			bool done() const noexcept;
 			bool empty() const noexcept;
-			void setPromiseExitWatcher(std::future<void>* watch) noexcept;
 	};
 
 	namespace Tar {
diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 1e7c29d..84f1979 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -158,15 +158,29 @@ bool isSupportedFileExtension(const std::string& filepath, const std::array<std:
 	return false;
 }
 
+//	runs a format worker in it's own thread and closes the queue when it's done, no matter how it went
+std::future<void> runQueueWorker(void (*worker)(const std::string&, Formats::SyncQueue&), const std::string& path, Formats::SyncQueue& queue) {
+	return std::async(std::launch::async, [worker, path, &queue]() {
+
+		try {
+			worker(path, queue);
+		} catch (...) {
+			queue.close();
+			throw;
+		}
+
+		queue.close();
+	});
+}
+
 void Interface::loadSnapshot(const std::string& path) {
 
 	Formats::SyncQueue readerQueue;
 	std::future<void> readerPromise;
-	readerQueue.setPromiseExitWatcher(&readerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerPromise = runQueueWorker(Formats::Tar::importArchive, path, readerQueue);
 
 		while (readerQueue.await()) {
 			
@@ -209,11 +223,10 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
-	writerQueue.setPromiseExitWatcher(&writerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerPromise = runQueueWorker(Formats::Tar::exportArchive, path, writerQueue);
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..320ea49 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -7,7 +7,7 @@ using namespace Lambda::VFS;
 using namespace Lambda::VFS::Formats;
 
 SyncQueue& SyncQueue::operator=(SyncQueue&& other) noexcept {
-	this->m_done = other.m_done;
+	this->m_done = other.m_done.load();
 	this->m_queue = std::move(other.m_queue);
 	return *this;
 }
@@ -19,12 +19,12 @@ void SyncQueue::push(VirtualFile&& item) {
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
 
@@ -33,34 +33,20 @@ VirtualFile SyncQueue::next() {
 
 bool SyncQueue::await() {
 
-	std::shared_lock lock(this->m_future_mtx);
-
-	while (!this->m_done && !this->m_queue.size()) {
-
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	while (!this->m_done && this->empty()) {
+		std::this_thread::sleep_for(std::chrono::milliseconds(1));
 	}
 
-	return this->m_queue.size();
+	return !this->empty();
 }
 
 bool SyncQueue::awaitEmpty() {
 
-	std::shared_lock lock(this->m_future_mtx);
-
-	while (!this->m_done && this->m_queue.size()) {
-
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	while (!this->m_done && !this->empty()) {
+		std::this_thread::sleep_for(std::chrono::milliseconds(1));
 	}
 
-	return !this->m_queue.size();
+	return this->empty();
 }
 
 void SyncQueue::close() noexcept {
@@ -72,10 +58,6 @@ bool SyncQueue::done() const noexcept {
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
-
-void SyncQueue::setPromiseExitWatcher(std::future<void>* watch) noexcept {
-	std::unique_lock lock(this->m_future_mtx);
-	this->m_watch_future = watch;
-}
-- 
2.43.0


From d99644d940469821ee8b54c92b40172f6938dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 12/76] fix: don't pad tar entries that already end on a block
 boundary

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..4fa98c9 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,7 +41,7 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
+	if (contentSize % tarBlockSize == 0) return 0;
 	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
 }
 
-- 
2.43.0


From 03de2d2dce4bed7fe24dc801a3772c602838125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 13/76] fix: sum tar header bytes as unsigned values

---
 extra/vfs/format_tar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 4fa98c9..8019871 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -351,19 +351,19 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	encodeTarInt(posixHeader.mtime, sizeof(posixHeader.mtime), header.modified);
 
 	//	calculate header checksum
-	int64_t checksumSigned = 0;
+	int64_t checksum = 0;
 
 	for (size_t i = 0; i < tarBlockSize; i++) {
 
 		if (i >= 148 && i < 156) {
-			checksumSigned += 32;
+			checksum += 32;
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksum += *((uint8_t*)(&posixHeader) + i);
 	}
 
-	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
+	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksum);
 
 	const auto headerDataPtr = reinterpret_cast<uint8_t*>(&posixHeader);
 	return std::vector<uint8_t>(headerDataPtr, headerDataPtr + sizeof(posixHeader));
-- 
2.43.0


From 36fda8581aa31864156bc94cff53f88beb5e82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 14/76] fix: don't fail gzip streams whose output exactly fills
 a chunk

Z_BUF_ERROR only tells that there is nothing more to do. Also release the compressor with the function that belongs to it.
---
 core/compression/zlib_stream_compress.cpp   | 4 +---
 core/compression/zlib_stream_decompress.cpp | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..e532627 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -37,7 +37,7 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
@@ -70,7 +70,6 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
@@ -120,7 +119,6 @@ std::vector<uint8_t> GzipStreamCompressor::end() {
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 			default: break;
 		}
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..7a9eb1b 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -68,7 +68,6 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From 4832b92f1134d4e71ca70a4f0da7eedc660580a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 15/76] fix: read as much of a compressed snapshot as an entry
 needs

One read of compressed data does not always decompress to the expected size, so such snapshots failed to load; padding past the end of the data was erased out of bounds.
---
 extra/vfs/format_tar.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 8019871..bf7a508 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -72,7 +72,7 @@ class InflatableReader {
 
 		Compress::GzipStreamDecompressor* m_gz_strm = nullptr;
 
-		static const size_t bufferSize = 2 * 1024 * 1024;
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
 
 		/**
 		 * Read end decompress enough data to contain expectedSize
@@ -83,16 +83,15 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			while (this->m_buff.size() < expectedSize && !this->m_readstream.eof() && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				std::vector<uint8_t> tempBuff(std::min(expectedSize, this->bufferSize));
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+				tempBuff.resize(this->m_readstream.gcount());
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -129,11 +128,18 @@ class InflatableReader {
 						return {};
 					}
 
-					std::vector<uint8_t> tempBuff(expectedSize);
-					this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+					std::vector<uint8_t> result;
+
+					while (result.size() < expectedSize && this->m_readstream.good()) {
 
-					const auto bytesRead = this->m_readstream.gcount();
-					return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+						std::vector<uint8_t> tempBuff(std::min(expectedSize - result.size(), this->bufferSize));
+						this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+
+						const auto bytesRead = this->m_readstream.gcount();
+						result.insert(result.end(), tempBuff.begin(), tempBuff.begin() + bytesRead);
+					}
+
+					return result;
 				};
 			}
 		}
@@ -150,7 +156,7 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + std::min(skipSize, this->m_buff.size()));
 
 				} break;
 				
@@ -164,9 +170,9 @@ class InflatableReader {
 		}
 
 		bool isEof() const noexcept {
-			const auto isCompressed = this->m_compression == TarCompression::None;
+			const auto isPlain = this->m_compression == TarCompression::None;
 			const auto isFsEof = this->m_readstream.eof();
-			return isCompressed ? isFsEof : isFsEof && !this->m_buff.size();
+			return isPlain ? isFsEof : isFsEof && !this->m_buff.size();
 		}
 };
 
-- 
2.43.0


From c21bb054bdcda3f26f367e36cfd9cbb1fc5b3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 16/76] fix: report snapshots that are cut short or damaged

A truncated archive loaded without an error as far as it went, and the checksum of compressed ones was not always verified.
---
 extra/vfs/format_tar.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index bf7a508..07226ab 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -169,6 +169,23 @@ class InflatableReader {
 			}
 		}
 
+		/**
+		 * Verify that the underlying data is complete and not damaged
+		*/
+		void finish() {
+
+			if (this->m_compression != TarCompression::Gzip) return;
+
+			while (!this->m_gz_strm->isDone() && !this->m_readstream.eof()) {
+				this->m_buff.clear();
+				this->m_decompressToContain(this->bufferSize);
+			}
+
+			if (!this->m_gz_strm->isDone()) {
+				throw std::runtime_error("Unexpected end of compressed data");
+			}
+		}
+
 		bool isEof() const noexcept {
 			const auto isPlain = this->m_compression == TarCompression::None;
 			const auto isFsEof = this->m_readstream.eof();
@@ -287,6 +304,8 @@ class PlainFSReader {
 			this->m_readstream.seekg(skipSize, std::ios::cur);
 		}
 
+		void finish() {}
+
 		bool isEof() const noexcept {
 			return this->m_readstream.eof();
 		}
@@ -491,11 +510,17 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 	#endif
 
 	std::optional<std::string> nextLongLink;
+	bool endFound = false;
 
 	while (!reader.isEof()) {
 
 		const auto rawHeader = reader.readChunk(sizeof(TarPosixHeader));
-		if (rawHeader.size() < sizeof(TarPosixHeader) || !rawHeader[0]) break;
+		if (rawHeader.size() < sizeof(TarPosixHeader)) break;
+
+		if (!rawHeader[0]) {
+			endFound = true;
+			break;
+		}
 
 		const auto nextHeader = parseHeader(rawHeader);
 
@@ -550,5 +575,11 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 		}
 	}
 
+	if (!endFound) {
+		throw std::runtime_error("Unexpected end of tar archive");
+	}
+
+	reader.finish();
+
 	queue.close();
 }
-- 
2.43.0


From 28bbff5866e23b6aabd01278affd5383c49eb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 17/76] fix: refuse to save virtual files whose names tar
 cannot hold

A file with an empty name ended the archive early, so that the files after it were lost on load.
---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 07226ab..0ce199c 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -467,6 +467,11 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 		auto nextFile = queue.next();
 
+		//	an empty name would read as the end of the archive, and a zero byte as the end of the name
+		if (nextFile.name.empty() || nextFile.name.find('\0') != std::string::npos) {
+			throw std::runtime_error("File name cannot be stored in a tar archive");
+		}
+
 		if (nextFile.name.size() >= sizeof(TarPosixHeader::name)) {
 
 			TarBasicHeader longlinkHeader {
-- 
2.43.0


From a40ef062b0845116a7b00c3f59e29ba68eb77db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 18/76] fix: report failed writes of vfs snapshots

---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 0ce199c..992023a 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -497,6 +497,11 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 	}
 
 	writer.endStream();
+
+	outfile.close();
+	if (outfile.fail()) {
+		throw std::filesystem::filesystem_error("Could not write file", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From 9f301e9b9180d00861c8beb751f4d3ab24945e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 19/76] fix: store and load tar long names with their
 terminating zero

That's how other tools write them, their names were loaded with a zero byte at the end.
---
 extra/vfs/format_tar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 992023a..e8af195 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -477,12 +477,16 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 			TarBasicHeader longlinkHeader {
 				"././@LongLink",
 				EntryType::LongLink,
-				nextFile.name.size(),
+				nextFile.name.size() + 1,
 				nextFile.modified,
 			};
 
+			//	the long name is stored with it's terminating zero
+			std::vector<uint8_t> longName(nextFile.name.begin(), nextFile.name.end());
+			longName.push_back(0);
+
 			writer.writeChunk(serializeHeader(longlinkHeader));
-			writer.writeChunk(std::vector<uint8_t>(nextFile.name.begin(), nextFile.name.end()));
+			writer.writeChunk(longName);
 		}
 
 		TarBasicHeader tarEntry {
@@ -552,7 +556,7 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 					reader.skipNext(paddingSize);
 				}
 
-				nextLongLink = linkName;
+				nextLongLink = linkName.substr(0, linkName.find('\0'));
 
 			} break;
 
-- 
2.43.0


From f5bea1e3dab4cc8eeb1fe38794dccdb746dcc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 20/76] fix: load the name prefix of ustar entries

---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index e8af195..3578ecf 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -437,6 +437,11 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
+
+	//	long names can be split into a prefix and a name
+	if (posixHeader->prefix[0]) {
+		header.name = std::string(posixHeader->prefix, strnlen(posixHeader->prefix, sizeof(posixHeader->prefix))) + '/' + header.name;
+	}
 	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
 
 	//	decode file size
-- 
2.43.0


From b2cea4abb6a18410668c60eefb0bb1ea72ed95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 21/76] fix: end loading a snapshot when its file cannot be
 read

A directory opens like a file but never reads to its end.
---
 extra/vfs/format_tar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 3578ecf..1f9d342 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -83,7 +83,7 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			while (this->m_buff.size() < expectedSize && !this->m_readstream.eof() && !this->m_gz_strm->isDone()) {
+			while (this->m_buff.size() < expectedSize && this->m_readstream.good() && !this->m_gz_strm->isDone()) {
 
 				std::vector<uint8_t> tempBuff(std::min(expectedSize, this->bufferSize));
 				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
@@ -176,7 +176,7 @@ class InflatableReader {
 
 			if (this->m_compression != TarCompression::Gzip) return;
 
-			while (!this->m_gz_strm->isDone() && !this->m_readstream.eof()) {
+			while (!this->m_gz_strm->isDone() && this->m_readstream.good()) {
 				this->m_buff.clear();
 				this->m_decompressToContain(this->bufferSize);
 			}
-- 
2.43.0


From f576d2a12af5949bfac4aa0b988bd705a6cc8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 22/76] fix: don't write past the version field of a tar header

With fortified string functions the process was ended by saving any snapshot.
---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 1f9d342..ec4c0c1 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -363,7 +363,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
-- 
2.43.0


From 81f032f79c4a97caeac73b4379a345293338db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 23/76] fix: don't die of SIGPIPE and finish partial socket
 writes

---
 core/network/sysnetw.hpp        | 11 +++++++++++
 core/network/tcp/connection.cpp | 21 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/core/network/sysnetw.hpp b/core/network/sysnetw.hpp
index 00e1a83..9e96cf3 100644
--- a/core/network/sysnetw.hpp
+++ b/core/network/sysnetw.hpp
@@ -18,6 +18,13 @@
 
 		#define GetOSErrorCode() (static_cast<int32_t>(GetLastError()))
 
+		//	there is no SIGPIPE and no signal interruptions on windows
+		#define MSG_NOSIGNAL	(0)
+
+		inline bool sockCallInterrupted() {
+			return false;
+		}
+
 		inline bool wsaWakeUp() {
 
 			static bool wsaInitCalled = false;
@@ -46,6 +53,10 @@
 		#define SD_BOTH (SHUT_RDWR)
 		#define GetOSErrorCode() (static_cast<int32_t>(errno))
 
+		inline bool sockCallInterrupted() {
+			return errno == EINTR;
+		}
+
 	#endif
 
 #endif
diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..fafba47 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -74,10 +74,25 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+	//	a blocking send may still take only a part of the data
+	//	(when it gets interrupted or reaches the timeout after some progress)
+	size_t bytesSentTotal = 0;
+	while (bytesSentTotal < data.size()) {
+
+		const auto bytesSent = send(
+			this->hSocket,
+			reinterpret_cast<const char*>(data.data() + bytesSentTotal),
+			data.size() - bytesSentTotal,
+			MSG_NOSIGNAL
+		);
+
+		if (bytesSent <= 0) {
+			if (bytesSent < 0 && sockCallInterrupted()) continue;
+			throw NetworkError("Network error while writing data");
+		}
 
-	if (static_cast<size_t>(bytesSent) != data.size())
-		throw NetworkError("Network error while writing data");
+		bytesSentTotal += static_cast<size_t>(bytesSent);
+	}
 }
 
 std::vector<uint8_t> Connection::read() {
-- 
2.43.0


From 6febbe350d11d940d25c86e8a1a0f1e5f03ea325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 24/76] fix: apply the sub-second part of socket timeouts

---
 core/network/tcp/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index fafba47..fdbb432 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -155,7 +155,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
-- 
2.43.0


From 7a3cc072b39a4d0ac8fa30e7885d749b1cfe7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 25/76] fix: retry interrupted socket reads

---
 core/network/tcp/connection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index fdbb432..5a407ea 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -108,7 +108,11 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	const auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+
+	while (bytesReceived < 0 && sockCallInterrupted()) {
+		bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	}
 
 	if (bytesReceived == 0) {
 
-- 
2.43.0


From 844631d5f1f3bda3145fc547732f9c9a9c488a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 26/76] fix: don't close a socket handle while another thread
 is using it

---
 core/network/tcp/connection.cpp | 44 +++++++++++++++++++--------------
 core/network/tcp/connection.hpp |  3 ++-
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 5a407ea..22f08d5 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,16 +28,14 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
 Connection::Connection(Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
 }
 
 Connection::~Connection() {
@@ -48,14 +46,17 @@ Connection::~Connection() {
 
 void Connection::end() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
 	//	swapping handle to a temp variable so that
 	//	no race condition can occur further down the chain
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
+	//	this makes any pending reads and writes return
 	shutdown(tempHandle, SD_BOTH);
+
+	//	only close it when no other thread is using it,
+	//	otherwise the handle could get reused by a different connection
+	std::scoped_lock lock(this->m_read_mtx, this->m_write_mtx);
 	closesocket(tempHandle);
 }
 
@@ -69,18 +70,19 @@ bool Connection::isOpen() const noexcept {
 
 void Connection::write(const std::vector<uint8_t>& data) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Cann't write to a closed connection");
-
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Cann't write to a closed connection");
+
 	//	a blocking send may still take only a part of the data
 	//	(when it gets interrupted or reaches the timeout after some progress)
 	size_t bytesSentTotal = 0;
 	while (bytesSentTotal < data.size()) {
 
 		const auto bytesSent = send(
-			this->hSocket,
+			handle,
 			reinterpret_cast<const char*>(data.data() + bytesSentTotal),
 			data.size() - bytesSentTotal,
 			MSG_NOSIGNAL
@@ -101,19 +103,25 @@ std::vector<uint8_t> Connection::read() {
 
 std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Can't read from a closed connection");
+	std::unique_lock<std::mutex> lock(this->m_read_mtx);
 
-	std::lock_guard<std::mutex> lock(this->m_read_mtx);
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Can't read from a closed connection");
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
 
 	while (bytesReceived < 0 && sockCallInterrupted()) {
-		bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+		bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
 	}
 
+	const auto osError = bytesReceived < 0 ? GetOSErrorCode() : 0;
+
+	//	the handle is not going to be used past this point
+	lock.unlock();
+
 	if (bytesReceived == 0) {
 
 		this->end();
@@ -121,8 +129,6 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	} else if (bytesReceived < 0) {
 
-		const auto osError = GetOSErrorCode();
-
 		if (blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
diff --git a/core/network/tcp/connection.hpp b/core/network/tcp/connection.hpp
index 5abac63..6029d4e 100644
--- a/core/network/tcp/connection.hpp
+++ b/core/network/tcp/connection.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <string>
 #include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -24,7 +25,7 @@ namespace Lambda::Network::TCP {
 
 	class Connection {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ConnectionInfo m_info;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
-- 
2.43.0


From e99ba6263f9084148c3b73ff8214541a401eb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 27/76] fix: frame requests by their own size, whatever way
 they arrive

---
 core/http/transport_v1.cpp | 47 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..4ae4d7a 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -26,6 +26,9 @@ static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+//	limits how much memory is allocated for a single read of a request body
+static const size_t maxBodyReadSize = 64 * 1024;
+
 TransportContextV1::TransportContextV1(
 	Network::TCP::Connection& connInit,
 	const TransportOptions& optsInit
@@ -42,23 +45,36 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
-
-	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
 
-		auto newBytes = this->m_conn.read();
-		if (!newBytes.size()) break;
+	//	a complete header may already be there, as more than one request can arrive at once
+	auto headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
-		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
-		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
+	while (headerEnded == this->m_readbuff.end()) {
 
 		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
 			throw ProtocolError("Request header too large", 413);
 		}
+
+		if (!this->m_conn.isOpen()) {
+			return false;
+		}
+
+		auto newBytes = this->m_conn.read();
+		if (!newBytes.size()) {
+			return false;
+		}
+
+		//	the end sequence can start in the previous chunk
+		const auto searchFrom = this->m_readbuff.size() - std::min(this->m_readbuff.size(), patternEndHeader.size() - 1);
+
+		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
+		headerEnded = std::search(this->m_readbuff.begin() + searchFrom, this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 	}
 
-	if (!this->m_readbuff.size() || headerEnded == this->m_readbuff.end()) {
-		return false;
+	//	only count what belongs to this request
+	const size_t headerSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+	if (headerSize > this->m_topts.maxRequestSize) {
+		throw ProtocolError("Request header too large", 413);
 	}
 
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
@@ -180,17 +196,14 @@ bool TransportContextV1::awaitNext() {
 
 	if (bodySize) {
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
-
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - headerSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
-	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+		while (this->m_readbuff.size() < bodySize) {
+
+			auto temp = this->m_conn.read(std::min(bodySize - this->m_readbuff.size(), maxBodyReadSize));
+			if (!temp.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
-- 
2.43.0


From 969ce2f50a1489f379afd3be2da1ac936f7c053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 28/76] fix: answer malformed requests with an error instead of
 dropping them

---
 core/http/transport_v1.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 4ae4d7a..2bd8924 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -10,6 +10,7 @@
 
 #include <set>
 #include <algorithm>
+#include <charconv>
 
 using namespace Lambda;
 using namespace Lambda::HTTP;
@@ -80,16 +81,23 @@ bool TransportContextV1::awaitNext() {
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
-	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
-	if (headerStartLine.size() < 2) {
-		throw ProtocolError("Invalid HTTP request");
+	const auto headerStartLine = headerFields.size() ?
+		Strings::split(headerFields.front(), ' ') : std::vector<std::string>();
+
+	if (headerStartLine.size() != 3 || !headerStartLine[0].size() || !headerStartLine[1].size() || !headerStartLine[2].starts_with("HTTP/")) {
+		throw ProtocolError("Invalid HTTP request", 400);
 	}
 
 	auto& requestMethodString = headerStartLine.at(0);
 	auto& requestUrlString = headerStartLine.at(1);
 
 	HTTP::Request next;
-	next.method = HTTP::Method(requestMethodString);
+
+	try {
+		next.method = HTTP::Method(requestMethodString);
+	} catch (const std::invalid_argument& error) {
+		throw ProtocolError(error.what(), 400);
+	}
 
 	for (size_t i = 1; i < headerFields.size(); i++) {
 
@@ -191,8 +199,25 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	//	the end of such a body is unknown, so nothing past the header can be trusted
+	if (next.headers.has("transfer-encoding")) {
+		throw ProtocolError("Transfer encodings are not supported", 501);
+	}
+
+	size_t bodySize = 0;
+	const auto bodySizeHeaders = next.headers.getAll("content-length");
+
+	for (const auto& header : bodySizeHeaders) {
+
+		if (header != bodySizeHeaders.front() || header.find_first_not_of("0123456789") != std::string::npos) {
+			throw ProtocolError("Invalid content length", 400);
+		}
+
+		const auto parsed = std::from_chars(header.data(), header.data() + header.size(), bodySize);
+		if (parsed.ec == std::errc::result_out_of_range) {
+			throw ProtocolError("Total request size is too large", 413);
+		}
+	}
 
 	if (bodySize) {
 
-- 
2.43.0


From 58f07e4c8246de446d18d261dc8b6d7d87f31811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 29/76] fix: split request targets and query strings at the
 right characters

---
 core/http/transport_v1.cpp    | 19 ++++++++-----------
 core/http/urlsearchparams.cpp |  8 +++++---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 2bd8924..5752f81 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -122,20 +122,17 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	//	parse request url
-	const auto urlSearchPos = requestUrlString.find('?');
-	//	I'll leave it here for redundancy
-	const auto urlHashPos = requestUrlString.find('#', urlSearchPos != std::string::npos ? urlSearchPos : 0);
-	const auto pathnameEndPos = std::min({ urlSearchPos, urlHashPos });
+	//	normally there should be no hash, but I'll leave it here for redundancy
+	const auto requestTarget = requestUrlString.substr(0, requestUrlString.find('#'));
+	const auto urlSearchPos = requestTarget.find('?');
 
-	next.url.pathname = pathnameEndPos == std::string::npos ?
-		requestUrlString :
-		(pathnameEndPos ? requestUrlString.substr(0, pathnameEndPos) : "/");
+	next.url.pathname = requestTarget.substr(0, urlSearchPos);
+	if (!next.url.pathname.size()) {
+		next.url.pathname = "/";
+	}
 
 	if (urlSearchPos != std::string::npos) {
-		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
-		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos + 1, trimSize) :
-			requestUrlString.substr(urlSearchPos + 1);
+		next.url.searchParams = requestTarget.substr(urlSearchPos);
 	}
 
 	const auto hostHeader = next.headers.get("host");
diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..608dd3d 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,15 +5,17 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
-	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
+	//	only the first question mark starts the query, any others are a part of it
+	auto qmark = queries.find_first_of("?=&");
+	auto hasPrefix = qmark != std::string::npos && queries[qmark] == '?';
+	auto entries = Strings::split(hasPrefix ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
 
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From f6e4abc1a6fe83a504e8eae88838a395f92c529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 30/76] fix: read any basic auth credentials, ignore unusable
 ones

---
 core/http/auth.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..1dd3d09 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -8,28 +8,33 @@ using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
+	const auto schemeEnds = header.find(' ');
+	if (schemeEnds == std::string::npos || Strings::toLowerCase(header.substr(0, schemeEnds)) != "basic") {
 		return std::nullopt;
 	}
 
-	const auto authStringStart = header.find_last_of(' ');
-	if (authStringStart == std::string::npos) {
+	const auto authString = Strings::trim(header.substr(schemeEnds + 1));
+	if (!authString.size()) {
 		return std::nullopt;
 	}
 
-	const auto authString = header.substr(authStringStart + 1);
-	if (!authString.size()) {
+	std::string credentials;
+
+	try {
+		const auto authStringDecoded = Encoding::fromBase64(authString);
+		credentials = std::string(authStringDecoded.begin(), authStringDecoded.end());
+	} catch (...) {
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	//	a password, unlike a user name, may have any number of colons
+	const auto passwordStarts = credentials.find(':');
+	if (passwordStarts == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		credentials.substr(0, passwordStarts),
+		credentials.substr(passwordStarts + 1)
 	};
 }
-- 
2.43.0


From b03c1034b817777272eb6fb59f993569e2be6c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 31/76] fix: negotiate connection reuse for each request and
 act on it

---
 core/http/transport_v1.cpp | 25 ++++++-------------------
 core/server/worker.cpp     |  4 +++-
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 5752f81..b072d97 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -162,25 +162,12 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	if (this->m_topts.reuseConnections) {
+	const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
+	const auto reuseRequested = (!connectionHeader.size() || Strings::includes(connectionHeader, "keep-alive")) &&
+		!Strings::includes(connectionHeader, "close");
 
-		const auto connectionHeader = next.headers.get("connection");
-
-		switch (this->m_keepalive) {
-
-			case KeepAliveStatus::Unknown: {
-				this->m_keepalive = (!connectionHeader.size() || Strings::includes(connectionHeader, "keep-alive")) ?
-					KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
-			} break;
-
-			case KeepAliveStatus::KeepAlive: {
-				if (Strings::includes(connectionHeader, "close"))
-					this->m_keepalive = KeepAliveStatus::Close;
-			} break;
-			
-			default: break;
-		}
-	}
+	this->m_keepalive = (this->m_topts.reuseConnections && reuseRequested) ?
+		KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
 
 	auto acceptEncodingHeader = next.headers.get("accept-encoding");
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
@@ -335,7 +322,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
 	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = responseHeaders.get("connection");
+	const auto responseConnectionHeader = Strings::toLowerCase(responseHeaders.get("connection"));
 	if (responseConnectionHeader.size()) {
 		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..9c9d8e3 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -43,12 +43,14 @@ void Server::connectionWorker(
 			return;
 		}
 
-		const auto errorResponse = Pages::renderErrorPage(
+		auto errorResponse = Pages::renderErrorPage(
 			error.respondStatus.value(),
 			error.message(),
 			config.errorResponseType
 		);
 
+		errorResponse.headers.set("connection", "close");
+
 		try {
 
 			//	Request ID is generated here.
-- 
2.43.0


From 227c710a855a6c7102d934db4e3d784089f10f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 32/76] fix: negotiate content encoding for each request

---
 core/http/transport_v1.cpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index b072d97..f0c8fda 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -27,6 +27,20 @@ static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+/**
+ * Checks for a zero quality value, which is how clients tell that something is not acceptable
+*/
+static bool isZeroWeight(const std::string& param) {
+
+	const auto separator = param.find('=');
+	if (separator == std::string::npos || Strings::trim(param.substr(0, separator)) != "q") {
+		return false;
+	}
+
+	const auto weight = Strings::trim(param.substr(separator + 1));
+	return weight.starts_with('0') && weight.find_first_not_of("0.") == std::string::npos;
+}
+
 //	limits how much memory is allocated for a single read of a request body
 static const size_t maxBodyReadSize = 64 * 1024;
 
@@ -169,11 +183,22 @@ bool TransportContextV1::awaitNext() {
 	this->m_keepalive = (this->m_topts.reuseConnections && reuseRequested) ?
 		KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
 
-	auto acceptEncodingHeader = next.headers.get("accept-encoding");
+	this->m_compress = ContentEncodings::None;
+
+	const auto acceptEncodingHeader = next.headers.get("accept-encoding");
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
 
-		auto encodingNames = Strings::split(acceptEncodingHeader, ", ");
-		auto acceptEncodingsSet = std::set<std::string>(encodingNames.begin(), encodingNames.end());
+		std::set<std::string> acceptEncodingsSet;
+
+		for (const auto& item : Strings::split(Strings::toLowerCase(acceptEncodingHeader), ',')) {
+
+			const auto weightPos = item.find(';');
+			if (weightPos != std::string::npos && isZeroWeight(item.substr(weightPos + 1))) {
+				continue;
+			}
+
+			acceptEncodingsSet.insert(Strings::trim(item.substr(0, weightPos)));
+		}
 
 		for (const auto& encoding : contentEncodingMap) {
 			if (acceptEncodingsSet.contains(encoding.second)) {
@@ -284,6 +309,12 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		std::vector<uint8_t> responseBodyBuffer;
 		const auto& responseBody = responsectx.response.body.buffer();
 
+		//	there's nothing to compress in an empty body,
+		//	and if a handler has already encoded the body it must be left as is
+		if (!responseBody.size() || responseHeaders.has("content-encoding")) {
+			applyEncoding = ContentEncodings::None;
+		}
+
 		switch (applyEncoding) {
 
 			case ContentEncodings::Brotli: {
-- 
2.43.0


From e4f9da1196a5ba25ad7ecec2d1a338ed74ad1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 33/76] fix: don't send body bytes where a response cannot have
 them

---
 core/http/transport_impl.hpp |  1 +
 core/http/transport_v1.cpp   | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index 756c7a0..d98ab68 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -27,6 +27,7 @@ namespace Lambda::HTTP::Transport {
 			std::vector<uint8_t> m_readbuff;
 			KeepAliveStatus m_keepalive = KeepAliveStatus::Unknown;
 			ContentEncodings m_compress = ContentEncodings::None;
+			bool m_headersOnly = false;
 			IncomingRequest* m_next = nullptr;
 
 		public:
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index f0c8fda..bf54a50 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -59,6 +59,8 @@ bool TransportContextV1::awaitNext() {
 		return true;
 	}
 
+	this->m_headersOnly = false;
+
 	static const std::string patternEndHeader = "\r\n\r\n";
 
 	//	a complete header may already be there, as more than one request can arrive at once
@@ -113,6 +115,8 @@ bool TransportContextV1::awaitNext() {
 		throw ProtocolError(error.what(), 400);
 	}
 
+	this->m_headersOnly = next.method == HTTP::Methods::HEAD;
+
 	for (size_t i = 1; i < headerFields.size(); i++) {
 
 		const auto& headerline = headerFields[i];
@@ -344,7 +348,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		responseHeaders.set("content-encoding", contentEncodingMap.at(applyEncoding));
 	}
 
-	if (this->flags.forceContentLength) {
+	//	these never have a body
+	const auto& responseStatus = responsectx.response.status;
+	const auto bodylessStatus = responseStatus.type() == Status::Type::Info || responseStatus.code() == 204;
+
+	if (this->flags.forceContentLength && !bodylessStatus) {
 		responseHeaders.set("content-length", std::to_string(bodyBufferSize));
 	}
 
@@ -371,7 +379,6 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.push_back(0x20);
 
 	//	push response status code
-	const auto& responseStatus = responsectx.response.status;
 	const auto statusCode = std::to_string(responseStatus.code());
 	headerBuff.insert(headerBuff.end(), statusCode.begin(), statusCode.end());
 	headerBuff.push_back(0x20);
@@ -395,8 +402,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	//	add that empty line to indicate header end
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
+	//	some responses end right after the headers, no matter what these say about the body
+	const auto noBody = this->m_headersOnly || bodylessStatus || responseStatus.code() == 304;
+
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize) this->m_conn.write(responseBodyBuffer);
+	if (bodyBufferSize && !noBody) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From 1738e930f5d35b92603e20c9bca0fd41b0d6cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 34/76] fix: trim empty strings and match string ends correctly

---
 core/polyfill/strings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..8220af9 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,7 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	return str.ends_with(substr);
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
@@ -66,6 +66,8 @@ bool Strings::startsWith(const std::string& str, const std::string& substr) {
 
 void Strings::trim(std::string& str) {
 
+	if (!str.size()) return;
+
 	//	list of characters to remove
 	static const std::set<char> whitespaceChars = { '\r', '\n', '\t', ' ' };
 
-- 
2.43.0


From ca39a3a744bcf859fd477b6cfca577050455bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 35/76] fix: free a pending request with its transport

---
 core/http/transport_impl.hpp | 1 +
 core/http/transport_v1.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index d98ab68..d86abae 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -32,6 +32,7 @@ namespace Lambda::HTTP::Transport {
 
 		public:
 			TransportContextV1(Network::TCP::Connection& connInit, const TransportOptions& optsInit);
+			~TransportContextV1();
 
 			const std::string& contextID() const noexcept;
 
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index bf54a50..20afa79 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -49,6 +49,10 @@ TransportContextV1::TransportContextV1(
 	const TransportOptions& optsInit
 ) : m_conn(connInit), m_topts(optsInit) {}
 
+TransportContextV1::~TransportContextV1() {
+	delete this->m_next;
+}
+
 bool TransportContextV1::awaitNext() {
 
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From bcead2d8f4c2db30907a0360856ae62267d4b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 36/76] fix: let handlers respond after a refused websocket
 upgrade

---
 core/server/worker.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 9c9d8e3..4f76e4a 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -110,7 +110,13 @@ void Server::connectionWorker(
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					//	the handler is still able to respond if it wants to
+					handlerMode = HandlerMode::HTTP;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
-- 
2.43.0


From cccc10bf2e7504f5d23d816a43f658e7ee02b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 37/76] fix: don't miss connections accepted while an instance
 is terminated

---
 core/server/instance.cpp | 15 ++++++++++++---
 core/server/server.hpp   |  6 +++++-
 core/server/worker.hpp   | 13 +++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8f65942..ae0f552 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -56,6 +56,12 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = this->listener.acceptConnection();
 				if (!nextConn.has_value()) break;
 
+				//	the list is also accessed when an instance gets terminated
+				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+
+				//	don't start anything that won't be told to stop
+				if (this->m_terminated) break;
+
 				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
 					nextConn.value().end();
 					this->m_connections.remove_if(workerJoinFilter);
@@ -108,16 +114,19 @@ void LambdaInstance::terminate() {
 
 	//	reqeust service worker to exit
 	this->m_terminated = true;
-	
-	//	close listen socket
-	this->listener.stop();
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
+		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
 	}
+
+	//	close listen socket
+	//	this must be the last step as the service worker (and whoever waits for it)
+	//	is free to go as soon as it's done
+	this->listener.stop();
 }
 
 void LambdaInstance::awaitFinished() {
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 4bd0509..93fb861 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -7,7 +7,10 @@
 
 #include "../network/tcp/listener.hpp"
 
+#include <atomic>
 #include <forward_list>
+#include <future>
+#include <mutex>
 
 namespace Lambda {
 
@@ -21,8 +24,9 @@ namespace Lambda {
 			RequestCallback httpHandler;
 
 			std::future<void> serviceWorker;
-			bool m_terminated = false;
+			std::atomic<bool> m_terminated = false;
 
+			std::mutex m_connections_mtx;
 			std::forward_list<WorkerContext> m_connections;
 			size_t m_connections_count = 0;
 
diff --git a/core/server/worker.hpp b/core/server/worker.hpp
index 1c8c86b..070a2de 100644
--- a/core/server/worker.hpp
+++ b/core/server/worker.hpp
@@ -3,6 +3,7 @@
 
 #include "../network/tcp/connection.hpp"
 
+#include <atomic>
 #include <thread>
 
 namespace Lambda {
@@ -10,8 +11,16 @@ namespace Lambda {
 	struct WorkerContext {
 		Network::TCP::Connection conn;
 		std::thread worker;
-		bool shutdownFlag = false;
-		bool finished = false;
+		std::atomic<bool> shutdownFlag = false;
+		std::atomic<bool> finished = false;
+
+		WorkerContext(Network::TCP::Connection&& connInit) : conn(std::move(connInit)) {}
+
+		WorkerContext(WorkerContext&& other) noexcept :
+			conn(std::move(other.conn)),
+			worker(std::move(other.worker)),
+			shutdownFlag(other.shutdownFlag.load()),
+			finished(other.finished.load()) {}
 	};
 };
 
-- 
2.43.0


From a9dd52d5d217c915bd20a5a28b65511d479f46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 38/76] fix: keep accepting after transient accept errors, end
 quietly when stopped

---
 core/network/tcp/listener.cpp | 72 +++++++++++++++++++++++++----------
 core/network/tcp/listener.hpp |  3 +-
 2 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 03cd221..d4963e3 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -2,9 +2,30 @@
 #include "./connection.hpp"
 #include "../sysnetw.hpp"
 
+#include <chrono>
+#include <set>
+#include <thread>
+
 using namespace Lambda::Network;
 using namespace Lambda::Network::TCP;
 
+//	these only affect a single incoming connection, not the listen socket
+static const std::set<int> acceptRetryCodes = {
+	#ifdef _WIN32
+		WSAEINTR, WSAECONNRESET
+	#else
+		EINTR, ECONNABORTED, EPROTO, EAGAIN, ENETDOWN, EHOSTDOWN, EHOSTUNREACH, ENETUNREACH, EPERM
+	#endif
+};
+
+static const std::set<int> resourcesExhaustedCodes = {
+	#ifdef _WIN32
+		WSAEMFILE, WSAENOBUFS
+	#else
+		EMFILE, ENFILE, ENOBUFS, ENOMEM
+	#endif
+};
+
 ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 
 	//	special threatment for windows and it's fucking WSA
@@ -54,34 +75,47 @@ ListenSocket::~ListenSocket() {
 }
 
 ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
 std::optional<Connection> ListenSocket::acceptConnection() {
 
-	//	check that we have a valid socket
-	if (this->hSocket == INVALID_SOCKET) {
-		throw NetworkError("Cannot accept anything from a closed socket");
-	}
-
-	//	accept network connection
 	sockaddr_in peerAddr;
-	socklen_t clientAddrLen = sizeof(peerAddr);
-	auto nextSocket = accept(this->hSocket, (sockaddr*)&peerAddr, &clientAddrLen);
+	SockHandle nextSocket = INVALID_SOCKET;
 
-	//	verify that we have a valid socket
-	if (nextSocket == INVALID_SOCKET) {
-		if (this->hSocket == INVALID_SOCKET) return std::nullopt;
-		throw NetworkError("Socket accept() failed");
+	while (nextSocket == INVALID_SOCKET) {
+
+		//	check that we have a valid socket; it can be closed by a different thread at any moment
+		const SockHandle listenHandle = this->hSocket;
+		if (listenHandle == INVALID_SOCKET) return std::nullopt;
+
+		//	accept network connection
+		socklen_t clientAddrLen = sizeof(peerAddr);
+		nextSocket = accept(listenHandle, (sockaddr*)&peerAddr, &clientAddrLen);
+
+		//	verify that we have a valid socket
+		if (nextSocket == INVALID_SOCKET) {
+
+			const auto osError = GetOSErrorCode();
+			if (this->hSocket == INVALID_SOCKET) return std::nullopt;
+
+			if (acceptRetryCodes.contains(osError)) continue;
+
+			//	wait a bit for some resources to be freed
+			if (resourcesExhaustedCodes.contains(osError)) {
+				std::this_thread::sleep_for(std::chrono::milliseconds(10));
+				continue;
+			}
+
+			throw NetworkError("Socket accept() failed", osError);
+		}
 	}
 
 	//	try getting peer host name
@@ -121,10 +155,8 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
 	closesocket(tempHandle);
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index 361881a..a08c463 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -4,6 +4,7 @@
 #include "../network.hpp"
 #include "./connection.hpp"
 
+#include <atomic>
 #include <optional>
 
 namespace Lambda::Network::TCP {
@@ -16,7 +17,7 @@ namespace Lambda::Network::TCP {
 
 	class ListenSocket {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ListenConfig config;
 
 		public:
-- 
2.43.0


From e1cd28f9cd1302e0a5e815d9adca2a28000f9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 39/76] fix: enforce the connection limit exactly, allow no
 limit

---
 core/server/instance.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index ae0f552..5fd79a9 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -27,7 +27,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		syncout.log("[Service] Warning: fast port reuse enabled");
 	}
 
-	if (init.service.maxConnections < ServiceOptions::minConnections) {
+	//	zero means no limit
+	if (init.service.maxConnections && init.service.maxConnections < ServiceOptions::minConnections) {
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
@@ -62,9 +63,13 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				//	don't start anything that won't be told to stop
 				if (this->m_terminated) break;
 
-				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
-					nextConn.value().end();
+				//	release everything that's done before turning anyone away
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
 					this->m_connections.remove_if(workerJoinFilter);
+				}
+
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+					nextConn.value().end();
 					continue;
 				}
 
-- 
2.43.0


From e457e5d5b9d735af06e66d68eda0ca00fbe12eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 40/76] fix: close connections as soon as these are done

---
 core/server/instance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 5fd79a9..d5c0b5f 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -81,6 +81,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto& nextWorker = this->m_connections.front();
 				nextWorker.worker = std::thread([&](WorkerContext& worker) {
 					connectionWorker(worker, this->config, this->httpHandler);
+					//	the context can stay in the list for a while but the client should not wait for that
+					worker.conn.end();
 					worker.finished = true;
 				}, std::ref(nextWorker));
 
-- 
2.43.0


From da043c8717852f7075810961dcf0e5318c2385b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 41/76] fix: don't share the id generator between threads

---
 core/crypto/uid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/crypto/uid.cpp b/core/crypto/uid.cpp
index 02511de..86fb577 100644
--- a/core/crypto/uid.cpp
+++ b/core/crypto/uid.cpp
@@ -7,8 +7,9 @@
 using namespace Lambda;
 using namespace Lambda::Crypto;
 
-static auto rng_gen = std::mt19937(std::random_device{}());
-static auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
+//	these are not safe to share between threads
+static thread_local auto rng_gen = std::mt19937(std::random_device{}());
+static thread_local auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
 
 ShortID::ShortID() {
 	this->update();
-- 
2.43.0


From 9bd774b5a4f7cbd26e797ce51cf36c0e3529a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 42/76] fix: survive running out of threads

---
 core/server/instance.cpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index d5c0b5f..7039a22 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -4,6 +4,7 @@
 #include "../http/transport.hpp"
 
 #include <cstdio>
+#include <system_error>
 #include <thread>
 
 using namespace Lambda;
@@ -79,12 +80,23 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.worker = std::thread([&](WorkerContext& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-					//	the context can stay in the list for a while but the client should not wait for that
-					worker.conn.end();
-					worker.finished = true;
-				}, std::ref(nextWorker));
+
+				try {
+
+					nextWorker.worker = std::thread([&](WorkerContext& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+						//	the context can stay in the list for a while but the client should not wait for that
+						worker.conn.end();
+						worker.finished = true;
+					}, std::ref(nextWorker));
+
+				} catch (const std::system_error& error) {
+					//	out of threads, this should not affect those that are already running
+					syncout.error({ "[Service] Failed to start a connection worker:", error.what() });
+					this->m_connections.pop_front();
+					this->m_connections_count--;
+					continue;
+				}
 
 				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
 					this->m_connections.remove_if(workerJoinFilter);
@@ -98,11 +110,17 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = this->listener.acceptConnection();
 				if (!nextConn.has_value()) break;
 
-				std::thread([&](WorkerContext&& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-				}, WorkerContext {
-					std::move(nextConn.value())
-				}).detach();
+				try {
+
+					std::thread([&](WorkerContext&& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+					}, WorkerContext {
+						std::move(nextConn.value())
+					}).detach();
+
+				} catch (const std::system_error& error) {
+					syncout.error({ "[Service] Failed to start a connection worker:", error.what() });
+				}
 			}
 		}
 	});
-- 
2.43.0


From 2140297772c1c028ce3939e81d0e30e3cf997b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 43/76] fix: find the port of IPv6 hosts

---
 core/http/transport_v1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 20afa79..5b55215 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -158,7 +158,10 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	const auto hostHeader = next.headers.get("host");
-	const auto hostHeaderSem = hostHeader.size() ? hostHeader.find(':') : std::string::npos;
+
+	//	colons of an ipv6 address don't separate the port
+	const auto hostHeaderBracket = hostHeader.starts_with('[') ? hostHeader.find(']') : std::string::npos;
+	const auto hostHeaderSem = hostHeader.find(':', hostHeaderBracket != std::string::npos ? hostHeaderBracket : 0);
 
 	const auto& conninfo = this->m_conn.info();
 
-- 
2.43.0


From a45c7fc5912248981dbafba20c8f0c67b20f2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 44/76] fix: read websocket frames completely, whatever chunks
 these arrive in

---
 core/websocket/transport.cpp | 75 +++++++++++++++++-------------------
 core/websocket/transport.hpp |  2 +-
 2 files changed, 36 insertions(+), 41 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..de664b7 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -31,33 +31,37 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 	this->m_transport.writeRaw(writeBuff);
 }
 
-FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+
+	if (buffer.size() < FrameHeader::min_size) {
+		return std::nullopt;
+	}
 
 	FrameHeader header {
-		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
+		static_cast<FrameControlBits>(buffer.at(0) & static_cast<uint8_t>(FrameControlBits::BitFinal)),
 		static_cast<OpCode>(buffer.at(0) & 0x0F),
 		static_cast<size_t>(2),
 		static_cast<size_t>(buffer.at(1) & 0x7F)
 	};
 
-	if (header.payloadSize == 126) {
-		header.size += 2;
-		header.payloadSize = (buffer.at(2) << 8) | buffer.at(3);
-	} else if (header.payloadSize == 127) {
-		header.size += 8;
+	const bool maskUsed = (buffer.at(1) & 0x80) >> 7;
+	const size_t lengthSize = header.payloadSize == 126 ? 2 : (header.payloadSize == 127 ? 8 : 0);
+
+	//	the rest of the header may be still on it's way
+	if (buffer.size() < header.size + lengthSize + (maskUsed ? FrameHeader::mask_size : 0)) {
+		return std::nullopt;
+	}
+
+	if (lengthSize) {
 		header.payloadSize = 0;
-		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+		for (size_t i = 0; i < lengthSize; i++) {
+			header.payloadSize = (header.payloadSize << 8) | buffer.at(header.size + i);
 		}
+		header.size += lengthSize;
 	}
 
-	bool maskUsed = (buffer.at(1) & 0x80) >> 7;
 	if (maskUsed) {
 
-		if (buffer.size() < header.size + FrameHeader::mask_size) {
-			throw std::runtime_error("invalid websocket frame: not enough data to read mask");
-		}
-
 		std::array<uint8_t, FrameHeader::mask_size> mask;
 
 		for (size_t i = 0; i < mask.size(); i++) {
@@ -143,18 +147,22 @@ void WebsocketContext::asyncWorker() {
 			lastPing = std::chrono::steady_clock::now();
 		}
 
-		const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-		if (!nextChunk.size()) continue;
+		//	more than one frame can arrive at once
+		const auto nextHeader = parseFrameHeader(downloadBuff);
 
-		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
+		const auto frameTooLarge = nextHeader.has_value() && (
+			nextHeader.value().payloadSize > this->m_topts.maxRequestSize ||
+			nextHeader.value().size + nextHeader.value().payloadSize > this->m_topts.maxRequestSize
+		);
 
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
+		//	read until there is a complete frame (or at least it's known that it's not going to be accepted)
+		if (!nextHeader.has_value() || (!frameTooLarge && downloadBuff.size() < nextHeader.value().size + nextHeader.value().payloadSize)) {
+			const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			continue;
 		}
 
-		auto frameHeader = parseFrameHeader(downloadBuff);
+		auto frameHeader = nextHeader.value();
 
 		bool opcodeValid = false;
 		for (const auto& item : supportedWsOpcodes) {
@@ -169,28 +177,15 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
 		}
 
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
-		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
-
-		if (frameSize > this->m_topts.maxRequestSize) {
+		if (frameTooLarge) {
 			this->close(CloseReason::MessageTooBig);
 			throw std::runtime_error("frame size too large");
 		}
 
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
-
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
-
-			if (payloadChunk.size() < expectedSize) {
-				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
-			}
-
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
-		}
+		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
+		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
+		if (!frameHeader.mask.has_value()) {
 			this->close(CloseReason::ProtocolError);
 			throw std::runtime_error("received unmasked data from the client");
 		}
@@ -267,6 +262,6 @@ void WebsocketContext::asyncWorker() {
 			multipartCtx = std::nullopt;
 		}
 
-		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
+		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 	}
 }
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..79b3e7f 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -40,7 +40,7 @@ namespace Lambda::Websocket::Transport {
 		bool binary = false;
 	};
 
-	FrameHeader parseFrameHeader(const std::vector<uint8_t>& buffer);
+	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
 	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
-- 
2.43.0


From 565fe115714aa2b629eec8ff4a603e9f40c9ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 45/76] fix: unmask, type and mark fragments of websocket
 messages correctly

---
 core/websocket/transport.cpp | 31 ++++++++++++++-----------------
 core/websocket/transport.hpp |  1 -
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index de664b7..4db15b3 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -190,18 +190,10 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received unmasked data from the client");
 		}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
-
-			if (!multipartCtx.has_value()) {
-
-				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
-					frameHeader.opcode == OpCode::Binary
-				});
-
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
-			}
+		//	a message that got continued must have been started
+		if (frameHeader.opcode == OpCode::Continue && !multipartCtx.has_value()) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a continuation of nothing");
 		}
 
 		//	unmask the payload
@@ -249,19 +241,24 @@ void WebsocketContext::asyncWorker() {
 					multipartCtx.value().binary : 
 					frameHeader.opcode == OpCode::Binary;
 
+				const auto isPartial = frameHeader.finbit != FrameControlBits::BitFinal;
+
+				//	control frames can come in between of the message parts, these don't affect it
+				if (isPartial) {
+					multipartCtx = MultipartMessageContext({ isBinary });
+				} else {
+					multipartCtx = std::nullopt;
+				}
+
 				std::lock_guard<std::mutex>lock(this->m_read_mtx);
 				this->m_queue.push({
 					payloadBuff,
 					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
+					isPartial
 				});
 			}
 		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
-			multipartCtx = std::nullopt;
-		}
-
 		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 	}
 }
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index 79b3e7f..683a763 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -36,7 +36,6 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-- 
2.43.0


From 36061c0a90ce4de7596ce228bc539dbeecd4d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 46/76] fix: send whole websocket frames from different
 threads, nothing after a close frame

---
 core/websocket/transport.cpp | 18 +++++++----------
 core/websocket/websocket.cpp | 38 +++++++++++++++++++++++++++++++++---
 core/websocket/websocket.hpp |  6 +++++-
 3 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 4db15b3..ccb8b2d 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -23,12 +23,9 @@ static const std::initializer_list<OpCode> supportedWsOpcodes = {
 
 void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 
-	if (this->m_stopped) {
+	if (!this->writeFrame(serializeMessage(msg))) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
-
-	auto writeBuff = serializeMessage(msg);
-	this->m_transport.writeRaw(writeBuff);
 }
 
 std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
@@ -134,15 +131,15 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
+			auto pingFrame = serializeFrameHeader({
 				FrameControlBits::BitFinal,
 				OpCode::Ping,
 				static_cast<size_t>(0),
 				wsPingString.size()
 			});
 
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
+			this->writeFrame(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
@@ -205,21 +202,20 @@ void WebsocketContext::asyncWorker() {
 		switch (frameHeader.opcode) {
 
 			case OpCode::Close: {
-				this->m_stopped = true;
 				this->close(CloseReason::Normal);
 			} break;
 
 			case OpCode::Ping: {
 
-				const auto pongHeader = serializeFrameHeader({
+				auto pongFrame = serializeFrameHeader({
 					FrameControlBits::BitFinal,
 					OpCode::Pong,
 					static_cast<size_t>(0),
 					frameHeader.payloadSize
 				});
 
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
+				pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
+				this->writeFrame(pongFrame);
 
 			} break;
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..4dfc54c 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -78,9 +78,28 @@ WebsocketContext::~WebsocketContext() {
 	}
 }
 
-void WebsocketContext::close(Websocket::CloseReason reason) {
+bool WebsocketContext::writeFrame(const std::vector<uint8_t>& frame) {
 
-	this->m_stopped = true;
+	//	frames come from different threads and must never get mixed up
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	if (this->m_stopped) {
+		return false;
+	}
+
+	try {
+		this->m_transport.writeRaw(frame);
+	} catch (...) {
+		//	there's no way to tell how much of it was sent, so nothing can follow
+		this->m_stopped = true;
+		this->m_transport.close();
+		throw;
+	}
+
+	return true;
+}
+
+void WebsocketContext::close(Websocket::CloseReason reason) {
 
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
 
@@ -96,7 +115,20 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 
 	closeMessageBuff.insert(closeMessageBuff.end(), closeReasonBuff.begin(), closeReasonBuff.end());	
 
-	this->m_transport.writeRaw(closeMessageBuff);
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	//	the close frame is sent once and nothing is sent after it
+	if (this->m_stopped.exchange(true)) {
+		return;
+	}
+
+	try {
+		this->m_transport.writeRaw(closeMessageBuff);
+	} catch (...) {
+		this->m_transport.close();
+		throw;
+	}
+
 	this->m_transport.close();
 }
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..c5f9aa2 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -4,10 +4,12 @@
 #include "../http/transport.hpp"
 #include "../server/worker.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <string>
 #include <vector>
 #include <future>
+#include <mutex>
 #include <queue>
 
 namespace Lambda::Websocket {
@@ -58,8 +60,10 @@ namespace Lambda::Websocket {
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
 			std::mutex m_read_mtx;
-			bool m_stopped = false;
+			std::mutex m_write_mtx;
+			std::atomic<bool> m_stopped = false;
 			void asyncWorker();
+			bool writeFrame(const std::vector<uint8_t>& frame);
 
 		public:
 			WebsocketContext(WebsocketInit init);
-- 
2.43.0


From bbe21283a63bee0746ca663c39fd9e7a06a3b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 47/76] fix: send the following parts of websocket messages as
 continuations

---
 core/websocket/transport.cpp | 11 ++++++++---
 core/websocket/transport.hpp |  2 +-
 core/websocket/websocket.hpp |  2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index ccb8b2d..5bcb6f6 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -23,9 +23,14 @@ static const std::initializer_list<OpCode> supportedWsOpcodes = {
 
 void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 
-	if (!this->writeFrame(serializeMessage(msg))) {
+	std::lock_guard<std::mutex> lock(this->m_send_mtx);
+
+	if (!this->writeFrame(serializeMessage(msg, this->m_send_continued))) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
+
+	//	everything that follows a partial message continues it, up to the final part
+	this->m_send_continued = msg.partial;
 }
 
 std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
@@ -97,12 +102,12 @@ std::vector <uint8_t> Transport::serializeFrameHeader(const FrameHeader& header)
 	return resultBuffer;
 }
 
-std::vector<uint8_t> Transport::serializeMessage(const Message& message) {
+std::vector<uint8_t> Transport::serializeMessage(const Message& message, bool continued) {
 
 	//	create frame buffer
 	FrameHeader header {
 		message.partial ? FrameControlBits::BitContinue : FrameControlBits::BitFinal,
-		message.binary ? OpCode::Binary : OpCode::Text,
+		continued ? OpCode::Continue : (message.binary ? OpCode::Binary : OpCode::Text),
 		static_cast<size_t>(0),
 		message.size(),
 	};
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index 683a763..84f0add 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -40,7 +40,7 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
-	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
+	std::vector <uint8_t> serializeMessage(const Websocket::Message& message, bool continued);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index c5f9aa2..04bdd02 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -61,6 +61,8 @@ namespace Lambda::Websocket {
 			std::queue<Websocket::Message> m_queue;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
+			std::mutex m_send_mtx;
+			bool m_send_continued = false;
 			std::atomic<bool> m_stopped = false;
 			void asyncWorker();
 			bool writeFrame(const std::vector<uint8_t>& frame);
-- 
2.43.0


From f1be3870d336b14a109002d7d610ab12d5baede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 48/76] fix: don't lose websocket messages that came before an
 error, lock the queue

---
 core/server/instance.cpp     |  2 +-
 core/websocket/websocket.cpp | 18 ++++++++++++------
 core/websocket/websocket.hpp |  2 +-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 7039a22..0c95be4 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -33,7 +33,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
-	this->serviceWorker = std::async([&]() {
+	this->serviceWorker = std::async(std::launch::async, [&]() {
 
 		if (this->config.service.useThreadList) {
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 4dfc54c..2673b6e 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -61,7 +61,7 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 	this->m_transport.tcpconn().flags.closeOnTimeout = false;
 	this->m_transport.tcpconn().setTimeouts(sockRcvTimeout, Network::SetTimeoutsDirection::Receive);
 
-	this->m_reader = std::async(&WebsocketContext::asyncWorker, this);
+	this->m_reader = std::async(std::launch::async, &WebsocketContext::asyncWorker, this);
 }
 
 WebsocketContext::~WebsocketContext() {
@@ -133,17 +133,18 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -153,19 +154,24 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
+	//	messages that came before an error should still be delivered
+	if (this->hasMessage()) {
+		return true;
+	}
+
 	if (readerDone) {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return false;
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 04bdd02..78910a6 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -59,7 +59,7 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
+			mutable std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
 			std::mutex m_send_mtx;
 			bool m_send_continued = false;
-- 
2.43.0


From f501a2dbfbc6f7d396ec6110a4cac490a8382692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 49/76] fix: don't drop websocket clients that send unsolicited
 pongs

---
 core/websocket/transport.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 5bcb6f6..3f0e0c6 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -227,11 +227,9 @@ void WebsocketContext::asyncWorker() {
 			case OpCode::Pong: {
 
 				//	check that pong payload matches the ping's one
+				//	the client is allowed to send any other pongs too, those just don't mean anything
 				if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
 					lastPingResponse = std::chrono::steady_clock::now();
-				} else {
-					this->close(CloseReason::ProtocolError);
-					throw std::runtime_error("invalid pong reponse");
 				}
 
 			} break;
-- 
2.43.0


From 4e4c1e6e2fb5aa8a6d3b8d5fb5ee9d7657991a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 50/76] fix: survive websocket clients that are gone when a
 session ends

---
 core/websocket/websocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 2673b6e..89fa5d5 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -67,7 +67,9 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 WebsocketContext::~WebsocketContext() {
 
 	if (!this->m_stopped && this->m_transport.isConnected()) {
-		this->close(CloseReason::GoingAway);
+		//	the client can be gone already, that must not get out of a destructor
+		try { this->close(CloseReason::GoingAway); }
+			catch (...) {}
 	}
 
 	this->m_stopped = true;
-- 
2.43.0


From e7cdc576ff7848f2827ce7eb7580c9328b52af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 51/76] fix: keep SSE messages intact when their fields contain
 line breaks

---
 core/sse/writer.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..93649e9 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -34,6 +34,15 @@ void Writer::push(const EventMessage& event) {
 		throw Lambda::Error("SSE listener disconnected");
 	}
 
+	//	there's no way to express these, and a client would see different fields or even events instead
+	if (event.event.value_or("").find_first_of("\r\n") != std::string::npos) {
+		throw Lambda::Error("SSE event name cannot contain line breaks");
+	}
+
+	if (event.id.value_or("").find_first_of(std::string("\r\n\0", 3)) != std::string::npos) {
+		throw Lambda::Error("SSE event id cannot contain line breaks or zeros");
+	}
+
 	std::vector<std::pair<std::string, std::string>> messageFields;
 
 	if (event.event.has_value()) {
@@ -44,7 +53,14 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	each line of the data goes in it's own field
+	size_t lineStart = 0;
+	for (auto lineEnd = event.data.find_first_of("\r\n"); lineEnd != std::string::npos; lineEnd = event.data.find_first_of("\r\n", lineStart)) {
+		messageFields.push_back({ "data", event.data.substr(lineStart, lineEnd - lineStart) });
+		lineStart = lineEnd + (event.data.compare(lineEnd, 2, "\r\n") ? 1 : 2);
+	}
+
+	messageFields.push_back({ "data", event.data.substr(lineStart) });
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From 1443e2f4d5c2fa5099a69769c6a56f72b793779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 52/76] fix: don't overrun buffers decoding unpadded, empty or
 malformed base64

---
 core/encoding/base64.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..95a899e 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -46,10 +46,21 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
 		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
+		if (!isalnum(static_cast<unsigned char>(symbol)) && symbol != '+' && symbol != '/' && symbol != '=')
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
+	//	padding can only complete the last block
+	size_t paddLength = 0;
+	while (paddLength < data.size() && data[data.size() - paddLength - 1] == '=')
+		paddLength++;
+
+	if (data.find('=') < data.size() - paddLength || paddLength > 2 || (paddLength && data.size() % 4))
+		throw std::runtime_error("Invalid padding in base64 sequence");
+
+	if (data.size() % 4 == 1)
+		throw std::runtime_error("Incomplete base64 sequence");
+
 	size_t encodedCompleteBlocks = ((data.size() / 4) * 4);
 	size_t outputCompleteBlocks = ((data.size() / 4) * 3);
 
@@ -66,27 +77,18 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	if (incompleteBlockSize > 0) {
 
-		result.resize(result.size() + 1);
+		result.resize(result.size() + incompleteBlockSize - 1);
 
 		if (incompleteBlockSize == 3) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
-		} else if (incompleteBlockSize == 2) {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
 		} else {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
+			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 		}
 
 		return result;
 	}
 
-	uint8_t paddLength = 0;
-	for (uint8_t i = 1; i <= 2; i++) {
-		if (data[data.size() - i] == '=')
-			paddLength++;
-	}
-
 	if (paddLength > 0) 
 		result.resize(result.size() - paddLength);
 
-- 
2.43.0


From 23e63860ee5d5af73431fddfbef12e9b6bfc6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 53/76] fix: reject non-hex punctuation when decoding hex and
 percent sequences

---
 core/encoding/hex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..6962760 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -2,6 +2,7 @@
 
 #include <stdexcept>
 #include <cstring>
+#include <cctype>
 
 using namespace Lambda;
 
@@ -42,7 +43,7 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 
 	for (size_t i = 0; i < 2; i++) {
 		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
-		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
+		if (!isxdigit(static_cast<unsigned char>(hexbyte.string[i])) || charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
 			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
 		temp.string[i] = hex_decode_table[charcode];
 	}
-- 
2.43.0


From 6308823bb68287f01c9a765bfba8efa1fedad49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 54/76] fix: percent-encode control and non-ascii bytes in url
 components

---
 core/encoding/url.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/encoding/url.cpp b/core/encoding/url.cpp
index 9051e05..367401c 100644
--- a/core/encoding/url.cpp
+++ b/core/encoding/url.cpp
@@ -18,7 +18,8 @@ std::string Encoding::encodeURIComponent(const std::string& input) {
 
 	for (auto symbol : input) {
 
-		if (escapeChars.contains(symbol)) {
+		//	control and non-ascii bytes can't appear in a url either
+		if (escapeChars.contains(symbol) || symbol < 0x20 || symbol == 0x7f) {
 			result.push_back('%');
 			result.append(byteToHex(symbol).string);
 			continue;
-- 
2.43.0


From 4ac24afa12d99aeecb6075d778f06300a0e3151b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 55/76] fix: render placeholders that follow unrelated opening
 braces

---
 core/html/renderer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..eb0dabf 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -21,7 +21,8 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 
 		auto templateVar = getTemplateVariableFromSlice(result, templateOpen + 2, templateClose);
 		if (!templateVar.has_value()) {
-			searchStart = templateClose + 2;
+			//	the text up to the closing braces can still have a valid placeholder
+			searchStart = templateOpen + 1;
 			continue;
 		}
 
@@ -37,7 +38,7 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
-		return chr == '_' || isalnum(chr);
+		return chr == '_' || isalnum(static_cast<unsigned char>(chr));
 	};
 
 	static auto isWhitespace = [](char chr) {
-- 
2.43.0


From fffd1a23c1856f3e3cb1a072053504d6065690e5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 56/76] fix: escape messages and paths shown on html service
 pages

---
 core/html/html.hpp                  |  5 +++++
 core/html/renderer.cpp              | 19 +++++++++++++++++++
 core/server/errorpage.cpp           |  2 +-
 extra/staticserver/staticserver.cpp |  2 +-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/core/html/html.hpp b/core/html/html.hpp
index 44efeab..55f1282 100644
--- a/core/html/html.hpp
+++ b/core/html/html.hpp
@@ -12,6 +12,11 @@ namespace Lambda::HTML {
 
 	typedef std::map<std::string, std::string> TemplateProps;
 	std::string renderTemplate(const std::string& templateSource, const TemplateProps& props);
+
+	/**
+	 * Escapes text to be used as a content of an HTML element
+	*/
+	std::string escapeText(const std::string& text);
 };
 
 #endif
diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index eb0dabf..10e4f55 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -35,6 +35,25 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 	return result;
 }
 
+std::string HTML::escapeText(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (auto symbol : text) {
+		switch (symbol) {
+			case '&': result.append("&amp;"); break;
+			case '<': result.append("&lt;"); break;
+			case '>': result.append("&gt;"); break;
+			case '\"': result.append("&quot;"); break;
+			case '\'': result.append("&#39;"); break;
+			default: result.push_back(symbol); break;
+		}
+	}
+
+	return result;
+}
+
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
diff --git a/core/server/errorpage.cpp b/core/server/errorpage.cpp
index 87d66e1..73d6f31 100644
--- a/core/server/errorpage.cpp
+++ b/core/server/errorpage.cpp
@@ -23,7 +23,7 @@ HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& mess
 			errorResponse.body = renderTemplate(Templates::servicePage, {
 				{ "svcpage_statuscode", std::to_string(code.code()) },
 				{ "svcpage_statustext", code.text() },
-				{ "svcpage_message_text", message }
+				{ "svcpage_message_text", escapeText(message) }
 			});
 			errorResponse.headers.set("content-type", "text/html");
 		} break;
diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..c4a13d7 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -123,7 +123,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
-			{ "svcpage_message_text", '"' + pathname + "\" could not be located" }
+			{ "svcpage_message_text", escapeText('"' + pathname + "\" could not be located") }
 		}));
 	}
 
-- 
2.43.0


From 45bd091eefb13fdcde71e12c399a9d64f85eed74 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 57/76] fix: resolve dot segments of static server paths
 segment by segment

---
 extra/staticserver/staticserver.cpp | 45 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index c4a13d7..5f5741a 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -7,6 +7,8 @@
 #include <fstream>
 #include <vector>
 #include <cstdint>
+#include <algorithm>
+#include <system_error>
 
 using namespace Lambda;
 using namespace Lambda::HTTP;
@@ -20,37 +22,38 @@ std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
 
-	auto segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("\\")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	for (auto& symbol : urlpath) {
+		if (symbol == '\\') symbol = '/';
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("../")) != std::string::npos)	{
+	std::vector<std::string> segments;
+	bool endsWithSlash = false;
 
-		size_t segmentPrevStart = 0;
-		size_t searchStart = segmentPos > 2 ? segmentPos - 2 : 0;
-		for (size_t i = searchStart; i > 0; i--) {
-			if (urlpath[i] == '/') {
-				segmentPrevStart = i;
-				break;
-			}
-		}
+	for (size_t segmentStart = 0; segmentStart <= urlpath.size();) {
+
+		const auto segmentEnd = std::min(urlpath.find('/', segmentStart), urlpath.size());
+		const auto segment = urlpath.substr(segmentStart, segmentEnd - segmentStart);
+		segmentStart = segmentEnd + 1;
 
-		urlpath.replace(segmentPrevStart, (segmentPos + 3) - segmentPrevStart, "/");
+		endsWithSlash = segment.empty() || segment == "." || segment == "..";
+
+		if (segment == "..") {
+			if (segments.size()) segments.pop_back();
+		} else if (!endsWithSlash) {
+			segments.push_back(segment);
+		}
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("./")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	std::string result;
+	for (const auto& segment : segments) {
+		result += '/' + segment;
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("//")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 2, "/");
+	if (endsWithSlash || result.empty()) {
+		result += '/';
 	}
 
-	return urlpath;
+	return result;
 }
 
 StaticServer::StaticServer(const std::string& rootDir) {
-- 
2.43.0


From 90416132581519ed0695f6c1d0f8150a0543fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 58/76] fix: answer static server requests for paths the file
 system can't represent

---
 extra/staticserver/staticserver.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 5f5741a..7d4860e 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -75,10 +75,17 @@ StaticServer::StaticServer(const std::string& rootDir) {
 
 std::optional<std::string> StaticServer::resolvePath(const std::string& pathname) const noexcept {
 
+	//	file system would only see the part that comes before a null byte
+	if (pathname.find('\0') != std::string::npos) {
+		return std::nullopt;
+	}
+
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		//	this variant doesn't throw, whatever is wrong with the path
+		std::error_code error;
+		return std::filesystem::is_regular_file(fspath, error);
 	};
 
 	if (checkAvailability(basePath)) {
@@ -131,7 +138,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
 	auto fileContent = readBinaryFileSync(resolvedFilePath);
-- 
2.43.0


From a67cd314f115437b0c66f017a28e358df24e1669 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 59/76] fix: don't serve unreadable static files as empty ones

---
 extra/staticserver/staticserver.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 7d4860e..7ba50ed 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -14,9 +14,9 @@ using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTML;
 
-std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
+std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
-	if (!readablefile.is_open()) return {};
+	if (!readablefile.is_open()) return std::nullopt;
 	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
 }
 
@@ -128,8 +128,13 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto normalizedPathname = flattenPathName(pathname);
 	auto resolvedFile = this->resolvePath(normalizedPathname);
 
+	std::optional<std::vector<uint8_t>> fileContent;
+	if (resolvedFile.has_value()) {
+		fileContent = readBinaryFileSync(resolvedFile.value());
+	}
+
 	//	return 404
-	if (!resolvedFile.has_value()) {
+	if (!fileContent.has_value()) {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
@@ -141,9 +146,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
-	auto fileContent = readBinaryFileSync(resolvedFilePath);
-
 	return Response(200, {
 		{ "content-type", mimetype }
-	}, fileContent);
+	}, fileContent.value());
 }
-- 
2.43.0


From fefe45223b8afb56eaf386130184706eadcf5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 60/76] fix: find request cookies whatever their letter case
 and separator

---
 core/http/cookies.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..cc5f83c 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -7,14 +7,14 @@ using namespace Lambda::HTTP;
 
 Cookies::Cookies(const std::string& cookiestring) {
 
-	auto entries = Strings::split(cookiestring, "; ");
+	auto entries = Strings::split(cookiestring, ';');
 
 	for (const auto& entry : entries) {
 
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From dce58404925d18a650a56b7ddfc6e5865bc92d8c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 61/76] fix: keep cookies to be set when a collection is copied
 or moved

---
 core/http/cookies.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index cc5f83c..1022da2 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -25,19 +25,23 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
-- 
2.43.0


From 94af063caee3898810404856d55fffc6d8057117 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 62/76] fix: make deleted cookies actually expire

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 1022da2..8758ae7 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -73,7 +73,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { CookieParams({ "expires", "Thu, 01 Jan 1970 00:00:00 GMT" }) } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From 2e1cf0522a97d750306bd6b89fe6689747b2fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 63/76] fix: keep user names without passwords, bracketed hosts
 and reject missing protocols in urls

---
 core/http/url.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index 102c389..c044939 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -36,6 +36,12 @@ void URL::parse(const std::string& href) {
 			}
 
 			this->protocol = href.substr(0, cursor);
+
+			//	that separator could have been just a part of a query or a path
+			if (!this->protocol.size() || Strings::includes(this->protocol, std::vector<std::string>({ "/", "?", "#", "@", ":" }))) {
+				throw std::runtime_error("protocol not specified");
+			}
+
 			cursor += 3;
 
 			//	find separator between hostname and stuff and document path and it's stuff
@@ -56,6 +62,8 @@ void URL::parse(const std::string& href) {
 				if (credSep != std::string::npos) {
 					this->username = credentails.substr(0, credSep);
 					this->password = credentails.substr(credSep + 1);
+				} else {
+					this->username = credentails;
 				}
 
 				addrString = addrString.substr(cursor + 1);
@@ -64,7 +72,7 @@ void URL::parse(const std::string& href) {
 			this->host = addrString;
 
 			//	get hostname and port
-			cursor = addrString.find(':');
+			cursor = addrString.find(':', addrString.starts_with('[') ? addrString.find(']') : 0);
 			if (cursor != std::string::npos) {
 				this->port = addrString.substr(cursor + 1);
 				this->hostname = addrString.substr(0, cursor);
@@ -120,8 +128,8 @@ std::string URL::href() const {
 		}
 
 		//	add http auth
-		if (this->username.size() && this->password.size()) {
-			temp += this->username + ":" + this->password + "@";
+		if (this->username.size() || this->password.size()) {
+			temp += this->username + (this->password.size() ? ":" + this->password : "") + "@";
 		}
 
 		//	add host name
-- 
2.43.0


From bf0072fe27cd4bf7375e4febdf3c185e70029087 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 64/76] fix: escape strings and keys of serialized json as the
 standard says

---
 core/json/stringify.cpp | 60 ++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..b2974e4 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -7,12 +7,41 @@ using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
-	{ '\"', "\\\"" }
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\"', "\\\"" },
+	{ '\\', "\\\\" }
 };
 
+static std::string quote(const std::string& textcontent) {
+
+	std::string temp;
+	temp.reserve(textcontent.size());
+
+	for (auto symbol : textcontent) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		//	the rest of control characters
+		if (static_cast<unsigned char>(symbol) < 0x20) {
+			static const std::string hexDigits = "0123456789abcdef";
+			temp.append("\\u00");
+			temp.push_back(hexDigits[symbol >> 4]);
+			temp.push_back(hexDigits[symbol & 0x0f]);
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	return '\"' + temp + '\"';
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -26,25 +55,8 @@ std::string JSON::stringify(const Property& data) {
 		case JSTypes::Boolean:
 			return data.asBool() ? "true" : "false";
 
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
-
-			for (auto symbol : textcontent) {
-
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
-
-				temp.push_back(symbol);
-			}
-
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return quote(data.asString());
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +79,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append(quote(entry.first) + ':');
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From 10f7214fd9e5aa238257727991aedad2fa0b2936 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 65/76] fix: parse json strings with escapes, brackets and
 quotes as the standard says

---
 core/json/parse.cpp | 121 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 98 insertions(+), 23 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..1d4198c 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,18 +1,102 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
-#include <array>
+#include <cstdint>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
-};
+//	finds position of the quote that closes the string opened at openPos
+static size_t findStringEnd(const std::string& text, size_t openPos) {
+
+	auto isFollowedByDelimiter = [&](size_t pos) {
+		const auto next = text.find_first_not_of(" \t\r\n", pos + 1);
+		return next == std::string::npos || std::string(",:}]").find(text[next]) != std::string::npos;
+	};
+
+	for (size_t i = openPos + 1; i < text.size(); i++) {
+
+		if (text[i] == '\"') return i;
+		if (text[i] != '\\') continue;
+
+		i++;
+
+		//	a doubly escaped quote in the middle of a string doesn't close it
+		if (text.compare(i, 2, "\\\"") == 0 && !isFollowedByDelimiter(i + 1)) i++;
+	}
+
+	throw std::runtime_error("Invalid JSON: unterminated string");
+}
+
+static uint32_t parseUnicodeEscape(const std::string& text, size_t pos) {
+
+	const auto digits = text.substr(pos, 4);
+	if (digits.size() != 4 || digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+		throw std::runtime_error("Invalid JSON: invalid unicode escape sequence");
+
+	return std::stoul(digits, nullptr, 16);
+}
+
+static void appendCodepoint(std::string& text, uint32_t codepoint) {
+	if (codepoint < 0x80) {
+		text.push_back(codepoint);
+		return;
+	} else if (codepoint < 0x800) {
+		text.push_back(0xC0 | (codepoint >> 6));
+	} else {
+		if (codepoint < 0x10000) {
+			text.push_back(0xE0 | (codepoint >> 12));
+		} else {
+			text.push_back(0xF0 | (codepoint >> 18));
+			text.push_back(0x80 | ((codepoint >> 12) & 0x3F));
+		}
+		text.push_back(0x80 | ((codepoint >> 6) & 0x3F));
+	}
+	text.push_back(0x80 | (codepoint & 0x3F));
+}
+
+static std::string unescapeString(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 == text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		switch (text[++i]) {
+			case 'n': result.push_back('\n'); break;
+			case 'r': result.push_back('\r'); break;
+			case 't': result.push_back('\t'); break;
+			case 'b': result.push_back('\b'); break;
+			case 'f': result.push_back('\f'); break;
+			case 'u': {
+
+				auto codepoint = parseUnicodeEscape(text, i + 1);
+				i += 4;
+
+				//	join surrogate pairs
+				if ((codepoint & 0xFC00) == 0xD800 && text.compare(i + 1, 2, "\\u") == 0) {
+					const auto lowHalf = parseUnicodeEscape(text, i + 3);
+					if ((lowHalf & 0xFC00) == 0xDC00) {
+						codepoint = 0x10000 + ((codepoint & 0x3FF) << 10) + (lowHalf & 0x3FF);
+						i += 6;
+					}
+				}
+
+				appendCodepoint(result, codepoint);
+
+			} break;
+			default: result.push_back(text[i]); break;
+		}
+	}
+
+	return result;
+}
 
 Property JSON::parse(const std::string& text) {
 
@@ -25,17 +109,10 @@ Property JSON::parse(const std::string& text) {
 		
 		if (objectText.starts_with('\"')) {
 
-			auto textcontent = objectText.substr(1, objectText.size() - 2);
-
-			auto illegalQuotePos = textcontent.find('\"');
-
-			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
+			if (findStringEnd(objectText, 0) != objectText.size() - 1)
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
-
-			return Property(textcontent);
+			return Property(unescapeString(objectText.substr(1, objectText.size() - 2)));
 
 		} else if (isdigit(objectText.at(0))) {
 			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
@@ -51,7 +128,6 @@ Property JSON::parse(const std::string& text) {
 	//	split this shit into segments between commas
 	size_t ptnss_object = 0;
 	size_t ptnss_array = 0;
-	bool ptnss_string = 0;
 
 	size_t segmentStart = 1;
 
@@ -71,12 +147,12 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				i = findStringEnd(objectText, i);
 				break;
 			default: break;
 		}
 
-		if (!ptnss_object && !ptnss_array && !ptnss_string && objectText[i] == ',') {
+		if (!ptnss_object && !ptnss_array && objectText[i] == ',') {
 			entries.push_back(objectText.substr(segmentStart, i - segmentStart));
 			segmentStart = i + 1;
 		}
@@ -106,12 +182,11 @@ Property JSON::parse(const std::string& text) {
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 
 			auto keyEnded = std::string::npos;
-			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
 				if (entryTrimmed[i] == '\"') {
-					insideString = !insideString;
-				} else if (!insideString && entryTrimmed[i] == ':') {
+					i = findStringEnd(entryTrimmed, i);
+				} else if (entryTrimmed[i] == ':') {
 					keyEnded = i;
 					break;
 				}
@@ -121,7 +196,7 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? unescapeString(key.substr(1, key.size() - 2)) : key;
 
 			temp[useKey] = parse(value);
 		}
-- 
2.43.0


From a615b24fd99a73ac27a59053ee7bf0ed6a07b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 66/76] fix: parse empty json objects and arrays

---
 core/json/parse.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 1d4198c..e16636e 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -123,6 +123,9 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
+	if (objectText.size() < 2 || !objectText.ends_with(isArray ? ']' : '}'))
+		throw std::runtime_error("Invalid JSON: missing closing bracket");
+
 	std::vector<std::string> entries;
 
 	//	split this shit into segments between commas
@@ -158,7 +161,10 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
-	entries.push_back(objectText.substr(segmentStart, objectText.size() - segmentStart - 1));
+	//	an empty object or array has no entries at all
+	const auto lastEntry = objectText.substr(segmentStart, objectText.size() - segmentStart - 1);
+	if (entries.size() || Strings::trim(lastEntry).size())
+		entries.push_back(lastEntry);
 
 	if (isArray) {
 
-- 
2.43.0


From 07c54ebf8c92297615fcc2b4aef640d77cf71685 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 67/76] fix: parse negative json numbers

---
 core/json/parse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index e16636e..deb2feb 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -114,8 +114,8 @@ Property JSON::parse(const std::string& text) {
 
 			return Property(unescapeString(objectText.substr(1, objectText.size() - 2)));
 
-		} else if (isdigit(objectText.at(0))) {
-			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+		} else if (objectText.find_first_of("-0123456789") == 0) {
+			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
-- 
2.43.0


From b34b4fa90ac43ffab4b0194f456e137391854b07 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 68/76] fix: release previous data of assigned json properties

---
 core/json/property.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..8a1d9d7 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 
 #include <stdexcept>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -92,7 +93,18 @@ Property::Property(Property&& other) {
 }
 
 Property Property::operator=(const Property& other) {
-	this->clone(other);
+
+	//	other can be a part of this one, so it's copied before anything gets deleted
+	Property temp(other);
+
+	std::swap(this->internalType, temp.internalType);
+	std::swap(this->internalDataFloat, temp.internalDataFloat);
+	std::swap(this->internalDataInt, temp.internalDataInt);
+	std::swap(this->internalDataBool, temp.internalDataBool);
+	std::swap(this->internalDataStr, temp.internalDataStr);
+	std::swap(this->internalDataArray, temp.internalDataArray);
+	std::swap(this->internalDataMap, temp.internalDataMap);
+
 	return *this;
 }
 
-- 
2.43.0


From fce001ad90758e90d159b876bbf734f5f0246a64 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 69/76] fix: decompress zlib data whose output chunks end
 together with input chunks

---
 core/compression/zlib_oneshot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..50caf87 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -126,7 +126,9 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
-				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
+
+				//	buffer error only says that there's nothing more to do before the next chunk of input
+				if ((opres < Z_OK && opres != Z_BUF_ERROR) || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
-- 
2.43.0


From f5258a5493fbe7118c614525955750e63e7a0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 70/76] fix: allow ending a gzip stream that had no data

---
 core/compression/zlib_stream_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index e532627..a422ec1 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -93,7 +93,7 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next)
 
 std::vector<uint8_t> GzipStreamCompressor::end() {
 
-	if (this->m_stage != Stage::Progress) {
+	if (this->m_stage == Stage::Ended) {
 		throw std::runtime_error("Cannot end a stream that has been already ended");
 	}
 
-- 
2.43.0


From c169ae65b6f90cb31c39e052f6cf76f4cad5a936 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 71/76] fix: don't leak the previous stream of move assigned
 gzip streams

---
 core/compression/zlib_stream_compress.cpp   | 7 ++++---
 core/compression/zlib_stream_decompress.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index a422ec1..3a3de61 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	own stream will be released by the other object
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 7a9eb1b..aac0bf8 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	own stream will be released by the other object
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
-- 
2.43.0


From c15ea49a3723aa5f2bfa49cf15cd8e774ab06566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 72/76] fix: close the connection a move assignment replaces,
 move the flags too

---
 core/network/tcp/connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 22f08d5..ea30100 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,14 +28,22 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
+
+	if (this == &other) return *this;
+
+	//	the connection that is being replaced has to be closed first
+	this->end();
+
 	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
+	this->flags = other.flags;
 	return *this;
 }
 
 Connection::Connection(Connection&& other) noexcept {
 	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
+	this->flags = other.flags;
 }
 
 Connection::~Connection() {
-- 
2.43.0


From a49025cd8ebbaa75c147dab7bdcff1e42a2ef39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 73/76] fix: close the listen socket a move assignment replaces

---
 core/network/tcp/listener.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index d4963e3..8594b02 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -80,6 +80,12 @@ ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
+
+	if (this == &other) return *this;
+
+	//	the socket that is being replaced has to be closed first
+	this->stop();
+
 	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
 	return *this;
-- 
2.43.0


From 074400a335d4b4b50db7e1bc7ec5f5b812d4b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 74/76] fix: don't close a listen socket while another thread
 is using it

---
 core/network/tcp/listener.cpp | 13 +++++++++++++
 core/network/tcp/listener.hpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 8594b02..9c5213a 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -98,6 +98,9 @@ std::optional<Connection> ListenSocket::acceptConnection() {
 
 	while (nextSocket == INVALID_SOCKET) {
 
+		//	stop() won't close the handle while it's being used here
+		std::unique_lock<std::mutex> lock(this->m_accept_mtx);
+
 		//	check that we have a valid socket; it can be closed by a different thread at any moment
 		const SockHandle listenHandle = this->hSocket;
 		if (listenHandle == INVALID_SOCKET) return std::nullopt;
@@ -110,6 +113,8 @@ std::optional<Connection> ListenSocket::acceptConnection() {
 		if (nextSocket == INVALID_SOCKET) {
 
 			const auto osError = GetOSErrorCode();
+			lock.unlock();
+
 			if (this->hSocket == INVALID_SOCKET) return std::nullopt;
 
 			if (acceptRetryCodes.contains(osError)) continue;
@@ -164,6 +169,14 @@ void ListenSocket::stop() noexcept {
 	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
 	if (tempHandle == INVALID_SOCKET) return;
 
+	//	this makes any pending accept calls return
 	shutdown(tempHandle, SD_BOTH);
+
+	//	only close it when no other thread is using it,
+	//	otherwise the handle could get reused by a different socket
+	//	(on windows it's the closing what makes these calls return)
+	#ifndef _WIN32
+		std::lock_guard<std::mutex> lock(this->m_accept_mtx);
+	#endif
 	closesocket(tempHandle);
 }
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index a08c463..3b40223 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -5,6 +5,7 @@
 #include "./connection.hpp"
 
 #include <atomic>
+#include <mutex>
 #include <optional>
 
 namespace Lambda::Network::TCP {
@@ -19,6 +20,7 @@ namespace Lambda::Network::TCP {
 		protected:
 			std::atomic<SockHandle> hSocket;
 			ListenConfig config;
+			std::mutex m_accept_mtx;
 
 		public:
 			ListenSocket(const ListenConfig& init);
-- 
2.43.0


From fa5f9f36dd24529fa709771609dfcd9c1df67478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 75/76] fix: return from replaceAll when there is nothing to
 search for

---
 core/polyfill/strings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 8220af9..a6fb172 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -172,6 +172,10 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+
+	//	an empty string can be found anywhere, infinitely
+	if (!sub.size()) return;
+
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From 2b192aef97a469ed46178a01a3adbb240dddd697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 76/76] fix: don't let requests add lines to the server log

---
 core/server/worker.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 4f76e4a..485a531 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -2,6 +2,7 @@
 #include "../http/transport.hpp"
 #include "../http/transport_impl.hpp"
 #include "../crypto/crypto.hpp"
+#include "../encoding/encoding.hpp"
 
 using namespace Lambda;
 using namespace Lambda::Websocket;
@@ -10,6 +11,26 @@ using namespace Lambda::Server::Connection;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTTP::Transport;
 
+/**
+ * Client controlled text must not be able to add lines (or terminal commands) to the log
+*/
+static std::string toLogText(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (const auto item : text) {
+		const auto byte = static_cast<uint8_t>(item);
+		if (byte < 0x20 || byte == 0x7F) {
+			result += "\\x" + Encoding::toHex({ byte });
+			continue;
+		}
+		result.push_back(item);
+	}
+
+	return result;
+}
+
 void Server::connectionWorker(
 	WorkerContext& workerctx,
 	const ServeOptions& config,
@@ -33,7 +54,7 @@ void Server::connectionWorker(
 			contextID,
 			'(' + conninfo.remoteAddr.hostname + ')',
 			"terminated:",
-			error.what()
+			toLogText(error.what())
 		});
 	};
 
@@ -95,7 +116,7 @@ void Server::connectionWorker(
 				syncout.log({
 					logRequestPrefix,
 					request.method.toString(),
-					request.url.pathname,
+					toLogText(request.url.pathname),
 					"-->",
 					protocol
 				});
@@ -136,7 +157,7 @@ void Server::connectionWorker(
 					syncout.error({
 						logRequestPrefix,
 						"Handler crashed:",
-						error.what()
+						toLogText(error.what())
 					});
 				}
 
@@ -189,7 +210,7 @@ void Server::connectionWorker(
 					syncout.log({
 						logRequestPrefix,
 						request.method.toString(),
-						request.url.pathname,
+						toLogText(request.url.pathname),
 						"-->",
 						response.status.code()
 					});
-- 
2.43.0

