From aa17ef66d65909a083cf1db06e90999d8873bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 01/60] fix: wake a blocked producer after
 try_pop_copy/try_pop_move

Both functions free a slot but notified the consumers' condition variable,
so that a producer blocked in push_and_block_* was never woken.
---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From 9d30411b6c9ca088f03c66f257676e220525f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 02/60] fix: GBarrier must block until the generation changes

The predicate was inverted: threads passed the barrier at once, and a thread
woken by the last arrival blocked for ever.
---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From 872f4c2b9cbe62c1eacff91ae5c42db500cd5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 03/60] fix: let GGlobalOptionsT::remove() remove and
 getContentVector() return

remove() compared end() with end() and never found an option;
getContentVector() filled a by-value copy of the caller's vector.
---
 include/common/GGlobalOptionsT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GGlobalOptionsT.hpp b/include/common/GGlobalOptionsT.hpp
index 1442795..a81077a 100644
--- a/include/common/GGlobalOptionsT.hpp
+++ b/include/common/GGlobalOptionsT.hpp
@@ -146,7 +146,7 @@ public:
 	 */
 	bool remove(const std::string &key) {
 		std::unique_lock<std::mutex> guard(m_mutex);
-		typename std::map<std::string, T>::iterator it = kvp_.end();
+		typename std::map<std::string, T>::iterator it = kvp_.find(key);
 		if (it == kvp_.end()) {
 			return false;
 		} else {
@@ -220,7 +220,7 @@ public:
 	/**
 	 * Retrieves a vector of all content items
 	 */
-	void getContentVector(std::vector<T> content) const {
+	void getContentVector(std::vector<T> &content) const {
 		std::unique_lock<std::mutex> guard(m_mutex);
 		content.clear();
 		typename std::map<std::string, T>::const_iterator cit;
-- 
2.43.0


From a16a35b9f59810f6074861be8ca37c80940cc83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 04/60] fix: fulfil the promise of successful void tasks in
 GThreadPool

The future of a void task reported broken_promise although the task succeeded.
---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From 60386b1c25cd34a8c81df136976b1f4b7be83496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 05/60] fix: synchronise all accesses to the shared_ptr in
 GSingletonT

The unprotected first check of the double-checked locking read a
non-atomic shared_ptr while another thread assigned or reset it.
---
 include/common/GSingletonT.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/common/GSingletonT.hpp b/include/common/GSingletonT.hpp
index 38822da..be2ae0e 100644
--- a/include/common/GSingletonT.hpp
+++ b/include/common/GSingletonT.hpp
@@ -113,19 +113,22 @@ public:
 
 		 switch (mode) {
 			 case 0:
-				 // Several callers can reach the next line simultaneously. Hence, if
-				 // p is empty, we need to ask again if it is empty after we have acquired the lock
-				 if (not p) {
-					 // Prevent concurrent "first" access
-					 std::unique_lock<std::mutex> lk(creation_mutex);
-					 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
-				 }
-
+			 {
+				 // p may be assigned to or reset by another thread at any time,
+				 // so any access to it needs to happen under the protection of the lock
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
 				 return p;
-				 break;
+			 }
 
 			 case 1:
-				 p.reset();
+			 {
+				 // Destruction (if any) should happen outside of the lock
+				 std::shared_ptr<T> old_p;
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 old_p.swap(p);
+				 lk.unlock();
+			 }
 				 break;
 		 }
 
-- 
2.43.0


From 66dfe643a746029f59143f669dd0fa8566eda992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 06/60] fix: do not hand out the same seeds again once the seed
 collection is used up

---
 src/hap/GRandomFactory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..be1b0a6 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -148,7 +148,16 @@ seed_type GRandomFactory::getSeed() {
 
 	// Refill at the start of seeding or when all seeds have been used
 	if(not m_seeding_has_started || m_seed_cit==m_seed_collection.end()) {
-		m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		if(not m_seeding_has_started) {
+			m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		} else {
+			// std::seed_seq::generate() always yields the same values, so we
+			// need new entropy in order not to hand out the same seeds again
+			std::array<seed_type, 16> entropy{};
+			std::generate(entropy.begin(), entropy.end(), [this]() { return m_nondet_rng(); });
+			std::seed_seq refill_seq(entropy.begin(), entropy.end());
+			refill_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		}
 		m_seed_cit=m_seed_collection.begin();
 		m_seeding_has_started.store(true);
 	}
-- 
2.43.0


From fcd9e9d47827a157b48b108def401db0c0217bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 07/60] fix: remember the new number of producer threads when
 increasing it at run time

---
 src/hap/GRandomFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index be1b0a6..e3b5d4a 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -218,6 +218,7 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 					[this]() { this->producer(this->getSeed()); }
 				);
 			}
+			m_n_producer_threads = nProducerThreads_local;
 		} else if (nProducerThreads_local < m_n_producer_threads.load()) { // We need to remove threads
 			glogger
 				<< "In GRandomFactory::setNProducerThreads(" << nProducerThreads << "): Warning!" << std::endl
-- 
2.43.0


From 412fd2e45be5862783c43b26473a75cf1ac20da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 08/60] fix: random factory: no unjoined producers and no
 endless wait for numbers after finalization

---
 src/hap/GRandomFactory.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index e3b5d4a..514a24a 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -104,7 +104,9 @@ void GRandomFactory::init() { /* nothing */ }
  * second time. It can thus be called as often as you wish.
  */
 void GRandomFactory::finalize() {
-	// Only allow one finalization action to be carried out
+	// Only allow one finalization action to be carried out, and
+	// do not let anybody start new threads in the meantime
+	std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
 	if (m_finalized) return;
 
 	// Flag all threads to stop
@@ -200,6 +202,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 		// could go into the "not-running" state, so we do not need
 		// to check again using DCLP .
 		std::unique_lock<std::mutex> lk(m_thread_creation_mutex);
+		// No new threads may be started after finalization, as nobody would join them
+		if(m_finalized) return;
 		// Make a suggestion for the number of threads, if requested
 		std::uint16_t nProducerThreads_local = DEFAULT01PRODUCERTHREADS;
 		if(0 == nProducerThreads) {
@@ -231,6 +235,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 	} else { // Double-checked locking pattern
 		// Here it appears that no threads were running. We do need to check again, though (DLCP)
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
+		// No new threads may be started after finalization, as nobody would join them
+		if(m_finalized) return;
 		// Make a suggestion for the number of threads, if requested
 		std::uint16_t nProducerThreads_local = DEFAULT01PRODUCERTHREADS;
 		if(nProducerThreads == 0) {
@@ -279,7 +285,7 @@ std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() {
 	// Start the producer threads upon first access to this function
 	if (not m_threads_started) {
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
-		if (not m_threads_started) { // double checked locking pattern
+		if (not m_threads_started && not m_finalized) { // double checked locking pattern
 			//---------------------------------------------------------
 			for (std::uint16_t i = 0; i < m_n_producer_threads.load(); i++) {
 				m_producer_threads.create_thread(
@@ -299,6 +305,13 @@ std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() {
 		// nothing - our way of signaling a time out
 		// is to return an empty std::unique_ptr
 		p = std::unique_ptr<random_container>();
+
+		// If there are no producers (left), nobody will ever fill the buffer
+		// again, so the package needs to be created right here
+		if(m_threads_stop_requested) {
+			G_BASE_GENERATOR mt(this->getSeed());
+			p.reset(new random_container(mt));
+		}
 	}
 
 	return p;
-- 
2.43.0


From adfb2951884df0d2961552fe772acf124d13687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 09/60] fix: do not report work items as processed whose
 processing has flagged an error

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..73948b3 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // Do not overwrite an error that was flagged by the user-code (see force_set_error())
+			 if(processingStatus::ERROR_FLAGGED != m_processing_status) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From 7fae693793a9e74f8ddf92fd35331fa935e93198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 10/60] fix: local consumers survive the departure of a
 submitter whose items are being processed

---
 include/courtier/GSerialConsumerT.hpp    | 9 ++++++++-
 include/courtier/GStdThreadConsumerT.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GSerialConsumerT.hpp b/include/courtier/GSerialConsumerT.hpp
index 84eaf19..01eb2af 100644
--- a/include/courtier/GSerialConsumerT.hpp
+++ b/include/courtier/GSerialConsumerT.hpp
@@ -251,7 +251,14 @@ private:
 				 , [this](
 					 std::shared_ptr<processable_type> p
 					 , const std::chrono::milliseconds& timeout
-				 ) -> void { m_broker_ptr->put(p, timeout); }
+				 ) -> void {
+				 	 try {
+				 		 m_broker_ptr->put(p, timeout);
+				 	 } catch(const Gem::Courtier::buffer_not_present&) {
+				 		 // The submitter of this item has disappeared (the broker has emitted a warning).
+				 		 // This only concerns this item, which is discarded. The worker needs to continue.
+				 	 }
+				 }
 				 //----------------------
 				 , [this]() -> bool { return this->stopped(); }
 				 //----------------------
diff --git a/include/courtier/GStdThreadConsumerT.hpp b/include/courtier/GStdThreadConsumerT.hpp
index 8cde55a..adc5fa5 100644
--- a/include/courtier/GStdThreadConsumerT.hpp
+++ b/include/courtier/GStdThreadConsumerT.hpp
@@ -341,7 +341,14 @@ private:
 					 , [this](
 						 std::shared_ptr<processable_type> p
 						 , const std::chrono::milliseconds& timeout
-					 ) -> void { m_broker_ptr->put(p, timeout); }
+					 ) -> void {
+					 	 try {
+					 		 m_broker_ptr->put(p, timeout);
+					 	 } catch(const Gem::Courtier::buffer_not_present&) {
+					 		 // The submitter of this item has disappeared (the broker has emitted a warning).
+					 		 // This only concerns this item, which is discarded. The worker needs to continue.
+					 	 }
+					 }
 					 //----------------------
 					 , [this]() -> bool { return this->stopped(); }
 					 //----------------------
-- 
2.43.0


From ef5e00e38d005aa315c3b39b6cebdaed00dce263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 11/60] fix: strict weak ordering when sorting old work items

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..bb99757 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -620,7 +620,7 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return x_ptr->getCollectionPosition() < y_ptr->getCollectionPosition();
 			 }
 		 );
 		 // Remove duplicates
-- 
2.43.0


From 839a16cf153d9c2e106deb45f88d442250506359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 12/60] fix: GMTExecutorT must not turn processing errors into
 fatal ones in release builds

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index bb99757..9c0956e 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1654,13 +1654,13 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
 				 // these are also stored in the processing item. We do try to create a sort
 				 // of stack trace by emitting a warning, though. Processing errors should be rare,
 				 // so might hint at some problem.
+#ifdef DEBUG
 				 glogger
 					 << "In GMTExecutorT<processable_type>::waitForReturn():" << std::endl
 					 << "Caught a g_processing_exception exception while retrieving a future" << std::endl
-- 
2.43.0


From 3b2c9b1c9be759a03f3bfc912204cbb8e9f4138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 13/60] fix: a wait factor <= 0 means "no timeout", also if it
 is negative

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 9c0956e..84ab834 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2147,7 +2147,7 @@ protected:
 	 ) override {
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From 233a5c791fee4cfc13be3cd03257d115ca050646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 14/60] fix: workOn() must not wait for ever if no work item is
 due for processing

---
 include/courtier/GExecutorT.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 84ab834..f5604d8 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -302,10 +302,11 @@ public:
 
 			 // Wait for work items to complete. This function needs to
 			 // be re-implemented in derived classes.
-			 auto current_status = waitForReturn(
-				 workItems
-				 , m_old_work_items_cnt
-			 );
+			 // There is nothing to wait for if no work items were due for processing.
+			 auto current_status =
+				 (m_expectedNumber > 0)?
+				 waitForReturn(workItems, m_old_work_items_cnt):
+				 this->checkExecutionState(workItems);
 
 			 // There may not be errors during resubmission, so we need to save the "error state"
 			 if (current_status.is_complete) status.is_complete = true;
@@ -783,7 +784,9 @@ protected:
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
 		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 if(0 == nSubmittedItems) {
+			 m_approx_cycle_start_time = this->now();
+		 } else if(this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
-- 
2.43.0


From cd2cf0a0a8621272cc57156df648fa28350b3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 15/60] fix: resubmission of missing work items must not fail
 because other items have returned with errors

---
 include/courtier/GExecutorT.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index f5604d8..baf8910 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -770,7 +770,11 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(
+				 processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps
+				 // Items may have come back with errors in an earlier cycle of the same iteration
+				 && not (m_nResubmissions > 0 && w_ptr->has_errors())
+			 ) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From 6310569e11787998a9045e0debea7d7b29d5787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 16/60] fix: late items of earlier iterations must not trigger
 the calculation of return times of the current cycle

---
 include/courtier/GExecutorT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index baf8910..315c3dd 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2246,7 +2246,8 @@ private:
 
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 // No average return time may be calculated before the first item of this cycle has returned
+			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
-- 
2.43.0


From 50f31a30efc7d4567a9f89fdce82d22a9a741094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 17/60] fix: compare percentages with percentages in
 minPartialReturnRateReached()

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 315c3dd..db59a92 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2399,7 +2399,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From a4fcd379a32cb19426f2cd1ce03f454f976a0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 18/60] fix: broker executor: accept failed first work items
 instead of waiting for ever, base timeouts on the first processed one

---
 include/courtier/GExecutorT.hpp | 101 ++++++++++++--------------------
 1 file changed, 39 insertions(+), 62 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index db59a92..8695660 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2241,15 +2241,15 @@ private:
 				 , oldWorkItems
 			 );
 
-			 // No need to continue if all currently submitted work items have returned
-			 if(status.is_complete) break;
-
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
 			 // No average return time may be calculated before the first item of this cycle has returned
 			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
+
+			 // No need to continue if all currently submitted work items have returned
+			 if(status.is_complete) break;
 		 } while(not halt());
 
 		 // Check for the processing flags and derive the is_complete and has_errors states
@@ -2340,6 +2340,9 @@ private:
 		 // The actual timeout calculation
 		 m_maxTimeout = m_waitFactor * (avgReturnTime * this->getExpectedNumber() + maxProcessingTime);
 
+		 // We may use timeouts from now on
+		 m_first_retrieval = false;
+
 		 //-----------------------------------------------
 		 // Let the audience know in DEBUG mode
 #if defined(DEBUG) && defined(VERBOSETIMEOUTS)
@@ -2376,8 +2379,9 @@ private:
 	  * Checks for halt criteria
 	  */
 	 bool halt() {
-		 // Timeout checks and update of timeout variables
-		 if(this->timeout()) return true;
+		 // Timeout checks and update of timeout variables. There is no
+		 // timeout before the first successfully processed item has returned.
+		 if(not this->firstRetrieval() && this->timeout()) return true;
 
 		 // For some algorithms, a partial return rate suffices
 		 if(this->minPartialReturnRateReached()) return true;
@@ -2429,40 +2433,35 @@ private:
 	 std::shared_ptr<processable_type> getNextItem() {
 		 std::shared_ptr<processable_type> w_ptr;
 
-		 // Wait indefinitely for a processed item, if this is the very first individual retrieved.
+		 // Wait indefinitely for an item, if no processed individual was retrieved so far.
 		 // We have no information on which we might base a timeout.
 		 if(this->firstRetrieval()) {
-			 do {
-				 // Wait indefinitely for the very first, successfully processed individual
-				 w_ptr = this->retrieve();
-
-				 // It is a severe error if we get an empty pointer here
-				 if (not w_ptr) {
-					 throw gemfony_exception(
-						 g_error_streamer(
-							 DO_LOG
-							 , time_and_place
-						 )
-							 << "In GBrokerExecutorT<processable_type>::getNextItem(): Received empty first individual"
-							 << std::endl
-					 );
-				 }
+			 // Wait indefinitely for the next individual
+			 w_ptr = this->retrieve();
 
-				 // We do accept unsuccessfully processed items, but emit
-				 // a warning, as this should be a very rare case
-				 if(w_ptr->is_processed()) {
-					 break;
-				 } else { // unprocessed or has an error
-					 glogger
-						 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
-						 << "Received \"first\" individual which is either" << std::endl
-						 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
-						 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
-						 << "The item will be discarded. As this should be a rare occurance," << std::endl
-						 << "we do emit a warning here." << std::endl
-						 << GWARNING;
-				 }
-			 } while(true);
+			 // It is a severe error if we get an empty pointer here
+			 if (not w_ptr) {
+				 throw gemfony_exception(
+					 g_error_streamer(
+						 DO_LOG
+						 , time_and_place
+					 )
+						 << "In GBrokerExecutorT<processable_type>::getNextItem(): Received empty first individual"
+						 << std::endl
+				 );
+			 }
+
+			 // We do accept unsuccessfully processed items, but emit
+			 // a warning, as this should be a very rare case
+			 if(not w_ptr->is_processed()) { // unprocessed or has an error
+				 glogger
+					 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
+					 << "Received \"first\" individual which is either" << std::endl
+					 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
+					 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
+					 << "As this should be a rare occurance, we do emit a warning here." << std::endl
+					 << GWARNING;
+			 }
 		 } else { // not the first individual in the first iteration
 			 // Calculate the timeout
 			 std::chrono::duration<double> remainingTime = this->remainingTime();
@@ -2498,33 +2497,11 @@ private:
 
 	 /***************************************************************************/
 	 /**
-	  * Checks whether any calls to "retrieve() have been made yet This is identical
-	  * to the first call to this function, so we simply check and set a boolean
-	  * indicating whether this is the first retrieval.
+	  * Checks whether we are still waiting for the very first, successfully processed
+	  * work item. Up to this point there is no information on which a timeout may be based.
 	  */
 	 bool firstRetrieval() const {
-		 if(m_first_retrieval) {
-#ifdef DEBUG
-			 if((not this->inFirstIteration() || not this->inFirstCycle() || 0<m_nReturnedCurrent)) {
-				 throw gemfony_exception(
-					 g_error_streamer(
-						 DO_LOG
-						 , time_and_place
-					 )
-						 << "In GBrokerExecutorT<processable_type>::firstRetrieval():" << std::endl
-						 << "Got true==m_first_retrieval, while one of the preconditions isn't met:" << std::endl
-						 << "this->inFirstIteration() : " << this->inFirstIteration() << std::endl
-						 << "this->inFirstCycle()     :" << this->inFirstCycle() << std::endl
-						 << "m_nReturnedCurrent       :" << m_nReturnedCurrent << " (we expect 0)" << std::endl
-				 );
-			 }
-#endif
-
-			 m_first_retrieval = false;
-			 return true;
-		 } else {
-			 return false;
-		 }
+		 return m_first_retrieval;
 	 }
 
 	 /***************************************************************************/
@@ -2673,7 +2650,7 @@ private:
 
 	 bool m_capable_of_full_return = false; ///< Indicates whether the broker may return results without losses
 
-	 mutable bool m_first_retrieval = true; ///< Indicates whether any retrievals have taken place so far
+	 bool m_first_retrieval = true; ///< Indicates whether we are still waiting for the first, successfully processed work item
 	 mutable bool m_first_item = true; ///< Indicates whether we are dealing with the very first individual
 
 	 Gem::Common::GPlotDesigner m_gpd; ///< A wrapper for the plots
-- 
2.43.0


From a0a8f2cbaacbb4b284e6468d0b343d8fea6d4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 19/60] fix: broker: remove the same orphaned ports from both
 collections

---
 include/courtier/GBrokerT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index a657176..8cc7c28 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -230,9 +230,11 @@ public:
 		 }
 #endif
 
+		 // Producers may disconnect at any time, so we remove exactly those ports from the
+		 // second collection that were removed from the first one.
 		 std::size_t nErasedProc = Gem::Common::erase_if(
 			 m_ProcessedBuffers
-			 , [](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (not p.second->is_connected_to_producer()); }
+			 , [this](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (m_RawBuffers.find(p.first) == m_RawBuffers.end()); }
 		 ); // m_ProcessedBuffers is a std::map, so items are of type std::pair
 
 #ifdef DEBUG
-- 
2.43.0


From d598a3e58635a56706de75fa0e54635736cd787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 20/60] fix: broker executor: late items of earlier iterations
 and the calculation of timeouts

---
 include/courtier/GExecutorT.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 8695660..cf9f7dc 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2243,8 +2243,9 @@ private:
 
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
-			 // No average return time may be calculated before the first item of this cycle has returned
-			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
+			 // As no average return time can be calculated before the first item of this cycle has
+			 // returned, late items of earlier cycles only count if there is no other information.
+			 if(w_ptr->is_processed() && (m_nReturnedCurrent > 0 || this->firstRetrieval())) {
 				 this->updateTimeout(w_ptr);
 			 }
 
@@ -2322,16 +2323,8 @@ private:
 		 }
 
 		 // Calculate the average return time so far. This holds true also for the very first item
-#ifdef DEBUG
-		 if(0==m_nReturnedCurrent) {
-			 throw gemfony_exception(
-				 g_error_streamer(DO_LOG, time_and_place)
-					 << "In GBrokerExeuctorT<processable_type>::updateTimeout():" << std::endl
-					 << "m_nReturnedCurrent is 0" << std::endl
-			 );
-		 }
-#endif
-		 std::chrono::duration<double> avgReturnTime = currentElapsed / boost::numeric_cast<double>(m_nReturnedCurrent);
+		 std::chrono::duration<double> avgReturnTime
+			 = currentElapsed / boost::numeric_cast<double>((std::max)(m_nReturnedCurrent, std::size_t(1)));
 
 		 // Retrieve the current maximum processing time
 		 std::chrono::duration<double> maxProcessingTime((boost::accumulators::max)(m_acc_max));
-- 
2.43.0


From 8e49bc9094325b881e97d5b5f920d3490027b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 21/60] fix: failing work items must not terminate remote
 clients

---
 include/courtier/GCommandContainerT.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index d11bc85..3deac86 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -187,13 +187,21 @@ public:
 
 	 //-------------------------------------------------------------------------
 	 /**
-	  * Processing of the payload (if any)
-	  *
-	  * // TODO: Check for errors during processing
+	  * Processing of the payload (if any). Errors during the processing of the
+	  * payload are stored inside of the payload and are meant to be reported to
+	  * the submitter of the payload. They must not terminate the caller.
 	  */
 	 void process() {
 		 if(m_payload_ptr) {
-			 m_payload_ptr->process();
+			 try {
+				 m_payload_ptr->process();
+			 } catch(const g_processing_exception&) {
+				 // The payload has been marked as erroneous and holds the error description
+				 glogger
+					 << "In GCommandContainerT<processable_type, command_type>::process():" << std::endl
+					 << "Processing of the payload has failed. The error will be reported to the submitter." << std::endl
+					 << GLOGGING;
+			 }
 		 } else {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG,  time_and_place)
-- 
2.43.0


From 110e3240558db32bd41936ffed421e75d8f6877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 22/60] fix: remote transports: transfer complete archives and
 reject incomplete ones

---
 include/courtier/GCommandContainerT.hpp | 68 +++++++++++++++++++------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index 3deac86..aad11a7 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -239,31 +239,37 @@ std::string container_to_string(
 		switch (serMode) {
 			case Gem::Common::serializationMode::TEXT: {
 				std::ostringstream oss;
-				boost::archive::text_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{ // The archive writes its closing marks upon destruction
+					boost::archive::text_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				}
 				return oss.str();
 			} break; // archive and stream closed at end of scope
 
 			case Gem::Common::serializationMode::XML: {
 				std::ostringstream oss;
-				boost::archive::xml_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{ // The archive writes its closing marks upon destruction
+					boost::archive::xml_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				}
 				return oss.str();
 			} break;
 
 			case Gem::Common::serializationMode::BINARY: {
 				std::ostringstream oss(std::ios_base::binary);
-				boost::archive::binary_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{ // The archive writes its closing marks upon destruction
+					boost::archive::binary_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				}
 				return oss.str();
 			} break;
 		}
@@ -322,6 +328,38 @@ void container_from_string(
 ) {
 	container.reset();
 
+	// A message that was cut off may still parse, e.g. if the cut is located inside
+	// of the last number of a text archive. Parsing an incomplete xml archive may even
+	// end in an exception in the destructor of the archive. Hence make sure up-front that
+	// the closing mark of the archive is present (an incomplete binary archive
+	// is detected by the archive itself).
+	const std::string xml_mark("</boost_serialization>");
+	const auto last = descr.find_last_not_of("\r\n");
+
+	if(
+		(
+			Gem::Common::serializationMode::TEXT == serMode
+			&& (descr.empty() || '\n' != descr.back())
+		) || (
+			Gem::Common::serializationMode::XML == serMode
+			&& (
+				std::string::npos == last
+				|| last + 1 < xml_mark.size()
+				|| 0 != descr.compare(last + 1 - xml_mark.size(), xml_mark.size(), xml_mark)
+			)
+		)
+	) {
+		throw gemfony_exception(
+			g_error_streamer(
+				DO_LOG
+				, time_and_place
+			)
+				<< "In container_from_string(GCommandContainerT<>):" << std::endl
+				<< "Got incomplete message" << std::endl
+				<< "with serializationMode == " << Gem::Common::serModeToString(serMode) << std::endl
+		);
+	}
+
 	try {
 		switch(serMode) {
 			case Gem::Common::serializationMode::TEXT: {
-- 
2.43.0


From bfe0c2493994f930be51e753d975fe09d79d3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 23/60] fix: asio transport: a connection lost while shutting
 it down must not terminate the process

---
 include/courtier/GAsioConsumerT.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 1f8fd2c..dc2ec7a 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -315,7 +315,9 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the server side indicating that all data was written.
-		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send);
+		 // A connection that is already gone will be reported by the read operation.
+		 boost::system::error_code shutdown_ec;
+		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message -- no longer needed
 		 m_outgoing_message_str.clear();
@@ -639,7 +641,9 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the client-side indicating that all data was written.
-		 m_socket.shutdown(boost::asio::socket_base::shutdown_send);
+		 // There is nothing left to be done if the client has already gone away.
+		 boost::system::error_code shutdown_ec;
+		 m_socket.shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message string, no longer needed
 		 m_outgoing_message_str.clear();
-- 
2.43.0


From e80aadb17ddcebc531b3b3abb59d2e7f87477e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 24/60] fix: asio client: terminate in an orderly way when the
 answer of the server is incomplete

---
 include/courtier/GAsioConsumerT.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index dc2ec7a..5ce9bd7 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -383,11 +383,24 @@ private:
 	  */
 	 void async_process_request(){
 		 // Extract the string from the buffer and de-serialize the object
-		 Gem::Courtier::container_from_string(
-			 m_incoming_message_str
-			 , m_command_container
-			 , m_serialization_mode
-		 ); // may throw
+		 try {
+			 Gem::Courtier::container_from_string(
+				 m_incoming_message_str
+				 , m_command_container
+				 , m_serialization_mode
+			 ); // may throw
+		 } catch(const std::exception& e) { // Also covers gemfony_exception and Boost exceptions
+			 glogger
+				 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+				 << "Got incomplete or invalid message from the server:" << std::endl
+				 << e.what() << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GLOGGING;
+
+			 // Terminate operation and return
+			 this->shutdown();
+			 return;
+		 }
 
 		 // Clear the buffer, so we may later fill it with data to be sent
 		 m_incoming_message_str.clear();
-- 
2.43.0


From 74bc7487701b0d3401545b5aafcba7104dcbc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 25/60] fix: networked consumers: discard results of vanished
 originators without punishing the client

---
 include/courtier/GAsioConsumerT.hpp      | 16 +++++++++++++---
 include/courtier/GWebsocketConsumerT.hpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 5ce9bd7..b9de4e0 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -1129,12 +1129,22 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The originator of the item is gone, e.g. because the item was
+			 // returned too late. This must not affect the client.
 			 glogger
 				 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
+				 << "The originator of the work item is no longer present" << std::endl
 				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+				 << GLOGGING;
 		 }
 	 }
 
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 072a0f5..a83e2b0 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1428,12 +1428,22 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The originator of the item is gone, e.g. because the item was
+			 // returned too late. This must not affect the client.
 			 glogger
 				 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
+				 << "The originator of the work item is no longer present" << std::endl
 				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+				 << GLOGGING;
 		 }
 	 }
 
-- 
2.43.0


From 0ad9a951317ff16deca921740071721644a4129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 26/60] fix: networked consumers: give up port and connections
 when shut down and released

---
 include/courtier/GAsioConsumerT.hpp      | 12 +++++++++---
 include/courtier/GWebsocketConsumerT.hpp | 14 ++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index b9de4e0..7ce3a58 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -928,6 +928,10 @@ protected:
 		 for (auto &t: m_context_thread_cnt) { t.join(); }
 		 m_context_thread_cnt.clear();
 
+		 // No more connections will be accepted, so give up the port
+		 boost::system::error_code ec;
+		 m_acceptor.close(ec);
+
 		 //------------------------------------------------------
 	 }
 
@@ -1063,11 +1067,13 @@ private:
 	  * Websocket-level).
 	  */
 	 void async_start_accept(){
-		 auto self = this->shared_from_this();
+		 // Note that the handler must not own the consumer: It is stored in our own
+		 // io_context, so this object would never be destroyed. All threads executing
+		 // handlers are joined before that happens.
 		 m_acceptor.async_accept(
 			 m_socket
-			 , [self](boost::system::error_code ec) {
-				 self->when_accepted(ec);
+			 , [this](boost::system::error_code ec) {
+				 this->when_accepted(ec);
 			 }
 		 );
 	 }
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index a83e2b0..f96279f 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1206,6 +1206,10 @@ protected:
 		 for (auto &t: m_io_context_thread_cnt) { t.join(); }
 		 m_io_context_thread_cnt.clear();
 
+		 // No more connections will be accepted, so give up the port
+		 boost::system::error_code ec;
+		 m_acceptor.close(ec);
+
 		 //------------------------------------------------------
 	 }
 
@@ -1340,11 +1344,13 @@ private:
 	  * Websocket-level).
 	  */
 	 void async_start_accept(){
-		 auto self = this->shared_from_this();
+		 // Note that the handler must not own the consumer: It is stored in our own
+		 // io_context, so this object would never be destroyed. All threads executing
+		 // handlers are joined before that happens.
 		 m_acceptor.async_accept(
 			 m_socket
-			 , [self](boost::system::error_code ec) {
-				 self->when_accepted(ec);
+			 , [this](boost::system::error_code ec) {
+				 this->when_accepted(ec);
 			 }
 		 );
 	 }
@@ -1503,12 +1509,12 @@ private:
 	 unsigned short m_port = GCONSUMERDEFAULTPORT; ///< The port on which the server is supposed to listen
 	 boost::asio::ip::tcp::endpoint m_endpoint{boost::asio::ip::tcp::v4(), m_port};
 	 std::size_t m_n_listener_threads = GCONSUMERLISTENERTHREADS;  ///< The number of threads used to listen for incoming connections through io_context::run()
+	 std::atomic<std::size_t> m_n_active_sessions{0}; ///< Used by the sessions owned by the io_context
 	 boost::asio::io_context m_io_context{boost::numeric_cast<int>(m_n_listener_threads)};
 	 boost::asio::ip::tcp::acceptor m_acceptor{m_io_context};
 	 boost::asio::ip::tcp::socket m_socket{m_io_context};
 	 Gem::Common::serializationMode m_serializationMode = Gem::Common::serializationMode::BINARY; ///< Specifies the serialization mode
 	 std::vector<std::thread> m_io_context_thread_cnt;
-	 std::atomic<std::size_t> m_n_active_sessions{0};
 	 std::size_t m_ping_interval = GBEASTCONSUMERPINGINTERVAL;
 	 bool m_verbose_control_frames = false; ///< Whether the control_callback should emit information when a control frame is received
 
-- 
2.43.0


From 8835e4d509d3b425aceea0ee26a49fdc0dcb9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 27/60] fix: websocket client: run() waits for its own work, is
 never destroyed from its pool thread and ends with its connection

---
 include/courtier/GWebsocketConsumerT.hpp | 178 +++++++++++++++--------
 1 file changed, 115 insertions(+), 63 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index f96279f..fd7e6b3 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -128,6 +128,16 @@ public:
 		 m_ws.write_buffer_size(16384);
 #endif
 
+#if (BOOST_VERSION >= 107000)
+		 // A peer that does not take part in the opening or closing handshake
+		 // must not block the connection indefinitely.
+		 m_ws.set_option(boost::beast::websocket::stream_base::timeout{
+			 std::chrono::seconds(30) // handshake timeout
+			 , boost::beast::websocket::stream_base::none() // idle timeout
+			 , false // no keep-alive pings
+		 });
+#endif
+
 		 // Set the transfer mode
 		 switch(m_serialization_mode) {
 			 case Gem::Common::serializationMode::BINARY:
@@ -212,8 +222,11 @@ private:
 		 // This call will block until no more work remains in the ASIO work queue
 		 m_io_context.run();
 
+		 // Processing might still be active if the connection was lost
+		 m_gtp.wait();
+
 		 // Finally close all outstanding connections
-		 do_close(m_close_code);
+		 close_socket();
 
 		 // Let the audience know that we have finished the shutdown
 		 glogger
@@ -228,8 +241,11 @@ private:
 	  * @param message The message to be transferred to the peer
 	  */
 	 void async_start_write(const std::string& message) {
-		 // Do nothing if we have been asked to stop
-		 if(this->halt()) return;
+		 // Terminate the connection if we have been asked to stop
+		 if(this->halt()) {
+			 do_close(m_close_code);
+			 return;
+		 }
 
 		 // We need to persist the message for asynchronous operations.
 		 // It is hence stored in a class variable.
@@ -253,9 +269,6 @@ private:
 	  * Starts a new read session
 	  */
 	 void async_start_read() {
-		 // Do nothing if we have been asked to stop
-		 if(this->halt()) return;
-
 		 auto self = this->shared_from_this();
 		 m_ws.async_read(
 			 m_incoming_buffer
@@ -354,6 +367,7 @@ private:
 			 m_close_code = boost::beast::websocket::close_code::going_away;
 
 			 // This will terminate the client
+			 close_socket();
 			 return;
 		 }
 
@@ -389,8 +403,8 @@ private:
 			 // Give the audience a hint why we are terminating
 			 m_close_code = boost::beast::websocket::close_code::going_away;
 
-			 // This will terminate the client
-			 // TODO: It is not quite true that this will terminate the client
+			 // Cancels the outstanding read operation. This will terminate the client
+			 close_socket();
 			 return;
 		 }
 
@@ -419,55 +433,79 @@ private:
 			 m_close_code = boost::beast::websocket::close_code::going_away;
 
 			 // This will terminate the client
+			 if(not m_closing) close_socket();
 			 return;
 		 }
 
-		 // There should be no situation where in this location processing is active
-		 if(m_processing_is_active) {
-			 throw gemfony_exception(
-				 g_error_streamer(DO_LOG,  time_and_place)
-					 << "In GWebsocketClientT<processable_type>::when_read():" << std::endl
-					 << "process_reques() is running in a location where it shouldn't be" << std::endl
-			 );
-		 }
-
-		 // Deal with the message and send a response back. Processing
-		 // of work items is done inside of process_request().
-		 try {
-			 // Start asynchronous processing of the work item.
-			 auto self = this->shared_from_this();
-			 m_gtp.async_schedule(
-				 [self]() {
-					 self->process_request();
-				 }
-			 );
+		 // Extract the string from the buffer and make room for the next message
+		 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+		 m_incoming_buffer.consume(m_incoming_buffer.size());
 
-			 async_start_read();
-		 } catch(...) {
-			 // Give the audience a hint why we are terminating
+		 // The server only sends a new message in answer to one of our own messages.
+		 if(m_processing_is_active.exchange(true)) {
 			 glogger
 				 << "In GWebsocketClientT<processable_type>::when_read():" << std::endl
-				 << "Caught exception" << std::endl
+				 << "Received a message while the last one is still being processed." << std::endl
+				 << "This will terminate the client." << std::endl
 				 << GWARNING;
 
-			 m_close_code = boost::beast::websocket::close_code::internal_error;
+			 do_close(boost::beast::websocket::close_code::protocol_error);
+			 return;
 		 }
+
+		 // Deal with the message and send a response back. Processing of work items is done
+		 // asynchronously inside of process_request(). Note that the task must not own this
+		 // object, as the thread pool must not be destroyed from one of its own threads.
+		 // run_() waits for the end of the processing.
+		 m_gtp.async_schedule(
+			 [this, message]() {
+				 this->process_request(message);
+			 }
+		 );
+
+		 // Keep reading, so control frames are being processed
+		 async_start_read();
 	 }
 
 	 //-------------------------------------------------------------------------
 	 /**
 	  * Processing of incoming messages and creation of responses takes place here
 	  */
-	 void process_request(){
-	 	 // Make it known that we are processing a new work item
-		 m_processing_is_active = true;
+	 void process_request(const std::string& message){
+		 std::string answer;
 
-		 // Extract the string from the buffer
-		 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+		 try {
+			 answer = this->get_answer(message);
+		 } catch(const std::exception& e) { // Also covers gemfony_exception and Boost exceptions
+			 glogger
+				 << "In GWebsocketClientT<processable_type>::process_request():" << std::endl
+				 << "Caught exception with message" << std::endl
+				 << e.what() << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GWARNING;
 
-		 // Clear the buffer, so we may later fill it with data to be sent
-		 m_incoming_buffer.consume(m_incoming_buffer.size());
+			 boost::asio::post(
+				 m_io_context
+				 , [this]() { this->do_close(boost::beast::websocket::close_code::internal_error); }
+			 );
+			 return;
+		 }
+
+		 // Processing has finished
+		 m_processing_is_active = false;
 
+		 // Return the result. The stream may only be accessed from the thread running the io_context
+		 boost::asio::post(
+			 m_io_context
+			 , [this, answer]() { this->async_start_write(answer); }
+		 );
+	 }
+
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Processes a request and assembles the answer. May throw
+	  */
+	 std::string get_answer(const std::string& message){
 		 // De-serialize the object
 		 Gem::Courtier::container_from_string(
 			 message
@@ -513,11 +551,8 @@ private:
 			 } /* break; */  // break is unreachable
 		 }
 
-		 // Processing has finished
-		 m_processing_is_active = false;
-
 		 // Serialize the object again and return the result
-		 this->async_start_write(Gem::Courtier::container_to_string(m_command_container, m_serialization_mode));
+		 return Gem::Courtier::container_to_string(m_command_container, m_serialization_mode);
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -527,31 +562,46 @@ private:
 	  * @param cc The close code to be sent to the peer
 	  */
 	 void do_close(close_code cc) {
-		 if(m_ws.is_open()) {
-			 m_ws.close(cc);
+		 // Store the close code for later reference
+		 m_close_code = cc;
+
+		 // Only start the procedure once
+		 if(m_closing) return;
+		 m_closing = true;
+
+		 if(not m_ws.is_open()) {
+			 close_socket();
+			 return;
 		 }
 
-		 if(m_ws.next_layer().is_open()) {
-			 boost::system::error_code ec;
+		 // Perform the closing handshake. This must not block
+		 auto self = this->shared_from_this();
+		 m_ws.async_close(
+			 cc
+			 , [self](boost::system::error_code /* nothing */) {
+				 self->close_socket();
+			 }
+		 );
+	 }
 
-			 m_ws.next_layer().shutdown(socket::shutdown_both, ec);
-			 m_ws.next_layer().close(ec);
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Closes the underlying socket. This cancels all outstanding operations.
+	  */
+	 void close_socket() {
+		 boost::system::error_code ec; // Errors are to be expected if the connection was lost
 
-			 if(ec) {
-				 glogger
-					 << "In GWebsocketClientT<processable_type>::do_close():" << std::endl
-					 << "Got ec(\"" << ec.message() << "\")." << std::endl
-					 << "We will throw an exception, as there are no other options left" << std::endl
-					 << GLOGGING;
+		 m_ws.next_layer().shutdown(socket::shutdown_both, ec);
+		 m_ws.next_layer().close(ec);
 
-				 // Not much more we can do
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG,  time_and_place)
-						 << "GWebsocketClientT<processable_type>::do_close():" << std::endl
-						 << "Shutdown of next layer has failed" << std::endl
-				 );
-			 }
-		 }
+#if (BOOST_VERSION >= 107000)
+		 // No need to wait for a pending timeout
+		 m_ws.set_option(boost::beast::websocket::stream_base::timeout{
+			 boost::beast::websocket::stream_base::none()
+			 , boost::beast::websocket::stream_base::none()
+			 , false
+		 });
+#endif
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -589,6 +639,8 @@ private:
 
 	 Gem::Common::GThreadPool m_gtp{1}; ///< Holds workers doing the processing and serialization of incoming workloads
 
+	 bool m_closing = false; ///< Set once the connection is being closed. Only accessed by the thread running the io_context
+
 	 std::atomic<bool> m_processing_is_active{false}; ///< A safeguard against accidental processing of two work items
 
 	 //-------------------------------------------------------------------------
-- 
2.43.0


From 1562db2a5ffcd0f5ad5b7495d9c46c3b7eee5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 28/60] fix: websocket server: sessions are closed
 asynchronously and without exceptions, one ping at a time, all handlers in
 the session's strand

---
 include/courtier/GWebsocketConsumerT.hpp | 93 +++++++++++++++++-------
 1 file changed, 65 insertions(+), 28 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index fd7e6b3..c6e9e4c 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -689,7 +689,7 @@ public:
 		 , bool verbose_control_frames
 	 )
 		 : m_ws(std::move(socket))
-			, m_strand(io_context.get_executor())
+			, m_strand(m_ws.get_executor())
 			, m_timer(io_context, (std::chrono::steady_clock::time_point::max)())
 			, m_get_payload_item(std::move(get_payload_item))
 			, m_put_payload_item(std::move(put_payload_item))
@@ -753,6 +753,16 @@ public:
 #endif
 
 		 // ---------------------------------------------------
+#if (BOOST_VERSION >= 107000)
+		 // A peer that does not take part in the opening or closing handshake
+		 // must not block the connection indefinitely.
+		 m_ws.set_option(boost::beast::websocket::stream_base::timeout{
+			 std::chrono::seconds(30) // handshake timeout
+			 , boost::beast::websocket::stream_base::none() // idle timeout
+			 , false // no keep-alive pings
+		 });
+#endif
+
 		 // Set the transfer mode according to the defines in CMakeLists.txt
 		 // Set the transfer mode
 		 switch(m_serialization_mode) {
@@ -874,6 +884,11 @@ private:
 		 // control-frame callback
 		 m_ping_state = beast_ping_state::SENDING_PING;
 
+		 // Only one ping may be sent at the same time. A previous one might
+		 // still be active, if the peer does not accept data
+		 if(m_ping_active) return;
+		 m_ping_active = true;
+
 		 // Start the ping session
 		 m_ws.async_ping(
 			 m_ping_data
@@ -913,6 +928,8 @@ private:
 	  * @param ec The error code of a potential error
 	  */
 	 void when_ping_sent(boost::system::error_code ec) {
+		 m_ping_active = false;
+
 		 if(ec) {
 			 if(ec != boost::asio::error::operation_aborted) {
 				 glogger
@@ -943,6 +960,9 @@ private:
 			 return;
 		 }
 
+		 // Nothing to do if the connection is being closed
+		 if(m_closing) return;
+
 		 if(m_ping_state == beast_ping_state::CONNECTION_IS_ALIVE) {
 			 // Start the next ping session, if this is a healthy connection
 			 async_start_ping();
@@ -1008,7 +1028,12 @@ private:
 		 }
 
 		 // Deal with the message and send a response back
-		 async_start_write(process_request());
+		 auto answer = process_request();
+		 if(answer.empty()) { // The request could not be understood
+			 do_close(boost::beast::websocket::close_code::internal_error);
+			 return;
+		 }
+		 async_start_write(std::move(answer));
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -1055,38 +1080,45 @@ private:
 	  * @param cc A close-code to be transmitted to the peer
 	  */
 	 void do_close(boost::beast::websocket::close_code cc) {
+		 // Only start the procedure once
+		 if(m_closing) return;
+		 m_closing = true;
+
 		 // Store the close code for later reference
 		 m_close_code = cc;
 
 		 // Make sure no more pings are sent and the timer expires
 		 m_timer.cancel();
 
-		 if(m_ws.is_open()) {
-			 // Close the connection
-			 m_ws.close(cc);
+		 if(not m_ws.is_open()) {
+			 close_socket();
+			 return;
 		 }
 
-		 if(m_ws.next_layer().is_open()) {
-			 boost::system::error_code ec;
+		 // Perform the closing handshake. This must not block, as other
+		 // sessions are served from the same thread.
+		 auto self = this->shared_from_this();
+		 m_ws.async_close(
+			 cc
+			 , boost::asio::bind_executor(
+				 m_strand
+				 , [self](boost::system::error_code /* nothing */) {
+					 self->close_socket();
+				 }
+			 )
+		 );
+	 }
 
-			 // Closing the socket cancels all outstanding operations. They
-			 // will complete with boost::asio::error::operation_aborted
-			 m_ws.next_layer().shutdown(
-				 boost::asio::ip::tcp::socket::shutdown_both
-				 , ec
-			 );
-			 m_ws.next_layer().close(ec);
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Closes the underlying socket. This cancels all outstanding operations. They
+	  * will complete with boost::asio::error::operation_aborted
+	  */
+	 void close_socket() {
+		 boost::system::error_code ec; // Errors are to be expected if the connection was lost
 
-			 if (ec) {
-				 // Not much else we can do here
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG,  time_and_place)
-						 << "GWebsocketConsumerSessionT<processable_type>::do_close():" << std::endl
-						 << "Shutdown of next layer has failed" << std::endl
-						 << "Got error code " << ec.message() << std::endl
-				 );
-			 }
-		 }
+		 m_ws.next_layer().shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);
+		 m_ws.next_layer().close(ec);
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -1148,11 +1180,9 @@ private:
 			 glogger
 				 << "GWebsocketConsumerSessionT<processable_type>::process_request(): Caught exception" << std::endl
 				 << GLOGGING;
-
-			 do_close(boost::beast::websocket::close_code::internal_error);
 		 }
 
-		 // Make the compiler happy
+		 // There is no answer to this request
 		 return std::string();
 	 }
 
@@ -1180,7 +1210,7 @@ private:
 	 // Data
 
 	 boost::beast::websocket::stream<boost::asio::ip::tcp::socket> m_ws;
-	 boost::asio::strand<boost::asio::io_context::executor_type> m_strand;
+	 boost::asio::ip::tcp::socket::executor_type m_strand; ///< The strand the socket was created with
 
 	 boost::beast::multi_buffer m_incoming_buffer;
 	 std::string m_outgoing_message;
@@ -1192,6 +1222,8 @@ private:
 	 std::function<bool()> m_check_server_stopped;
 	 std::function<void(bool)> m_server_sign_on;
 
+	 bool m_closing = false; ///< Set once the connection is being closed. Only accessed from within the strand
+
 	 boost::beast::websocket::close_code m_close_code
 		 = boost::beast::websocket::close_code::normal; ///< Holds the close code when terminating the connection
 
@@ -1200,6 +1232,7 @@ private:
 	 const std::chrono::seconds m_ping_interval{GBEASTCONSUMERPINGINTERVAL}; // Time between two pings in seconds
 	 bool m_verbose_control_frames = false;
 
+	 bool m_ping_active = false; ///< Set while a ping is being sent. Only accessed from within the strand
 	 std::atomic<beast_ping_state> m_ping_state{beast_ping_state::CONNECTION_IS_ALIVE};
 	 const boost::beast::websocket::ping_data m_ping_data{};
 
@@ -1399,6 +1432,10 @@ private:
 		 // Note that the handler must not own the consumer: It is stored in our own
 		 // io_context, so this object would never be destroyed. All threads executing
 		 // handlers are joined before that happens.
+		 // All handlers of a session, including those used internally by
+		 // the websocket stream, are executed in the session's own strand
+		 m_socket = boost::asio::ip::tcp::socket(boost::asio::make_strand(m_io_context));
+
 		 m_acceptor.async_accept(
 			 m_socket
 			 , [this](boost::system::error_code ec) {
-- 
2.43.0


From 79aaf78ce13251ab100f10efbe362d16eb5d123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 29/60] fix: swarm algorithm: cope with work items lost in the
 first iteration and with neighborhoods none of whose items returned

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..15692b3 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -779,7 +779,7 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 #endif /* DEBUG */
 
 	// Add missing items to neighborhoods that are too small. We use stored copies from the
-	// last iteration to fill in the missing items, or add random items in the first iteration.
+	// last iteration to fill in the missing items, or clones of evaluated items in the first iteration.
 	// Neighborhoods with too many items are pruned. findBests() has sorted each neighborhood
 	// according to its fitness, so we know that the best items are in the front position of each
 	// neighborhood. We thus simply remove items at the end of neighborhoods that are too large.
@@ -801,7 +801,6 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 				, m_data_cnt.begin() + ((n + 1) * m_default_n_neighborhood_members + nSurplus)
 			);
 		} else { // m_n_neighborhood_members_cnt[n] < m_default_n_neighborhood_members
-			// TODO: Deal with cases where no items of a given neighborhood have returned
 			// The number of missing items
 			std::size_t nMissing = m_default_n_neighborhood_members - m_n_neighborhood_members_cnt[n];
 
@@ -824,15 +823,12 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 				}
 #endif
 
-				// Fill up with random items.
+				// Fill up with clones of the first individual of the collection. These have already been
+				// evaluated, which is required of all individuals at the end of an iteration. They will be
+				// moved away from the original in the next iteration, as each position has its own velocity.
 				for (std::size_t nM = 0; nM < nMissing; nM++) {
-					// Insert a clone of the first individual of the collection
 					m_data_cnt.insert(m_data_cnt.begin() + firstNIPos, (this->front())->clone<GParameterSet>());
 
-					// Randomly initialize the item and prevent position updates
-					(*(m_data_cnt.begin() + firstNIPos))->randomInit(activityMode::ACTIVEONLY);
-					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNoPositionUpdate();
-
 					// Set the neighborhood as required
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNeighborhood(n);
 				}
@@ -1242,6 +1238,15 @@ void GSwarmAlgorithm::runFitnessCalculation_() {
 #endif
 	}
 
+	// We cannot continue if not a single work item has returned
+	if(this->empty()) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GSwarmAlgorithm::runFitnessCalculation(): Error!" << std::endl
+				<< "Population holds no data: no work items have returned in iteration " << this->getIteration() << std::endl
+		);
+	}
+
 	//--------------------------------------------------------------------------------
 	// Sort according to the individuals' neighborhoods
 	sort(
@@ -1312,6 +1317,16 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 		std::size_t firstCounter = getFirstNIPos(n);
 		std::size_t lastCounter = getLastNIPos(n);
 
+		// It may happen that no items of a neighborhood have returned. The best known solution of this
+		// neighborhood then stays the same. As there is no such solution in the first iteration, we
+		// use the first individual of the population instead.
+		if (firstCounter == lastCounter) {
+			if (inFirstIteration()) {
+				m_neighborhood_bests_cnt.at(n) = this->front()->clone<GParameterSet>();
+			}
+			continue;
+		}
+
 		// Only partially sort the arrays
 		std::sort(
 			this->begin() + firstCounter, this->begin() + lastCounter,
-- 
2.43.0


From 9a825a90311a0140ddc48c314d8c7223e8647a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 30/60] fix: GParameterSet::crossOverWith(): no out-of-range
 cross-over position for single-valued individuals

---
 src/geneva/GParameterSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..e598209 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -695,7 +695,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 #endif /* DEBUG */
 
 	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	if (this_double_cnt.size() > 1) { // There is nothing to exchange if there is just one value
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -706,7 +706,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) { // There is nothing to exchange if there is just one value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -715,7 +715,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) { // There is nothing to exchange if there is just one value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -724,7 +724,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) { // There is nothing to exchange if there is just one value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From 319b5532e8564bc50f3a15c8c23166173ebb0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 31/60] fix: simulated annealing: do not lose the best of the
 first iteration's parents

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..2d9ed56 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -662,7 +662,10 @@ void GSimulatedAnnealing::sortSAMode() {
 		);
 		if (pPass >= 1.) {
 			this->at(np)->GObject::load(this->at(this->m_n_parents + np));
-		} else {
+		} else if (this->afterFirstIteration()) {
+			// The parents of the first iteration have only just been evaluated and are not yet known
+			// as best individuals. They may thus not be replaced by worse children, or a better
+			// solution would be forgotten.
 			double challenge =
 				this->m_uniform_real_distribution(this->m_gr, std::uniform_real_distribution<double>::param_type(0.,1.));
 			if (challenge < pPass) {
-- 
2.43.0


From d5b44b3d234ef0df525da0cfbd40823a1d1d8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 32/60] fix: swarm algorithm: a personal best is replaced by
 better solutions only, and registered for late individuals

---
 ...mizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp | 2 ++
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp     | 8 +++++---
 ...mizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp | 8 ++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
index b480cc8..46fd5fe 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
@@ -102,6 +102,8 @@ public:
     G_API_GENEVA void registerPersonalBest(std::shared_ptr<GParameterSet>);
     /** @brief Allows to retrieve the personal best individual */
     G_API_GENEVA std::shared_ptr<GParameterSet> getPersonalBest() const;
+    /** @brief Checks whether a personal best has been registered */
+    G_API_GENEVA bool hasPersonalBest() const;
     /** @brief Resets the personal best individual */
     G_API_GENEVA void resetPersonalBest();
     /** @brief Retrieve quality of personally best individual */
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 15692b3..6e3d5f0 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -496,9 +496,11 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 #endif /* DEBUG */
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
-	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+	auto traits_ptr = ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>();
+	// Individuals of the first iteration that have returned late do not have a personal best yet
+	if(not traits_ptr->hasPersonalBest() || isBetter(
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(traits_ptr->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
index 56edc9c..00bac45 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
@@ -229,6 +229,14 @@ std::shared_ptr <GParameterSet> GSwarmAlgorithm_PersonalityTraits::getPersonalBe
  * ----------------------------------------------------------------------------------
  */
 
+/******************************************************************************/
+/**
+ * Checks whether a personal best has been registered
+ */
+bool GSwarmAlgorithm_PersonalityTraits::hasPersonalBest() const {
+	return static_cast<bool>(personal_best_);
+}
+
 /******************************************************************************/
 /**
  * Resets the personally best individual by assigning a default-constructed
-- 
2.43.0


From 2dcc7b7bdb5ef55e40605b2c731e8e1a32de8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 33/60] fix: optimization algorithms: time limits are measured
 with a steady clock

---
 include/geneva/G_OptimizationAlgorithm_Base.hpp | 6 +++---
 src/geneva/G_OptimizationAlgorithm_Base.cpp     | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_Base.hpp b/include/geneva/G_OptimizationAlgorithm_Base.hpp
index e8b4114..511b528 100644
--- a/include/geneva/G_OptimizationAlgorithm_Base.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_Base.hpp
@@ -631,9 +631,9 @@ private:
     G_API_GENEVA void updateStallCounter(const std::tuple<double, double> &bestEval);
 
     /** @brief This function returns true once a given time has passed */
-    G_API_GENEVA bool timedHalt(const std::chrono::system_clock::time_point &currentTime) const;
+    G_API_GENEVA bool timedHalt(const std::chrono::steady_clock::time_point &currentTime) const;
     /** @brief This function checks whether a minimum amount of time has passed */
-    G_API_GENEVA bool minTimePassed(const std::chrono::system_clock::time_point &currentTime) const;
+    G_API_GENEVA bool minTimePassed(const std::chrono::steady_clock::time_point &currentTime) const;
 
     /** @brief This function returns true once the quality has passed a given threshold */
     G_API_GENEVA bool qualityHalt() const;
@@ -718,7 +718,7 @@ private:
         m_maxDuration = Gem::Common::duration_from_string(DEFAULTDURATION); ///< Maximum time-frame for the optimization
     std::chrono::duration<double> m_minDuration
         = Gem::Common::duration_from_string(DEFAULTMINDURATION); ///< Minimum time-frame for the optimization
-    mutable std::chrono::system_clock::time_point m_startTime; ///< Used to store the start time of the optimization. Declared mutable so the halt criteria can be const
+    mutable std::chrono::steady_clock::time_point m_startTime; ///< Used to store the start time of the optimization. Declared mutable so the halt criteria can be const
     mutable std::filesystem::file_time_type m_file_startTime; ///< Used for the touchHalt-feature, as system_clock file_time may not be comparable
     std::string m_terminationFile
         = DEFAULTTERMINATIONFILE; ///< The name of a file which, when modified after the start of the optimization run, will cause termination of the run
diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..cd84860 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -676,7 +676,7 @@ G_OptimizationAlgorithm_Base const * const G_OptimizationAlgorithm_Base::optimiz
 	m_halted = false; // general halt criterion
 
 	// Initialize the start time with the current time.
-	m_startTime = std::chrono::system_clock::now();
+	m_startTime = std::chrono::steady_clock::now();
 
 	// Initialize a file start time, as it may not be comparable with system_clock
 	m_file_startTime = Gem::Common::touch_time("geneva_file_startTime","marker",true);
@@ -1788,7 +1788,7 @@ void G_OptimizationAlgorithm_Base::updateStallCounter(const std::tuple<double, d
  *
  * @return A boolean indicating whether a given amount of time has passed
  */
-bool G_OptimizationAlgorithm_Base::timedHalt(const std::chrono::system_clock::time_point& currentTime) const {
+bool G_OptimizationAlgorithm_Base::timedHalt(const std::chrono::steady_clock::time_point& currentTime) const {
 	if((currentTime - m_startTime) >= m_maxDuration) {
 		if(m_emitTerminationReason) {
 			glogger
@@ -1806,7 +1806,7 @@ bool G_OptimizationAlgorithm_Base::timedHalt(const std::chrono::system_clock::ti
 /**
  * This function checks whether a minimum amount of time has passed
   */
-bool G_OptimizationAlgorithm_Base::minTimePassed(const std::chrono::system_clock::time_point& currentTime) const {
+bool G_OptimizationAlgorithm_Base::minTimePassed(const std::chrono::steady_clock::time_point& currentTime) const {
 	return (currentTime - m_startTime) > m_minDuration;
 }
 
@@ -1989,7 +1989,7 @@ bool G_OptimizationAlgorithm_Base::customHalt_() const {
  */
 bool G_OptimizationAlgorithm_Base::halt() const {
 	// Retrieve the current time, so all time-based functions act on the same basis
-	std::chrono::system_clock::time_point currentTime = std::chrono::system_clock::now();
+	std::chrono::steady_clock::time_point currentTime = std::chrono::steady_clock::now();
 
 	//------------------------------------------------------------------------
 	// The following halt criteria are triggered by the user. They override
-- 
2.43.0


From 1b264bb98e60e2fa1c5470537cfddc0a25f246b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 34/60] fix: parameter scan: exactly the requested number of
 random scans, no out-of-range access and no lost settings after the end of a
 scan

---
 .../G_OptimizationAlgorithm_ParameterScan.cpp      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..a896be2 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -717,7 +717,7 @@ void GParameterScan::updateSelectedParameters() {
 
 		//------------------------------------------------------------------------
 		// We do not want to exceed the boundaries of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
+		if (++indPos >= this->size()) break;
 	}
 }
 
@@ -738,11 +738,6 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
-
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
 		// been performed
@@ -759,6 +754,11 @@ void GParameterScan::randomShuffle() {
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (++indPos >= this->size()) break;
 	}
 }
 
@@ -786,8 +786,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From bb0798d94e5d16943afa3248d97ab7c663276a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 35/60] fix: swarm algorithm: load_() clones the other swarm's
 global best instead of the swarm itself

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 6e3d5f0..01fb502 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -199,7 +199,7 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
 			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
 		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
+			m_global_best_ptr = p_load->m_global_best_ptr->GObject::clone<GParameterSet>();
 		}
 	}
 	else if (p_load->inFirstIteration()) { // cp does not have a global best
-- 
2.43.0


From 246b3938c2e3e2268913af9fbe4401ff3f0f09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 36/60] fix: XML archives: valid tag names for templated base
 classes (parameter scans, constraints, factories, canvases)

---
 include/common/GCanvas.hpp                             |  6 +++---
 include/common/GPlotDesigner.hpp                       |  2 +-
 .../GExternalEvaluatorIndividual.hpp                   |  2 +-
 include/geneva/GMultiConstraintT.hpp                   |  4 ++--
 include/geneva/GParameterSetFactory.hpp                |  2 +-
 include/geneva/GParameterSetMultiConstraint.hpp        |  2 +-
 .../geneva/G_OptimizationAlgorithm_ParameterScan.hpp   | 10 +++++-----
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/common/GCanvas.hpp b/include/common/GCanvas.hpp
index 334d279..cfa7be1 100644
--- a/include/common/GCanvas.hpp
+++ b/include/common/GCanvas.hpp
@@ -999,7 +999,7 @@ class GCanvas8 : public GCanvas<8> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<8>);
+		 ar &boost::serialization::make_nvp("GCanvas_8", boost::serialization::base_object<GCanvas<8>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
@@ -1048,7 +1048,7 @@ class GCanvas16 : public GCanvas<16>
 		using boost::serialization::make_nvp;
 
 		ar
-		& BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<16>);
+		& boost::serialization::make_nvp("GCanvas_16", boost::serialization::base_object<GCanvas<16>>(*this));
 	}
 	///////////////////////////////////////////////////////////////////////
 
@@ -1098,7 +1098,7 @@ class GCanvas24 : public GCanvas<24> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<24>);
+		 ar &boost::serialization::make_nvp("GCanvas_24", boost::serialization::base_object<GCanvas<24>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..f237ac1 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -411,7 +411,7 @@ class GMarker
 
         ar
         & make_nvp(
-            "GDecorator2<dimensions::Dim2, coordinate_type>"
+            "GDecorator2_Dim2_coordinate_type"
             , boost::serialization::base_object<GDecorator<dimensions::Dim2, coordinate_type>>(*this))
         & BOOST_SERIALIZATION_NVP(m_coordinates)
         & BOOST_SERIALIZATION_NVP(m_marker)
diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index f8b3b67..c207b80 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -258,7 +258,7 @@ class GExternalEvaluatorIndividualFactory
 		 using namespace Gem::Common;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_adProb)
 		 & BOOST_SERIALIZATION_NVP(m_adaptAdProb)
 		 & BOOST_SERIALIZATION_NVP(m_minAdProb)
diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..8df02e3 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,7 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +502,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
diff --git a/include/geneva/GParameterSetFactory.hpp b/include/geneva/GParameterSetFactory.hpp
index 91839ca..d55c4e0 100644
--- a/include/geneva/GParameterSetFactory.hpp
+++ b/include/geneva/GParameterSetFactory.hpp
@@ -66,7 +66,7 @@ class GParameterSetFactory
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<Gem::Common::GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_preProcessor)
 		 & BOOST_SERIALIZATION_NVP(m_postProcessor);
 	 }
diff --git a/include/geneva/GParameterSetMultiConstraint.hpp b/include/geneva/GParameterSetMultiConstraint.hpp
index f2114da..96c8420 100644
--- a/include/geneva/GParameterSetMultiConstraint.hpp
+++ b/include/geneva/GParameterSetMultiConstraint.hpp
@@ -72,7 +72,7 @@ class GParameterSetConstraint :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<GParameterSet>);
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_GParameterSet", boost::serialization::base_object<GPreEvaluationValidityCheckT<GParameterSet>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 public:
diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..6fa0762 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -165,7 +165,7 @@ class baseScanParT
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GPODVectorT<T>)
+        & boost::serialization::make_nvp("GPODVectorT_T", boost::serialization::base_object<Gem::Common::GPODVectorT<T>>(*this))
         & BOOST_SERIALIZATION_NVP(m_var)
         & BOOST_SERIALIZATION_NVP(m_step)
         & BOOST_SERIALIZATION_NVP(m_nSteps)
@@ -443,7 +443,7 @@ class bScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<bool>);
+        & boost::serialization::make_nvp("baseScanParT_bool", boost::serialization::base_object<baseScanParT<bool>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -485,7 +485,7 @@ class int32ScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<std::int32_t>);
+        & boost::serialization::make_nvp("baseScanParT_int32_t", boost::serialization::base_object<baseScanParT<std::int32_t>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -527,7 +527,7 @@ class dScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<double>);
+        & boost::serialization::make_nvp("baseScanParT_double", boost::serialization::base_object<baseScanParT<double>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -570,7 +570,7 @@ class fScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<float>);
+        & boost::serialization::make_nvp("baseScanParT_float", boost::serialization::base_object<baseScanParT<float>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7dffbee5abe14371fbdf22a81bb5dd78b7633309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 37/60] fix: GFileLogger: do not terminate the program when a
 log file cannot be opened

---
 src/common/GLogger.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/GLogger.cpp b/src/common/GLogger.cpp
index fc2a1cc..d264d27 100644
--- a/src/common/GLogger.cpp
+++ b/src/common/GLogger.cpp
@@ -91,8 +91,8 @@ void GFileLogger::log(std::string const& msg) const {
 	else {
 		std::cerr
 		<< "In GFileLogger::log() : Error" << std::endl
-		<< "std::ofstring is in a bad state" << std::endl;
-		exit(1);
+		<< "std::ofstring is in a bad state. The message was:" << std::endl
+		<< msg;
 	}
 }
 
@@ -122,8 +122,8 @@ void GFileLogger::logWithSource(
 	else {
 		std::cerr
 		<< "In GFileLogger::logWithSource() : Error" << std::endl
-		<< "std::ofstring is in a bad state" << std::endl;
-		exit(1);
+		<< "std::ofstring is in a bad state. The message was:" << std::endl
+		<< msg;
 	}
 }
 
-- 
2.43.0


From 0268f925ce8c2cfa664e7a02469713c36e791f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 38/60] fix: report failed writes of configuration files, plots
 and canvases

---
 include/common/GCanvas.hpp    | 8 ++++++++
 src/common/GParserBuilder.cpp | 9 +++++++++
 src/common/GPlotDesigner.cpp  | 8 ++++++++
 3 files changed, 25 insertions(+)

diff --git a/include/common/GCanvas.hpp b/include/common/GCanvas.hpp
index cfa7be1..a607606 100644
--- a/include/common/GCanvas.hpp
+++ b/include/common/GCanvas.hpp
@@ -752,6 +752,14 @@ public:
 
 		 result << this->toPPM();
 		 result.close();
+
+		 if (not result) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GCanvas<>::toFile(): Error!" << std::endl
+					 << "Could not write output file " << p.string() << std::endl
+			 );
+		 }
 	 }
 
 	 /***************************************************************************/
diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 18c792d..d226446 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -547,6 +547,15 @@ void GParserBuilder::writeConfigFile(
 
 	// Close the file handle
 	ofs.close();
+
+	// Buffered data may only have been written by the call to close()
+	if (not ofs) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParserBuilder::writeConfigFile(): Error!" << std::endl
+				<< "Could not write configuration file " << configFile << std::endl
+		);
+	}
 }
 
 /******************************************************************************/
diff --git a/src/common/GPlotDesigner.cpp b/src/common/GPlotDesigner.cpp
index 8848bad..a82de99 100644
--- a/src/common/GPlotDesigner.cpp
+++ b/src/common/GPlotDesigner.cpp
@@ -3152,6 +3152,14 @@ void GPlotDesigner::writeToFile(const std::filesystem::path &fileName) {
 	std::ofstream result(fileName);
 	result << plot(fileName);
 	result.close();
+
+	if (not result) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG, time_and_place)
+				<< "In GPlotDesigner::writeToFile(): Error!" << std::endl
+				<< "Could not write output file " << fileName.string() << std::endl
+		);
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From f6a1ecbd6fe6490115dbd37ad572110da515287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 39/60] fix: checkpoints: a checkpoint appears under its name
 once it is complete, and does not remove itself

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index cd84860..b3afe71 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -265,7 +265,8 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 		saveCheckpoint(output_file);
 
 		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// (unless it has just been replaced by the new one)
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
@@ -1536,7 +1537,19 @@ std::vector<std::shared_ptr<GParameterSet>> G_OptimizationAlgorithm_Base::getOld
  * Saves the state of the class to disc
  */
 void G_OptimizationAlgorithm_Base::saveCheckpoint(std::filesystem::path const& outputFile) const {
-	this->toFile(outputFile, this->getCheckpointSerializationMode());
+	// Write to a temporary file first, so that a file with the name of a checkpoint is always complete,
+	// even if the program is terminated while it is being written or if the disk is full
+	std::filesystem::path tmpFile = outputFile;
+	tmpFile += ".tmp";
+
+	try {
+		this->toFile(tmpFile, this->getCheckpointSerializationMode());
+		std::filesystem::rename(tmpFile, outputFile);
+	} catch(...) {
+		std::error_code ec;
+		std::filesystem::remove(tmpFile, ec);
+		throw;
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From 326ccb1a3e08c7b13c3662de9dcbe9f0c8db9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 40/60] fix: GCommonInterfaceT: report incomplete writes to
 files and reject incomplete archives

---
 include/common/GCommonInterfaceT.hpp | 58 +++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 53b012f..3459c77 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -40,6 +40,8 @@
 #include "common/GGlobalDefines.hpp"
 
 // Standard header files go here
+#include <iterator>
+#include <sstream>
 #include <string>
 #include <filesystem>
 #include <fstream>
@@ -173,9 +175,41 @@ public:
     ) {
         g_class_type *local = nullptr;
 
+        // An archive that was cut off may still parse, e.g. if the cut is located inside of the last
+        // number of a text archive. Parsing an incomplete xml archive may even end in an exception in
+        // the destructor of the archive. Hence make sure up-front that the closing mark of the archive
+        // is present (an incomplete binary archive is detected by the archive itself).
+        std::istringstream complete_istr;
+        if (Gem::Common::serializationMode::BINARY != serMod) {
+            const std::string xml_mark("</boost_serialization>");
+            std::string descr{std::istreambuf_iterator<char>(istr), std::istreambuf_iterator<char>()};
+            const auto last = descr.find_last_not_of(" \t\r\n");
+
+            if (
+                (Gem::Common::serializationMode::TEXT == serMod && (descr.empty() || '\n' != descr.back()))
+                || (Gem::Common::serializationMode::XML == serMod && (
+                    std::string::npos == last
+                    || last + 1 < xml_mark.size()
+                    || 0 != descr.compare(last + 1 - xml_mark.size(), xml_mark.size(), xml_mark)
+                ))
+            ) {
+                throw gemfony_exception(
+                    g_error_streamer(
+                        DO_LOG
+                        , time_and_place
+                    )
+                        << "In GCommonInterfaceT::fromStream(): Error!" << std::endl
+                        << "Got incomplete data with serializationMode == "
+                        << Gem::Common::serModeToString(serMod) << std::endl
+                );
+            }
+
+            complete_istr.str(descr);
+        }
+
         switch (serMod) {
             case Gem::Common::serializationMode::TEXT: {
-                boost::archive::text_iarchive ia(istr);
+                boost::archive::text_iarchive ia(complete_istr);
                 ia >> boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
@@ -185,7 +219,7 @@ public:
                 break;
 
             case Gem::Common::serializationMode::XML: {
-                boost::archive::xml_iarchive ia(istr);
+                boost::archive::xml_iarchive ia(complete_istr);
                 ia >> boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
@@ -294,12 +328,24 @@ public:
             );
         }
 
-        toStream(
-            ofstr
-            , serMod
-        );
+        // Write the data in a single operation. Archives access the stream buffer directly,
+        // so that errors might otherwise pass unnoticed
+        const std::string data = this->toString(serMod);
+        ofstr.write(data.data(), static_cast<std::streamsize>(data.size()));
         ofstr.close();
 
+        // Buffered data may only have been written by the call to close()
+        if (not ofstr) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GCommonInterfaceT::toFile():" << std::endl
+                    << "Data could not be written completely to file " << p.string() << std::endl
+            );
+        }
+
 #ifdef DEBUG
         if (not std::filesystem::exists(std::filesystem::path(p))) {
             throw gemfony_exception(
-- 
2.43.0


From 981b3d71a17fc26c38f1f533d084733172adfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 41/60] fix: parameter scan: copies of scan parameters keep
 their values and number of steps

---
 .../G_OptimizationAlgorithm_ParameterScan.hpp       | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 6fa0762..47177d0 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -208,18 +208,9 @@ public:
 
     /***************************************************************************/
     /**
-     * Copy constructor. Not defaulted, so we can avoid copying of the
-     * random number generator.
+     * Copy constructor
      */
-    baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
-        , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
-        , m_lower(cp.m_lower)
-        , m_upper(cp.m_upper)
-        , m_randomScan(cp.m_randomScan)
-        , m_typeDescription(cp.m_typeDescription)
-    { /* nothing */ }
+    baseScanParT(const baseScanParT<T> &cp) = default;
 
     /***************************************************************************/
     /**
-- 
2.43.0


From 1eaab00a4286d222eac02c74a887ca929e847708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 42/60] fix: asio client: an unexpected command or an empty
 work item ends the client instead of throwing out of run()

---
 include/courtier/GAsioConsumerT.hpp | 98 ++++++++++++++---------------
 1 file changed, 47 insertions(+), 51 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 7ce3a58..adf0518 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -389,70 +389,66 @@ private:
 				 , m_command_container
 				 , m_serialization_mode
 			 ); // may throw
-		 } catch(const std::exception& e) { // Also covers gemfony_exception and Boost exceptions
-			 glogger
-				 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
-				 << "Got incomplete or invalid message from the server:" << std::endl
-				 << e.what() << std::endl
-				 << "This will terminate the client." << std::endl
-				 << GLOGGING;
 
-			 // Terminate operation and return
-			 this->shutdown();
-			 return;
-		 }
+			 // Clear the buffer, so we may later fill it with data to be sent
+			 m_incoming_message_str.clear();
 
-		 // Clear the buffer, so we may later fill it with data to be sent
-		 m_incoming_message_str.clear();
+			 // Extract the command
+			 auto inboundCommand = m_command_container.get_command();
 
-		 // Extract the command
-		 auto inboundCommand = m_command_container.get_command();
+			 // Act on the command received
+			 switch(inboundCommand) {
+				 case networked_consumer_payload_command::COMPUTE: {
+					 // Process the work item ...
+					 m_command_container.process();
 
-		 // Act on the command received
-		 switch(inboundCommand) {
-			 case networked_consumer_payload_command::COMPUTE: {
-				 // Process the work item ...
-				 m_command_container.process();
+					 // Update the processed counter
+			       this->incrementProcessingCounter();
 
-				 // Update the processed counter
-		       this->incrementProcessingCounter();
+					 // ... and set the command for the way back to the server
+					 m_command_container.set_command(networked_consumer_payload_command::RESULT);
+				 } break;
 
-				 // ... and set the command for the way back to the server
-				 m_command_container.set_command(networked_consumer_payload_command::RESULT);
-			 } break;
+				 case networked_consumer_payload_command::NODATA: { // This must be a command payload
+				 	 // Update the nodata counter for bookkeeping
+					 m_n_nodata++;
 
-			 case networked_consumer_payload_command::NODATA: { // This must be a command payload
-			 	 // Update the nodata counter for bookkeeping
-				 m_n_nodata++;
+					 // sleep for a short while (between 50 and 200 milliseconds, randomly),
+					 // before we ask for new work.
+					 std::uniform_int_distribution<> dist(50, 200);
+					 std::this_thread::sleep_for(std::chrono::milliseconds(dist(m_rng_engine)));
 
-				 // sleep for a short while (between 50 and 200 milliseconds, randomly),
-				 // before we ask for new work.
-				 std::uniform_int_distribution<> dist(50, 200);
-				 std::this_thread::sleep_for(std::chrono::milliseconds(dist(m_rng_engine)));
+					 // Tell the server again we need work
+					 m_command_container.reset(networked_consumer_payload_command::GETDATA);
+				 } break;
 
-				 // Tell the server again we need work
-				 m_command_container.reset(networked_consumer_payload_command::GETDATA);
-			 } break;
+				 default: {
+					 throw gemfony_exception(
+						 g_error_streamer(DO_LOG,  time_and_place)
+							 << "GWebsocketClientT<processable_type>::process_request():" << std::endl
+							 << "Got unknown or invalid command " << boost::lexical_cast<std::string>(inboundCommand) << std::endl
+					 );
+				 } break;
+			 }
 
-			 default: {
-				 // Terminate operation and return
-				 this->shutdown();
+			 // Transfer the command contaner into the outgoing message string
+			 m_outgoing_message_str = Gem::Courtier::container_to_string(
+				 m_command_container
+				 , m_serialization_mode
+			 );
+		 } catch(const std::exception& e) { // Also covers gemfony_exception and Boost exceptions
+			 glogger
+				 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+				 << "Got an incomplete or invalid message or an unexpected command from the server:" << std::endl
+				 << e.what() << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GLOGGING;
 
-				 // Emit an exception
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG,  time_and_place)
-						 << "GWebsocketClientT<processable_type>::process_request():" << std::endl
-						 << "Got unknown or invalid command " << boost::lexical_cast<std::string>(inboundCommand) << std::endl
-				 );
-			 } break;
+			 // Terminate operation and return
+			 this->shutdown();
+			 return;
 		 }
 
-		 // Transfer the command contaner into the outgoing message string
-		 m_outgoing_message_str = Gem::Courtier::container_to_string(
-			 m_command_container
-			 , m_serialization_mode
-		 );
-
 		 // Asynchronously submit the container to the remote side
 		 async_start_send_chain();
 	 }
-- 
2.43.0


From 19066d08758b2bc5559cf7189e1bf3f8b4f6ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 43/60] fix: websocket client: a message received before the
 last answer was sent no longer starts a second write

---
 include/courtier/GWebsocketConsumerT.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index c6e9e4c..6052c4f 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -371,7 +371,8 @@ private:
 			 return;
 		 }
 
-		 // Send the first command to the server
+		 // Send the first command to the server. No message is expected before it was sent
+		 m_processing_is_active = true;
 		 async_start_write(
 			 Gem::Courtier::container_to_string(
 				 m_command_container.reset(networked_consumer_payload_command::GETDATA)
@@ -410,6 +411,9 @@ private:
 
 		 // Clear the outgoing message -- no longer needed
 		 m_outgoing_message.clear();
+
+		 // The server may now answer
+		 m_processing_is_active = false;
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -445,7 +449,7 @@ private:
 		 if(m_processing_is_active.exchange(true)) {
 			 glogger
 				 << "In GWebsocketClientT<processable_type>::when_read():" << std::endl
-				 << "Received a message while the last one is still being processed." << std::endl
+				 << "Received a message before the last one was answered." << std::endl
 				 << "This will terminate the client." << std::endl
 				 << GWARNING;
 
@@ -491,9 +495,6 @@ private:
 			 return;
 		 }
 
-		 // Processing has finished
-		 m_processing_is_active = false;
-
 		 // Return the result. The stream may only be accessed from the thread running the io_context
 		 boost::asio::post(
 			 m_io_context
@@ -641,7 +642,7 @@ private:
 
 	 bool m_closing = false; ///< Set once the connection is being closed. Only accessed by the thread running the io_context
 
-	 std::atomic<bool> m_processing_is_active{false}; ///< A safeguard against accidental processing of two work items
+	 std::atomic<bool> m_processing_is_active{false}; ///< A safeguard against accidental processing of two work items. Set until the answer was sent
 
 	 //-------------------------------------------------------------------------
 };
-- 
2.43.0


From eba950a67f76b3eadfd6b828e683b540959c1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 44/60] fix: EA, SA: a child left unchanged by adapt() is
 evaluated again instead of aborting the optimization

---
 ...imizationAlgorithm_EvolutionaryAlgorithm.cpp | 16 +---------------
 ...OptimizationAlgorithm_SimulatedAnnealing.cpp | 17 +----------------
 2 files changed, 2 insertions(+), 31 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..fe6fd4a 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -488,21 +488,6 @@ void GEvolutionaryAlgorithm::runFitnessCalculation_() {
 	std::tuple<std::size_t, std::size_t> range = getEvaluationRange_();
 
 #ifdef DEBUG
-	// There should be no situation in which a "clean" child is submitted
-	// through this function. There MAY be situations, where in the first iteration
-	// parents are clean, e.g. when they were extracted from another optimization.
-	for(std::size_t i=this->getNParents(); i<this->size(); i++) {
-		if(not this->at(i)->is_due_for_processing()) {
-			throw gemfony_exception(
-				g_error_streamer(DO_LOG,  time_and_place)
-					<< "In GEvolutionaryAlgorithm::runFitnessCalculation(): Error!" << std::endl
-					<< "Tried to evaluate children in range " << std::get<0>(range) << " - " << std::get<1>(range) << std::endl
-					<< "but found \"clean\" individual in position " << i << std::endl
-			);
-		}
-	}
-
-
 	if(this->size() != this->getDefaultPopulationSize()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
@@ -514,6 +499,7 @@ void GEvolutionaryAlgorithm::runFitnessCalculation_() {
 
 	//--------------------------------------------------------------------------------
 	// Set the "DO_PROCESS" flag in all required work items, the "DO_IGNORE" flag in all others.
+	// Note that this also covers "clean" children: adapt() may leave an individual unchanged.
 
 	setProcessingFlag(this->m_data_cnt, range);
 
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 2d9ed56..2cd1b30 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -391,24 +391,9 @@ void GSimulatedAnnealing::runFitnessCalculation_() {
 	// to be worked on
 	std::tuple<std::size_t, std::size_t> range = getEvaluationRange_();
 
-#ifdef DEBUG
-	// There should be no situation in which a "clean" child is submitted
-	// through this function. There MAY be situations, where in the first iteration
-	// parents are clean, e.g. when they were extracted from another optimization.
-	for(std::size_t i=this->getNParents(); i<this->size(); i++) {
-		if(not this->at(i)->is_due_for_processing()) {
-			throw gemfony_exception(
-				g_error_streamer(DO_LOG,  time_and_place)
-					<< "In GSimulatedAnnealing::runFitnessCalculation(): Error!" << std::endl
-					<< "Tried to evaluate children in range " << std::get<0>(range) << " - " << std::get<1>(range) << std::endl
-					<< "but found \"clean\" individual in position " << i << std::endl
-			);
-		}
-	}
-#endif
-
 	//--------------------------------------------------------------------------------
 	// Set the "DO_PROCESS" flag in all required work items, the "DO_IGNORE" flag in all others.
+	// Note that this also covers "clean" children: adapt() may leave an individual unchanged.
 
 	setProcessingFlag(this->m_data_cnt, range);
 
-- 
2.43.0


From 557baf547644ee2d1debffa8fb3f89fa09cd8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:39 +0000
Subject: [PATCH 45/60] fix: Go2::optimize(offset) honours its argument

---
 src/geneva/Go2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geneva/Go2.cpp b/src/geneva/Go2.cpp
index c0c0b15..3ad511c 100644
--- a/src/geneva/Go2.cpp
+++ b/src/geneva/Go2.cpp
@@ -431,7 +431,7 @@ void Go2::registerContentCreator(
  *
  * @param offset An offset at which the first algorithm should start
  */
-Go2 const * const Go2::optimize_(std::uint32_t) {
+Go2 const * const Go2::optimize_(std::uint32_t offset) {
 	// Check that algorithms have indeed been registered. If not, try to add a default algorithm
 	if (m_algorithms_cnt.empty()) {
 		if (not m_default_algorithm) {
@@ -497,8 +497,8 @@ Go2 const * const Go2::optimize_(std::uint32_t) {
 			}
 		}
 
-		// We start with a predefined iteration offset
-		m_iterations_consumed = m_offset;
+		// We start with the offset passed to this function or (by default) with a predefined iteration offset
+		m_iterations_consumed = (0 == offset) ? m_offset : offset;
 	}
 
 	// Loop over all algorithms
-- 
2.43.0


From 1243c9bc425c2ed8ef538b64e94177ec90035a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 46/60] fix: evolutionary and swarm algorithms accept more
 individuals than their population size, as handed on in a chain of algorithms

---
 ...ptimizationAlgorithm_EvolutionaryAlgorithm.cpp |  6 ++++--
 .../G_OptimizationAlgorithm_SwarmAlgorithm.cpp    | 15 ++++++---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index fe6fd4a..9e19823 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -488,11 +488,13 @@ void GEvolutionaryAlgorithm::runFitnessCalculation_() {
 	std::tuple<std::size_t, std::size_t> range = getEvaluationRange_();
 
 #ifdef DEBUG
-	if(this->size() != this->getDefaultPopulationSize()) {
+	// More individuals than needed may have been handed to us (e.g. in a chain of
+	// algorithms). selectBest_() will remove the surplus.
+	if(this->size() < this->getDefaultPopulationSize()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GEvolutionaryAlgorithm::runFitnessCalculation(): Error!" << std::endl
-				<< "Size of data vector (" << this->size() << ") should be " << this->getDefaultPopulationSize() << std::endl
+				<< "Size of data vector (" << this->size() << ") should be at least " << this->getDefaultPopulationSize() << std::endl
 		);
 	}
 #endif
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 01fb502..85b1675 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -1458,18 +1458,15 @@ void GSwarmAlgorithm::adjustPopulation_() {
 			// as it uses adjustPopulation to fix the population.
 			// MUST FIX
 		} else { // currentSize > defaultPopsize
+			// More individuals than needed may have been handed to us (e.g. in a chain of algorithms).
+			// All neighborhoods are required to have the default size, so we remove the surplus. Individuals
+			// that were already evaluated have been considered for the list of best individuals at this point.
+			this->resize(defaultPopSize);
+
 			// Update the number of individuals in each neighborhood
-			for (std::size_t n = 0; n < m_n_neighborhoods - 1; n++) {
+			for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
 				m_n_neighborhood_members_cnt[n] = m_default_n_neighborhood_members;
 			}
-
-			// Adjust the m_n_neighborhood_members_cnt array. The surplus items will
-			// be assumed to belong to the last neighborhood, all other neighborhoods
-			// have the default size.
-			// TODO: This is bad, as adjustPopulation is used to adjust sizes also during an optimization run
-			// Must remove worst items for each neighborhood individually. Also: Must make sure that. while some
-			// neighborhoods might have too many, others might have too few entries. MUST FIX.
-			m_n_neighborhood_members_cnt[m_n_neighborhoods - 1] = m_default_n_neighborhood_members + (currentSize - defaultPopSize);
 		}
 	}
 
-- 
2.43.0


From c1f0da3e5c9a8605ce07d2a844f0378c6f45fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 47/60] fix: the broker executor waits for the first work item
 of each run

---
 include/courtier/GExecutorT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index cf9f7dc..464e9f1 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1969,6 +1969,10 @@ protected:
 			 );
 		 }
 
+		 // Conditions may have changed since the last run, and in its first iteration an algorithm
+		 // depends on at least one return. Hence wait for the first work item again.
+		 m_first_retrieval = true;
+
 		 // Add the buffer port to the broker and check whether all consumers
 		 // enrolled with the broker are capable of full return
 		 m_capable_of_full_return
-- 
2.43.0


From cc4c70eeace06a56d926ac8d5f183033a90ea679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 48/60] fix: GExternalEvaluatorIndividual: serialize the run id

Individuals evaluated by networked clients passed the run id "empty" to the
external program instead of the one named in its setup data.
---
 include/geneva-individuals/GExternalEvaluatorIndividual.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index c207b80..880686a 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -152,6 +152,7 @@ class GExternalEvaluatorIndividual : public GParameterSet {
 		 & BOOST_SERIALIZATION_NVP(m_custom_options)
 		 & BOOST_SERIALIZATION_NVP(m_parameter_file_base_name)
 		 & BOOST_SERIALIZATION_NVP(m_n_results)
+		 & BOOST_SERIALIZATION_NVP(runID_)
 		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries);
 	 }
 
-- 
2.43.0


From eeb8c0e9dc60c3be92121fac55693a98e13de8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 49/60] fix: GExternalEvaluatorIndividual: provide room for all
 expected results

Storing the second result of an external program with more than one result
threw, so that every evaluation failed.
---
 src/geneva-individuals/GExternalEvaluatorIndividual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva-individuals/GExternalEvaluatorIndividual.cpp b/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
index 05b82e0..bda77c0 100644
--- a/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
+++ b/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
@@ -186,6 +186,9 @@ void GExternalEvaluatorIndividual::setNExpectedResults(const std::size_t &nResul
 	}
 
 	m_n_results = nResults;
+
+	// Make sure there is room for all results
+	this->setNStoredResults(nResults);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 2d8d3a90a819476856094338101ef276a0c490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 50/60] fix: GValidityCheckContainerT, GCheckCombinerT:
 serialize the checks

A combination of constraints lost all of its checks on the way to a networked
client or through a checkpoint, so that every individual was valid.
---
 include/geneva/GMultiConstraintT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 8df02e3..383f4f0 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this));
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +503,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & boost::serialization::make_nvp("GValidityCheckContainerT_ind_type", boost::serialization::base_object<GValidityCheckContainerT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b1e514ae61b9ed5631f2760bb8f50b2d33596b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 51/60] fix: GParameterSet::assignValueVector(): compare with
 the parameters that are assigned

In debug mode, swarms threw as soon as a parameter was excluded from adaption.
---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From f4d90331aa643f554081e88066ab5c69c97b302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 52/60] fix: GSphereConstraint: serialize the diameter

---
 include/geneva-individuals/GFunctionIndividual.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geneva-individuals/GFunctionIndividual.hpp b/include/geneva-individuals/GFunctionIndividual.hpp
index 9beb563..e71bbea 100644
--- a/include/geneva-individuals/GFunctionIndividual.hpp
+++ b/include/geneva-individuals/GFunctionIndividual.hpp
@@ -789,7 +789,8 @@ class GSphereConstraint : public GParameterSetConstraint {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint);
+		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint)
+		 & BOOST_SERIALIZATION_NVP(diameter_);
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 public:
-- 
2.43.0


From 27581488037c61e766d9270e5d48b1a948e1a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 53/60] fix: GDoubleSumGapConstraint: compare the gap

---
 src/geneva-individuals/GFunctionIndividual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 56c2ddd..5930db1 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -174,6 +174,7 @@ void GDoubleSumGapConstraint::compare_(
 
 	// ... and then the local data
 	Gem::Common::compare_t(IDENTITY(C_, p_load->C_), token);
+	Gem::Common::compare_t(IDENTITY(gap_, p_load->gap_), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
-- 
2.43.0


From 12d8124ba43ace6f3fc7c0f34431dd96218dfc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 54/60] fix: GNeuralNetworkIndividual: serialize the transfer
 function

---
 include/geneva-individuals/GNeuralNetworkIndividual.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geneva-individuals/GNeuralNetworkIndividual.hpp b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
index 4bddb96..adc5792 100644
--- a/include/geneva-individuals/GNeuralNetworkIndividual.hpp
+++ b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
@@ -368,7 +368,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 & BOOST_SERIALIZATION_NVP(tF_);
 
 		 // Load the network data from disk
 		 nD_ = GNNTrainingDataStore; // A glogal singleton
@@ -379,7 +380,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 & BOOST_SERIALIZATION_NVP(tF_);
 	 }
 
 	 BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From d1f24ed74a50e91ed6b3643d81743aeec58ace5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 55/60] fix: GProcessingTimesLogger: load the number of bins in
 y-direction

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..14cabb0 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -2260,6 +2260,7 @@ void GProcessingTimesLogger::load_(const GObject* cp) {
 	Gem::Common::copyCloneableSmartPointer(p_load->m_all_processing_times_hist2D, m_all_processing_times_hist2D);
 
 	m_nBinsX = p_load->m_nBinsX;
+	m_nBinsY = p_load->m_nBinsY;
 }
 
 /************************************************************************/
-- 
2.43.0


From 0d81b8cbb5be09316a5e54100b148f1515a201da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:40 +0000
Subject: [PATCH 56/60] fix: GGradientDescent: no step along a difference to
 the worst possible evaluation

---
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..b1ab681 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -390,6 +390,15 @@ void GGradientDescent::updateParentIndividuals() {
 			// Calculate the position of the child
 			std::size_t childPos = nStartingPoints_ + i * nFPParmsFirst_ + j;
 
+			// There is no difference quotient if one of the two candidates received the worst possible
+			// evaluation (e.g. because it violates a constraint). We stay where we are in this direction.
+			if (
+				this->at(i)->transformed_fitness(0) == this->at(i)->getWorstCase()
+				|| this->at(childPos)->transformed_fitness(0) == this->at(childPos)->getWorstCase()
+			) {
+				continue;
+			}
+
 			// Calculate the step to be performed in a given direction and
 			// adjust the parameter vector of each parent
 			try {
-- 
2.43.0


From dfdd684b5b4970a8baea8ef70c76e3366fffd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 57/60] fix: GCheckCombinerT: load the checks of the other
 object

---
 include/geneva/GMultiConstraintT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 383f4f0..02eaef6 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -657,7 +657,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
-- 
2.43.0


From f34558c545555b76b496fd85133b66629799c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 58/60] fix: GParameterSet::adapt(): an earlier attempt of
 several may have modified the object

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index e598209..1be44f8 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -817,6 +817,7 @@ std::size_t GParameterSet::adapt() {
 	std::size_t nAdaptionAttempts = 0;
 	std::size_t nAdaptions = 0; // This is a measure of the "effective" adaption probability
 	std::size_t nInvalidAdaptions = 0;
+	bool adapted = false; // Set if any of the attempts modified the object
 	double validity = 0;
 
 	// Perform adaptions until a valid solution was find. In the context
@@ -832,6 +833,7 @@ std::size_t GParameterSet::adapt() {
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
 			if ((nAdaptions = this->customAdaptions()) > 0) {
+				adapted = true;
 				break;
 			}
 
@@ -850,7 +852,7 @@ std::size_t GParameterSet::adapt() {
 	}
 
 	// Make sure the individual is re-evaluated when fitness(...) is called next time
-	if(nAdaptions > 0) {
+	if(adapted) {
 		this->mark_as_due_for_processing();
 	}
 
-- 
2.43.0


From e9cd35e6ab63f1ac26fd02f2a2c53399b6357527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 59/60] fix: Pareto dominance of an evolutionary algorithm
 considered only the primary criterion

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 9e19823..f5e39ff 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1160,12 +1160,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y, and at least one of them is better
+	bool is_better = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		double x_fitness = minOnly_transformed_fitness(x_ptr, i);
+		double y_fitness = minOnly_transformed_fitness(y_ptr, i);
+
+		if(x_fitness > y_fitness) return false;
+		if(x_fitness < y_fitness) is_better = true;
 	}
 
-	return true;
+	return is_better;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 83fc6edb4746fd64d75323b72412efef386e3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 60/60] fix: duplicates took the place of other candidates in a
 full queue of best candidates

---
 include/common/GFixedSizePriorityQueueT.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..c0acc80 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -43,6 +43,7 @@
 #include <deque>
 #include <algorithm>
 #include <functional>
+#include <set>
 
 // Boost headers go here
 #include <boost/archive/xml_oarchive.hpp>
@@ -337,7 +338,12 @@ public:
 		 // At this point, worstKnownEvaluation will be
 		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
 		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
+		 std::set<std::string> known_ids;
+		 for(auto const & item_ptr: m_data_deq) known_ids.insert(this->id(item_ptr));
 		 for(auto const & item_ptr: items) {
+			 // Duplicates may not take the place of other items
+			 if (not known_ids.insert(this->id(item_ptr)).second) continue;
+
 			 // Add the work item to the queue
 			 // - If the queue is unlimited
 			 // - If the queue isn't full yet
-- 
2.43.0

