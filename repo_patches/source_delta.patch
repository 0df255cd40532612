From 67a0080874dcb651ef0c67915f75de1cb9cfd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 01/64] fix: torus is 80x25: wrap at column 80 and row 25

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..de7fb2a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) >= 80){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) >= 25){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From b1443c1bc7d33089603bb702fbf91f325a87e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 02/64] fix: . prints the whole 64-bit value

---
 src/Unefunge93Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..e6a63c0 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -250,7 +250,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 2be1606afa11a0077d75b29d412fea432530168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 03/64] fix: ' and s transfer the whole cell

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 94ae9b24b9141ecfff25b26335be3d5c0189b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 04/64] fix: k reads the whole cell it executes

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..13d41c0 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = ip.get();
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
-- 
2.43.0


From 20a894dce6b309338191e9abc286a24880310724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 05/64] fix: 0k skips the instruction it would execute, past
 spaces and ;;

---
 src/Unefunge98Strategy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 13d41c0..31dc0ba 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -127,13 +127,14 @@ FungeError Unefunge98Strategy::instructionIterate(){
 			c = ip.get();
 		}
 	}
+	const Vector target = ip.getPos();
 	ip.setPos(v);
-	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
+	const stack_t k = stack.top().pop();
+	for(stack_t i = 0; i < k; i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-		ip.next();
+		ip.setPos(target);
 	}
 	return ERROR_NONE;
 }
-- 
2.43.0


From 52fc2c2fbab5159aab718583adc9166169017c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 06/64] fix: dividing the least value by -1 wraps instead of
 trapping

---
 src/Unefunge93Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index e6a63c0..1d8734e 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -124,7 +124,7 @@ FungeError Unefunge93Strategy::instructionRemainder(){
 	if(a == 0){
 		stack.top().push(0);
 	}else{
-		stack.top().push(b%a);
+		stack.top().push((a == -1) ? 0 : b%a);
 	}
 	return ERROR_NONE;
 }
@@ -156,7 +156,7 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	if(a == 0){
 		stack.top().push(0);
 	}else{
-		stack.top().push(b/a);
+		stack.top().push((a == -1) ? static_cast<stack_t>(0-static_cast<uint64_t>(b)) : b/a);
 	}
 	return ERROR_NONE;
 }
-- 
2.43.0


From 8e5d42ecc8698d649ce4888a399f903f5c5160a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 07/64] fix: copying a stack of stacks keeps their order

---
 src/StackStack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..e80a537 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -26,8 +26,8 @@ StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(size_t i = orig.size(); i > 0; --i){
+		stack.push_back(new Stack(orig.at(i-1)));
 	}
 }
 
-- 
2.43.0


From 19ecdb6f7586afb4bfc9dfea0d8950b6d29fea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 08/64] fix: stacks created later follow the current queue and
 invert modes

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index e80a537..3cd89d8 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -9,6 +9,7 @@
 namespace Funge {
 
 StackStack::StackStack() :
+	mode(),
 	select(0),
 	stack()
 {
@@ -23,6 +24,7 @@ StackStack::~StackStack()
 }
 
 StackStack::StackStack(const StackStack& orig) :
+	mode(orig.mode),
 	select(orig.select),
 	stack()
 {
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -82,6 +86,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..0f865cb 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -138,6 +138,7 @@ class StackStack {
 		FungeError decrement();
 		
 	private:
+		FungeMode mode;
 		size_t select;
 		std::vector<Stack*> stack;
 };
-- 
2.43.0


From b95e72d3bce11d26759da676afc8afd7578a3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 09/64] fix: bounds cover trailing zero coordinates

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..0e481f6 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,7 +258,7 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] == p[i]){
 				// scan for new max
 				dim_t max = std::numeric_limits<dim_t>::min() ;
@@ -281,7 +281,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From dd7e36368e474da7fd04a11b8460924287877ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 10/64] fix: a universe name taken twice gets the next suffix
 instead of looping forever

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 9e54e38c4121090960a152b59b09e7f45609b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 11/64] fix: DBUG binds its instructions when loaded

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..a3ef965 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -17,6 +17,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 
 void FingerprintDBUG::activate(){
 	dbg = &runner.getUniverse().getDebugger();
+	Fingerprint::activate();
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
-- 
2.43.0


From 3d11ebdcf84d275f7e04debea712fa9b86e1e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 12/64] fix: & accepts a number ended by the end of input

---
 src/Unefunge93Strategy.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 1d8734e..409346c 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -208,11 +208,10 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
-	ungetc(c, stdin);
+	if(c != EOF){
+		ungetc(c, stdin);
+	}
 	stack.top().push(num);
 	return ERROR_NONE;
 }
-- 
2.43.0


From 905d0129244779d0ddad5bf45c3318de2b29f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 13/64] fix: a universe of native threads ends when its last
 thread does

---
 src/FungeUniverse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..c90769f 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,12 +54,13 @@ FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
 
-	std::lock_guard<std::mutex> guard(mutex);
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
+		threads.pop();
 		thread->join();
 		delete thread;
 	}
+	std::lock_guard<std::mutex> guard(mutex);
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
 		delete runner;
@@ -95,6 +96,9 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
+	if(!running){
+		runner->getIP().stop();
+	}
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
 		threads.push(thread);
@@ -118,6 +122,7 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			cv.notify_all();
 			mutex.unlock();
 		}else{
 			mutex.lock();
-- 
2.43.0


From a205b7db64b67673d5210a57a5babd90b92a33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/64] fix: a pointer changing universe is handed over only
 after its instruction is complete

---
 src/FungeUniverse.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index c90769f..1990147 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -85,11 +85,9 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 
 void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+		// The thread executing the runner hands it over once the current tick is complete.
 		runner->setUniverse(*this);
 		runner->setMode(config.mode);
-		runners.push_back(runner);
-		semaphore.release();
 	}
 }
 
@@ -133,18 +131,28 @@ void FungeUniverse::operator()(){
 				if(thread->isRunning()){
 					thread->tick();
 				}
+				FungeUniverse& dest = thread->getUniverse();
+				if(&dest != this){
+					std::scoped_lock both(mutex, dest.mutex);
+					runners.pop_front();
+					if(!dest.running){
+						thread->getIP().stop();
+					}
+					dest.runners.push_back(thread);
+					dest.semaphore.release();
+					cv.notify_all();
+				}
 				mutex.lock();
+				if(&dest != this){
+					continue;
+				}
 
 				runners.pop_front();
-				if(&thread->getUniverse() == this){
-					if(thread->isRunning()){
-						runners.push_back(thread);
-					}else{
-						debug.endThread(*thread);
-						delete thread;
-						cv.notify_all();
-					}
+				if(thread->isRunning()){
+					runners.push_back(thread);
 				}else{
+					debug.endThread(*thread);
+					delete thread;
 					cv.notify_all();
 				}
 			}
-- 
2.43.0


From 952a0842322dddde47dcaaf765af993d261c3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 15/64] fix: wait for pointers that change universe, over a
 stable list of universes

---
 src/FungeMultiverse.cpp     | 26 ++++++++++++++------------
 src/FungeUniverse.cpp       |  7 +++++++
 src/include/FungeUniverse.h |  8 ++++++++
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..209af5a 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -61,31 +61,32 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 }
 
 int FungeMultiverse::waitAll(){
-	bool running = false;
-	size_t count = 0;
+	bool again = false;
 	do{
-		running = false;
-		for(auto next : universes){
-			const FungeUniverse* uni = next.second;
-			if(uni->isRunning()){
-				running = true;
-			}
-			uni->wait();
-			++count;
+		std::unique_lock<std::mutex> lock(mutex);
+		const size_t moved = FungeUniverse::transfers();
+		const auto current = universes;
+		lock.unlock();
+		for(auto next : current){
+			next.second->wait();
 		}
-		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+		// Keep looping until all universes are dead and no runner slipped by
+		lock.lock();
+		again = (moved != FungeUniverse::transfers() || current.size() != universes.size());
+	}while(again);
 
 	return prime->get();
 }
 
 void FungeMultiverse::killAll(int ret){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto next : universes){
 		next.second->killAll(ret);
 	}
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
@@ -100,6 +101,7 @@ std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse:
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 1990147..464b0d4 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -10,6 +10,8 @@
 
 namespace Funge {
 
+std::atomic<size_t> FungeUniverse::transferred(0);
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -91,6 +93,10 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 	}
 }
 
+size_t FungeUniverse::transfers(){
+	return transferred;
+}
+
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
@@ -139,6 +145,7 @@ void FungeUniverse::operator()(){
 						thread->getIP().stop();
 					}
 					dest.runners.push_back(thread);
+					++transferred;
 					dest.semaphore.release();
 					cv.notify_all();
 				}
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..55dc16b 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -94,6 +95,12 @@ class FungeUniverse {
 		 */
 		void transferRunner(FungeRunner* runner);
 
+		/**
+		 * Get the number of runners handed over to another universe so far.
+		 * @return Number of transfers.
+		 */
+		static size_t transfers();
+
 		/**
 		 * Determine how the universe was created.
 		 * @return runner that created the universe.
@@ -136,6 +143,7 @@ class FungeUniverse {
 		FungeSem semaphore;
 		mutable std::mutex mutex;
 		mutable std::condition_variable cv;
+		static std::atomic<size_t> transferred;
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
-- 
2.43.0


From 4d945ef52dc2547e48296a717c7ad1fe8b3400ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 16/64] fix: pointers that changed universe address their new
 universe's space

---
 src/Fingerprint.cpp                 |  1 -
 src/FishStrategy.cpp                |  4 ++--
 src/FungeStrategy.cpp               |  1 -
 src/Unefunge93Strategy.cpp          |  4 ++--
 src/Unefunge98Strategy.cpp          |  8 ++++----
 src/fingerprint/FingerprintJSTR.cpp |  4 ++--
 src/fingerprint/FingerprintORTH.cpp |  4 ++--
 src/fingerprint/FingerprintSTRN.cpp |  8 ++++----
 src/fingerprint/FingerprintTOYS.cpp | 28 ++++++++++++++--------------
 src/include/Fingerprint.h           |  1 -
 src/include/FungeStrategy.h         |  1 -
 11 files changed, 30 insertions(+), 34 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..9077472 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -416,7 +416,7 @@ FungeError FishStrategy::instructionGet(){
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	push(TOP, static_cast<stack_t>(field.get(v+storage)));
+	push(TOP, static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
@@ -424,7 +424,7 @@ FungeError FishStrategy::instructionPut(){
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	field.put(v+storage, pop(TOP));
+	runner.getField().put(v+storage, pop(TOP));
 	return ERROR_NONE;
 }
 
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..97eac41 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 409346c..a11ca19 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -256,14 +256,14 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 FungeError Unefunge93Strategy::instructionGet(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
+	stack.top().push(static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	field.put(v+storage, stack.top().pop());
+	runner.getField().put(v+storage, stack.top().pop());
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 31dc0ba..ddc5bcb 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -247,7 +247,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
@@ -271,7 +271,7 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		Vector vb = popVector(runner);
 		std::ofstream file(filepath);
 		if(!file.fail()){
-			field.dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
 		}else{
 			ret = ERROR_UNSPEC;
 		}
@@ -391,11 +391,11 @@ void Unefunge98Strategy::pushSysInfo(int num){
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.max(i)-field.min(i));
+		pushes += stack.top().push(runner.getField().max(i)-runner.getField().min(i));
 	}
 	// Least non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.min(i));
+		pushes += stack.top().push(runner.getField().min(i));
 	}
 	// Storage Offset
 	pushes += pushVector(runner, ip.getStorage());
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..e7d0e95 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector pos = va + ip.getStorage();
 			stack.top().push(0);
 			for( ; n > 0; --n){
-				stack.top().push(field.get(pos));
+				stack.top().push(runner.getField().get(pos));
 				pos += vd;
 			}
 		} break;
@@ -32,7 +32,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector vd = popVector(runner);
 			Vector pos = va + ip.getStorage();
 			for( ; n > 0; --n){
-				field.put(pos, stack.top().pop());
+				runner.getField().put(pos, stack.top().pop());
 				pos += vd;
 			}
 		} break;
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..acddaf8 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -29,7 +29,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t x = stack.top().pop();
 			stack_t y = stack.top().pop();
 			Vector v({x, y});
-			stack.top().push(field.get(v));
+			stack.top().push(runner.getField().get(v));
 		} break;
 		case 'O':{
 			stack_t a = stack.top().pop();
@@ -41,7 +41,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t y = stack.top().pop();
 			stack_t i = stack.top().pop();
 			Vector v({x, y});
-			field.put(v, static_cast<inst_t>(i));
+			runner.getField().put(v, static_cast<inst_t>(i));
 		} break;
 		case 'S':{
 			std::string str = popString(stack.top());
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..9d341e0 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -44,8 +44,8 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va); va += Vector{1}){
-				str += field.get(va);
+			for( ; runner.getField().get(va); va += Vector{1}){
+				str += runner.getField().get(va);
 			}
 			pushString(stack.top(), str);
 		} break;
@@ -87,10 +87,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				runner.getField().put(va, c);
 				va += Vector{1};
 			}
-			field.put(va, 0);
+			runner.getField().put(va, 0);
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..5866124 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -60,7 +60,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, stack.top().pop());
+					runner.getField().put(dest + *range, stack.top().pop());
 				}
 			}
 		} break;
@@ -70,7 +70,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(size, Vector({0}));
 				for(range.begin(); *range != range.end(); ++range){
-					stack.top().push(field.get(src + *range));
+					stack.top().push(runner.getField().get(src + *range));
 				}
 			}
 		} break;
@@ -90,8 +90,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'J':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t ymin = field.min(1);
-				dim_t ymax = field.max(1);
+				dim_t ymin = runner.getField().min(1);
+				dim_t ymax = runner.getField().max(1);
 				dim_t x = ip.getPos().get(0);
 				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
 			}
@@ -106,7 +106,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			Vector delta = ip.getDelta();
 			delta.left();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'M':{
@@ -121,8 +121,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'O':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t xmin = field.min(0);
-				dim_t xmax = field.max(0);
+				dim_t xmin = runner.getField().min(0);
+				dim_t xmax = runner.getField().max(0);
 				dim_t y = ip.getPos().get(1);
 				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
 			}
@@ -139,13 +139,13 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			delta.reverse();
 			Vector v = ip.getPos() + delta;
 			stack_t a = stack.top().pop();
-			field.put(v, a);
+			runner.getField().put(v, a);
 		} break;
 		case 'R':{
 			Vector delta = ip.getDelta();
 			delta.right();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'S':{
@@ -155,7 +155,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, i);
+					runner.getField().put(dest + *range, i);
 				}
 			}
 		} break;
@@ -215,7 +215,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'W':{
 			Vector v = popVector(runner);
 			stack_t value = stack.top().pop();
-			stack_t cell = field.get(v);
+			stack_t cell = runner.getField().get(v);
 			if(cell < value){
 				stack.top().push(value);
 				pushVector(runner, v);
@@ -267,10 +267,10 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 		}
 		VectorRange range(start, end);
 		for(range.begin(); *range != range.end(); ++range){
-			inst_t i = field.get(src + *range);
-			field.put(dest + *range, i);
+			inst_t i = runner.getField().get(src + *range);
+			runner.getField().put(dest + *range, i);
 			if(move){
-				field.put(src + *range, ' ');
+				runner.getField().put(src + *range, ' ');
 			}
 		}
 	}
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From bdc0de5c6a5387406935be39b5573daab528e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 17/64] fix: wrap a pointer outside of the bounds by its own
 line

---
 src/InstructionPointer.cpp       | 24 ++++++++++++++++++++++--
 src/include/InstructionPointer.h |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index de7fb2a..f2cfa4a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -50,6 +50,18 @@ bool InstructionPointer::inField(const Field& field) const {
 	return true;
 }
 
+bool InstructionPointer::isLeaving(const Field& field) const {
+	for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+		if(pos.get(n) > field.max(n) && delta.get(n) >= 0){
+			return true;
+		}
+		if(pos.get(n) < field.min(n) && delta.get(n) <= 0){
+			return true;
+		}
+	}
+	return false;
+}
+
 void InstructionPointer::next(){
 	if(!stopped){
 		pos += delta;
@@ -66,14 +78,22 @@ void InstructionPointer::next(){
 				pos.set(1, 24);
 			}
 		}else{
-			if(!inField(field)){
+			if(!inField(field) && isLeaving(field)){
+				// Go back along the line through the whole field
+				const Vector from = pos;
 				delta.reverse();
-				pos += delta;
+				do{
+					pos += delta;
+				}while(!inField(field) && !isLeaving(field));
+				const bool found = inField(field);
 				while(inField(field)){
 					pos += delta;
 				}
 				delta.reverse();
 				pos += delta;
+				if(!found){
+					pos = from;
+				}
 			}
 		}
 	}
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..8e9f40e 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -139,6 +139,7 @@ class InstructionPointer {
 		Vector storage;
 		
 		bool inField(const Field& field) const;
+		bool isLeaving(const Field& field) const;
 };
 
 }
-- 
2.43.0


From ae01bbd381a703f77c2a9ea2b1f383b16929263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 18/64] fix: SGML strings accept any cell value

---
 src/FungeStateString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..7880af0 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -10,6 +10,11 @@
 
 namespace Funge {
 
+// isspace() accepts only characters, a cell may hold any value.
+static bool isSpace(inst_t i){
+	return i == ' ' || (i >= '\t' && i <= '\r');
+}
+
 FungeStateString::FungeStateString(FungeRunner& r) :
 	FungeState(r),
 	end('\"'),
@@ -65,7 +70,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From b6e9dc634f5df7ed0fae9e7e85bcb68eb5dc5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 19/64] fix: reading a vector ends with the input

---
 src/Vector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..cefab93 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -172,13 +172,14 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
 	char c;
-	is >> c;
+	if(!(is >> c)){
+		return is;
+	}
 	if(c == '('){
-		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is >> c && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
@@ -195,7 +196,6 @@ std::istream& operator>>(std::istream& is, Vector& rhs){
 				is.unget();
 				break;
 			}
-			is >> c;
 		}
 		if(neg){
 			v = -v;
-- 
2.43.0


From f22a3904a079dd2164424cdfb68ea97160f5dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 20/64] fix: the debugger quits at the end of its input

---
 src/Defunge.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..7665629 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,9 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
-- 
2.43.0


From 06cccff49ad19a043b0eda5c0ac5d89fd9527cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 21/64] fix: the debugger prints the position of the pointer it
 names

---
 src/Defunge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 7665629..03e1961 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -126,7 +126,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
-- 
2.43.0


From 8ffff6b5ef83af2de193a3c8d4bfb200d77c4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 22/64] fix: peek in the debugger names each stack and rejects
 unknown ones

---
 src/Defunge.cpp       | 8 +++++++-
 src/include/Defunge.h | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 03e1961..508c333 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -117,6 +117,9 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 				case DEFUNGE_NO_THREAD:
 					std::cout << "No thread." << std::endl;
 					break;
+				case DEFUNGE_NO_STACK:
+					std::cout << "No stack." << std::endl;
+					break;
 				default:
 					std::cout << "Error" << std::endl;
 					break;
@@ -213,7 +216,7 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	iss >> c;
 	if(c == 0){
 		for(size_t j = 0; j < stack->size(); ++j){
-			std::cout << "[0] ";
+			std::cout << "[" << j << "] ";
 			for(size_t i = stack->at(j).size(); i > 0; --i){
 				std::cout << stack->at(j).get(i) << " ";
 			}
@@ -222,6 +225,9 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
+		if(s >= stack->size()){
+			return DEFUNGE_NO_STACK;
+		}
 		std::cout << stack->at(s).get(c) << std::endl;
 	}
 	return DEFUNGE_OK;
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ac12c48..ff9abeb 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -25,6 +25,7 @@ class Defunge {
 			DEFUNGE_OK,
 			DEFUNGE_BREAK,
 			DEFUNGE_NO_THREAD,
+			DEFUNGE_NO_STACK,
 		};
 
 		typedef Error (Defunge::*debugger_command_t)(std::istringstream&);
-- 
2.43.0


From 6e5e45f33fb0af53d5178d0ddda3228be79f93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 23/64] fix: the debugger prints a plane of any field, and
 nothing for an impossible one

---
 src/Defunge.cpp       | 70 ++++++++++++++++++++++---------------------
 src/include/Defunge.h |  2 ++
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 508c333..be6189b 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -136,43 +136,45 @@ void Defunge::printIP(const FungeRunner& r){
 void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
 	const Vector start = center-size;
 	const Vector end = center+size;
-	Vector pos = start;
-	while(pos <= end){
-		inst_t i = field.get(pos);
-		bool color = false;
-		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
-				std::cout << "\e[43;1m"; // Yellow background
+	if(dim[0] < 0 || dim[1] < 0 || dim[0] == dim[1] || std::max(dim[0], dim[1]) >= MAX_PRINT_DIM){
+		return;
+	}
+	for(dim_t y = start[dim[1]]; y <= end[dim[1]]; ++y){
+		for(dim_t x = start[dim[0]]; x <= end[dim[0]]; ++x){
+			Vector pos = center;
+			pos.set(dim[0], x);
+			pos.set(dim[1], y);
+			inst_t i = field.get(pos);
+			bool color = false;
+			for(auto t : dbg->threads){
+				if(t.second.state != FungeDebugger::STATE_END && t.second.runner->getIP().getPos() == pos){
+					std::cout << "\e[43;1m"; // Yellow background
+					color = true;
+					break;
+				}
+			}
+			if(dbg->breakpoints.contains(pos)){
+				std::cout << "\e[41;1m"; // Red background
 				color = true;
-				break;
+			}
+			if(dbg->watchpoints.contains(pos)){
+				std::cout << "\e[34;1m"; // Blue text
+				color = true;
+			}
+			if(pos == center){
+				std::cout << "\e[4m"; // Underline
+				color = true;
+			}
+			if(ip != nullptr && pos == ip->getPos()){
+				std::cout << "\e[42;1m"; // Green background
+				color = true;
+			}
+			std::cout << static_cast<char>(i);
+			if(color){
+				std::cout << "\e[0m";
 			}
 		}
-		if(dbg->breakpoints.contains(pos)){
-			std::cout << "\e[41;1m"; // Red background
-			color = true;
-		}
-		if(dbg->watchpoints.contains(pos)){
-			std::cout << "\e[34;1m"; // Blue text
-			color = true;
-		}
-		if(pos == center){
-			std::cout << "\e[4m"; // Underline
-			color = true;
-		}
-		if(ip != nullptr && pos == ip->getPos()){
-			std::cout << "\e[42;1m"; // Green background
-			color = true;
-		}
-		std::cout << static_cast<char>(i);
-		if(color){
-			std::cout << "\e[0m";
-		}
-		pos.set(dim[0], pos[dim[0]]+1); // ++x
-		if(pos[dim[0]] > end[dim[0]]){
-			pos.set(dim[1], pos[dim[1]]+1); // ++y
-			pos.set(dim[0], start[dim[0]]); // x = 0
-			std::cout << std::endl;
-		}
+		std::cout << std::endl;
 	}
 }
 
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ff9abeb..34da70c 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -21,6 +21,8 @@ class Defunge {
 		void debug(FungeDebugger* dbg, FungeRunner* run);
 
 	private:
+		static constexpr dim_t MAX_PRINT_DIM = 16;
+
 		enum Error {
 			DEFUNGE_OK,
 			DEFUNGE_BREAK,
-- 
2.43.0


From ce31b7311f0412334d213ce3d3f7900cf5ecc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 24/64] fix: the debugger forgets pointers that ended or left
 the universe

---
 src/Defunge.cpp             |  8 +++----
 src/FungeDebugger.cpp       | 42 ++++++++++++++++++++++++-------------
 src/FungeUniverse.cpp       |  1 +
 src/include/FungeDebugger.h |  1 +
 4 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index be6189b..83a49cb 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -276,7 +276,7 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	if(debugger->threads.contains(thread) && debugger->threads[thread].state != FungeDebugger::STATE_END){
 		tid = thread;
 		runner = debugger->threads[tid].runner;
 	}
@@ -443,11 +443,11 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
+			const auto last = debugger->threads.find(debugger->lastThread);
+			if(last == debugger->threads.end() || last->second.state == FungeDebugger::STATE_END){
 				runner = nullptr;
 			}else{
-				size_t id = debugger->lastThread;
-				runner = debugger->threads[id].runner;
+				runner = last->second.runner;
 			}
 		}
 	}
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..b4502eb 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -28,16 +28,7 @@ void FungeDebugger::tick(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
 		size_t id = runner.getID();
-		auto found = threads.find(id);
-		if(found == threads.end()){
-			threads.insert({id, Thread{
-				.runner = &runner,
-				.backtrace = {},
-				.state = FungeDebugger::STATE_START,
-			}});
-			std::cout << "New IP " << id << std::endl;
-		}
-		lastThread = id;
+		enter(runner);
 		
 		const InstructionPointer& ip = runner.getIP();
 		if(breakpoints.contains(ip.getPos())){
@@ -52,9 +43,25 @@ void FungeDebugger::tick(FungeRunner& runner){
 		Defunge::getInstance().debug(this, &runner);
 	}
 }
+
+void FungeDebugger::enter(FungeRunner& runner){
+	size_t id = runner.getID();
+	auto found = threads.find(id);
+	if(found == threads.end() || found->second.state == STATE_END){
+		threads[id] = Thread{
+			.runner = &runner,
+			.backtrace = {},
+			.state = FungeDebugger::STATE_START,
+		};
+		std::cout << "New IP " << id << std::endl;
+	}
+	lastThread = id;
+}
+
 void FungeDebugger::swbreak(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
+		enter(runner);
 		std::cout << "Software Breakpoint " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
@@ -64,6 +71,7 @@ void FungeDebugger::swbreak(FungeRunner& runner){
 void FungeDebugger::trap(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
+		enter(runner);
 		std::cout << "Exception Trapped " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
@@ -72,14 +80,15 @@ void FungeDebugger::trap(FungeRunner& runner){
 
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
-		if(watchpoints.contains(pos)){
-			threads[lastThread].state = STATE_BREAK;
-			intro(*threads[lastThread].runner);
+		auto found = threads.find(lastThread);
+		if(watchpoints.contains(pos) && found != threads.end() && found->second.state != STATE_END){
+			found->second.state = STATE_BREAK;
+			intro(*found->second.runner);
 			std::cout << "Watchpoint " << pos << std::endl;
 			inst_t old = universe.getField().get(pos);
 			std::cout << "Old value = (" << old  << ") \"" << static_cast<char>(old) << "\"" << std::endl;
 			std::cout << "New value = (" << inst << ") \"" << static_cast<char>(inst) << "\"" << std::endl;
-			Defunge::getInstance().debug(this, threads[lastThread].runner);
+			Defunge::getInstance().debug(this, found->second.runner);
 		}
 	}
 }
@@ -102,7 +111,10 @@ void FungeDebugger::addWatchpoint(const Vector& vec){
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
-	threads[runner.getID()].state = STATE_END;
+	auto found = threads.find(runner.getID());
+	if(found != threads.end()){
+		found->second.state = STATE_END;
+	}
 }
 
 void FungeDebugger::intro(FungeRunner& runner){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 464b0d4..3323644 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -141,6 +141,7 @@ void FungeUniverse::operator()(){
 				if(&dest != this){
 					std::scoped_lock both(mutex, dest.mutex);
 					runners.pop_front();
+					debug.endThread(*thread);
 					if(!dest.running){
 						thread->getIP().stop();
 					}
diff --git a/src/include/FungeDebugger.h b/src/include/FungeDebugger.h
index 44812df..d3b9bbc 100644
--- a/src/include/FungeDebugger.h
+++ b/src/include/FungeDebugger.h
@@ -47,6 +47,7 @@ class FungeDebugger {
 		};
 		
 		void intro(FungeRunner& runner);
+		void enter(FungeRunner& runner);
 		void debugWrite(const Vector& pos, inst_t inst);
 
 		FungeUniverse& universe;
-- 
2.43.0


From 85497c8787bc5ec2d20e7dcd733640a711ea2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 25/64] fix: a pointer stopped from outside does not spin on
 spaces

---
 src/FungeRunner.cpp        | 3 +++
 src/Unefunge98Strategy.cpp | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..d3aba79 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -133,6 +133,9 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			return;
+		}
 		inst_t i = ip.get();
 		err = execute(i);
 		switch(err){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ddc5bcb..ccb8f3f 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -81,7 +81,7 @@ FungeError Unefunge98Strategy::instructionNoop(){
 FungeError Unefunge98Strategy::instructionJumpOver(){
 	do{
 		ip.next();
-	}while(ip.get() != ';');
+	}while(ip.get() != ';' && !ip.isStopped());
 	return ERROR_SKIP;
 }
 
@@ -114,12 +114,12 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
 	inst_t c = ip.get();
-	while(c == ' ' || c == ';'){
+	while((c == ' ' || c == ';') && !ip.isStopped()){
 		if(c == ';'){
 			do{
 				ip.next();
 				c = ip.get();
-			}while(c != ';');
+			}while(c != ';' && !ip.isStopped());
 			ip.next();
 			c = ip.get();
 		}else{
-- 
2.43.0


From c65b1d0461fb86f853634b7ed3098186e069307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 26/64] fix: a directory is no program or input file

---
 src/Field.cpp              | 2 +-
 src/Funge.cpp              | 2 +-
 src/Unefunge98Strategy.cpp | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 0e481f6..43e6f64 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -53,7 +53,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 	Vector v(start);
 	Vector max(start);
 	int last = 0;
-	for(int i = file.get(); !file.eof(); i = file.get()) {
+	for(int i = file.get(); !file.fail(); i = file.get()) {
 		size_t dims = dimensions;
 		if((i == '\n' || i == '\r') && !binary){
 			if(i == '\r'){
diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..ef5fedd 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -90,7 +90,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 	
 	std::ifstream stream(filepath);
-	if(stream.fail()){
+	if(stream.fail() || std::filesystem::is_directory(filepath)){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
 	}
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ccb8f3f..17de1de 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -246,7 +246,8 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		Vector va = popVector(runner);
 		va += ip.getStorage();
 		std::ifstream file(filepath);
-		if(!file.fail()){
+		file.peek();
+		if(!file.bad() && file.is_open()){
 			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
-- 
2.43.0


From d74c324ab0c742cf3f83d161715c688faaecb959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 27/64] fix: blank lines and trailing spaces in a multiverse
 file list nothing

---
 src/Funge.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index ef5fedd..eae0342 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -33,16 +33,16 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		auto iss = std::istringstream(line);
 
 		std::string filename;
-		iss >> filename;
+		if(!(iss >> filename)){
+			continue;
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
 			path.assign(dir + path.preferred_separator + filename);
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		for(std::string arg; iss >> arg; ){
 			cfg.args.push_back(arg);
 		}
 
-- 
2.43.0


From 44de2e2ea74ee6763e100917f8d2fe9cf20ebad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 28/64] fix: an option without its value is an error, not a
 crash

---
 src/Funge.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index eae0342..fcd47cc 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -101,6 +101,10 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	return 0;
 }
 
+static const char* optionValue(const char* arg){
+	return (arg != nullptr) ? arg : "";
+}
+
 int fungemain(int argc, char **argv, char **envp){
 	FungeConfig funge_config;
 	std::filesystem::path filepath;
@@ -110,7 +114,7 @@ int fungemain(int argc, char **argv, char **envp){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
 			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(std::strtok(NULL, "="));
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -166,7 +170,7 @@ int fungemain(int argc, char **argv, char **envp){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
 			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			const char* arg = optionValue(strtok(NULL, "="));
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -177,7 +181,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
 			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(std::strtok(NULL, "="));
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -190,7 +194,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
 			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(std::strtok(NULL, "="));
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -201,7 +205,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
 			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = optionValue(std::strtok(NULL, "="));
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From de3a4949b31f284c109c9c0d99095b5e5b1e7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 29/64] fix: IIPC A works for ended parents and reflects
 without one

---
 src/FungeRunner.cpp                 | 16 +++++++++++-----
 src/fingerprint/FingerprintIIPC.cpp | 11 ++++++++---
 src/include/FungeRunner.h           |  5 +++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index d3aba79..1e61f7a 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -24,7 +24,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	parent(0),
+	hasParent(false),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -42,7 +43,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	parent(r.id),
+	hasParent(true),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -60,7 +62,8 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	parent(runner.id),
+	hasParent(true),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -247,8 +250,11 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
-	return parent;
+bool FungeRunner::getParentID(size_t& pid) const {
+	if(hasParent){
+		pid = parent;
+	}
+	return hasParent;
 }
 
 }
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..3838c59 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -18,9 +18,14 @@ FingerprintIIPC::FingerprintIIPC(FungeRunner& r) :
 FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
-		case 'A':
-			stack.top().push(runner.getParent()->getID());
-			break;
+		case 'A':{
+			size_t parent = 0;
+			if(runner.getParentID(parent)){
+				stack.top().push(parent);
+			}else{
+				ret = ERROR_UNSPEC;
+			}
+		} break;
 		case 'D':{
 			size_t age = stack.top().age();
 			if(dormant){
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..79a767d 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -54,7 +54,7 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		bool getParentID(size_t& pid) const;
 	
 	private:
 		static size_t count;
@@ -63,7 +63,8 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		const size_t parent;
+		const bool hasParent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From c22019f183ada9d4b3c5561a9bf1284272c15ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 30/64] fix: STRN V reflects on a malformed number

---
 src/fingerprint/FingerprintSTRN.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 9d341e0..16b5f9c 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSTRN.h"
 #include "FungeUtilities.h"
+#include <stdexcept>
 
 namespace Funge {
 
@@ -110,7 +111,11 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			try{
+				stack.top().push(std::stoll(str));
+			}catch(const std::logic_error&){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 50f30f5a7d98d7906a774c32981f677d851223dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 31/64] fix: FPDP and FPSP R reflect on a malformed number

---
 src/fingerprint/include/FingerprintFloat.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..1222de9 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -9,6 +9,7 @@
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
 #include <iomanip>
+#include <stdexcept>
 
 namespace Funge {
 
@@ -102,9 +103,13 @@ class FingerprintFloat : public Fingerprint {
 				} break;
 				case 'R':{
 					std::string s = popString(stack.top());
-					double d = std::stod(s);
-					T n = static_cast<T>(d);
-					stack.top().push(TToStack(n));
+					try{
+						double d = std::stod(s);
+						T n = static_cast<T>(d);
+						stack.top().push(TToStack(n));
+					}catch(const std::logic_error&){
+						return ERROR_UNSPEC;
+					}
 				} break;
 				case 'S':{
 					T b = stackToT(stack.top().pop());
-- 
2.43.0


From c61d948cc3f2f2a69b08158291e41d49e3b70874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 32/64] fix: FPSP values are exactly their four bytes

---
 src/fingerprint/include/FingerprintFloat.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 1222de9..3d89fa7 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstring>
 #include <iomanip>
 #include <stdexcept>
 
@@ -146,11 +147,15 @@ class FingerprintFloat : public Fingerprint {
 
 	private:
 		T stackToT(stack_t n){
-			return *reinterpret_cast<T*>(&n);
+			T t;
+			std::memcpy(&t, &n, sizeof(t));
+			return t;
 		}
 
 		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+			stack_t s = 0;
+			std::memcpy(&s, &n, sizeof(n));
+			return s;
 		}
 };
 
-- 
2.43.0


From 90133a77a096c4f2ddae4dd649ce34d695fc90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 33/64] fix: DIRF reflects when a directory cannot be made,
 entered or removed

---
 src/fingerprint/FingerprintDIRF.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..1201f6d 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -16,24 +16,25 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	std::error_code err;
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
-			}else{
+			std::filesystem::current_path(dir, err);
+			if(err){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::filesystem::create_directory(dir, err);
+			if(err){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
-			}else{
+			if(!std::filesystem::is_directory(dir, err) || !std::filesystem::remove(dir, err)){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
-- 
2.43.0


From 84319c23588782aa26913347f8e1eef094eb1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 34/64] fix: NFUN X, Y and Z make room for their dimension and
 reflect on an impossible one

---
 src/fingerprint/FingerprintNFUN.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..0aba603 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -9,6 +9,8 @@
 
 namespace Funge {
 
+static constexpr stack_t MAX_DIMENSION = 64;
+
 FingerprintNFUN::FingerprintNFUN(FungeRunner& r) :
 	Fingerprint(r,
 			{'A', 'B', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
@@ -75,28 +77,38 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			const stack_t b = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSION){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
-			if(stack.top().pop() == 0){
+			if(b == 0){
 				v.set(n, 1);
 			}else{
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSION){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSION){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From 11e6860ad45ece4c44f108866ebf1c246338aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 35/64] fix: TOYS T reflects on a negative or huge dimension

---
 src/fingerprint/FingerprintTOYS.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 5866124..f3c698f 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			const stack_t b = stack.top().pop();
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				v.set(n, (b == 0) ? 1 : -1);
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From 130ae9287e4b047816822888d0358c8ce45388f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 36/64] fix: TOYS regions without extent in some dimension
 change nothing

---
 src/fingerprint/FingerprintTOYS.cpp       | 16 +++++++++++++---
 src/fingerprint/include/FingerprintTOYS.h |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index f3c698f..a38d35d 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -93,7 +93,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t ymin = runner.getField().min(1);
 				dim_t ymax = runner.getField().max(1);
 				dim_t x = ip.getPos().get(0);
-				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
+				copySpace(Vector({x, ymin}), lineSize(1, ymax-ymin+1), Vector({x, ymin+n}), (n < 0), true);
 			}
 		} break;
 		case 'K':{
@@ -124,7 +124,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t xmin = runner.getField().min(0);
 				dim_t xmax = runner.getField().max(0);
 				dim_t y = ip.getPos().get(1);
-				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
+				copySpace(Vector({xmin, y}), lineSize(0, xmax-xmin+1), Vector({xmin+n, y}), (n < 0), true);
 			}
 		} break;
 		case 'P':{
@@ -273,8 +273,18 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 	}
 }
 
+Vector FingerprintTOYS::lineSize(size_t d, dim_t length) const {
+	Vector size;
+	for(size_t i = 0; i < runner.getUniverse().dimensions(); ++i){
+		size.set(i, 1);
+	}
+	size.set(d, length);
+	return size;
+}
+
 bool FingerprintTOYS::sizeToRange(Vector& size){
-	for(size_t d = 0; d < size.size(); ++d){
+	const size_t dims = std::max(size.size(), runner.getUniverse().dimensions());
+	for(size_t d = 0; d < dims; ++d){
 		dim_t s = size.get(d);
 		if(s > 0){
 			size.set(d, s-1);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..ac1e5fb 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -24,6 +24,7 @@ class FingerprintTOYS : public Fingerprint {
 		std::uniform_int_distribution<stack_t> dis;
 		
 		void copySpace(const Vector& src, const Vector& sz, const Vector& dest, bool low, bool move);
+		Vector lineSize(size_t d, dim_t length) const;
 		bool sizeToRange(Vector& size);
 };
 
-- 
2.43.0


From 7c310c2d2d141f8e355bfa1e00ad3100c8b1ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 37/64] fix: BASE prints } as its 84th base 85 digit

---
 src/fingerprint/FingerprintBASE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..3632ee7 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -49,7 +49,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
-- 
2.43.0


From 9ceea3465e043f27d4027debc92e9639ae6bbb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 38/64] fix: BASE prints negative numbers with a sign

---
 src/fingerprint/FingerprintBASE.cpp       | 11 +++++++----
 src/fingerprint/include/FingerprintBASE.h |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 3632ee7..1aee416 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -96,7 +96,10 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 
 void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	if(base > 1){
-		printBase(num, base, true);
+		if(num < 0){
+			std::cout << "-";
+		}
+		printBase((num < 0) ? 0-static_cast<uint64_t>(num) : num, base, true);
 	}else{
 		for(stack_t i = 0; i < num; ++i){
 			std::cout << "0";
@@ -105,9 +108,9 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	std::cout << " " << std::flush;
 }
 
-void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
-	stack_t next = num / base;
+void FingerprintBASE::printBase(uint64_t num, unsigned int base, bool low) const{
+	uint64_t digit = num % base;
+	uint64_t next = num / base;
 	if(next > 0){
 		printBase(next, base, false);
 	}
diff --git a/src/fingerprint/include/FingerprintBASE.h b/src/fingerprint/include/FingerprintBASE.h
index a75c451..fa9093e 100644
--- a/src/fingerprint/include/FingerprintBASE.h
+++ b/src/fingerprint/include/FingerprintBASE.h
@@ -29,7 +29,7 @@ class FingerprintBASE : public Fingerprint {
 		std::map<unsigned int, const char*> base_map;
 		
 		void printNum(stack_t num, unsigned int base) const;
-		void printBase(stack_t num, unsigned int base, bool low) const;
+		void printBase(uint64_t num, unsigned int base, bool low) const;
 		stack_t readNum(unsigned int base) const;
 		bool readBase(std::string str, stack_t* num, unsigned int base) const;
 };
-- 
2.43.0


From 0f34f2ff97c303645b8b88adedf2ecc5e2c370ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 39/64] fix: BASE I reads digits in order, of either case,
 below the base only

---
 src/fingerprint/FingerprintBASE.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 1aee416..a344f17 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -142,21 +142,14 @@ stack_t FingerprintBASE::readNum(unsigned int base) const{
 }
 
 bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
-	bool found = false;
-	if(base <= 36){
-		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
-	}
-	for(size_t i = 0; i <= base; ++i){
-		if(digit_map[i] == digit){
-			*num = (*num*base) + i;
-			found = true;
+	for(char c : str){
+		const char digit = ::toupper(static_cast<unsigned char>(c));
+		const char* end = digit_map + base;
+		const char* found = std::find(&digit_map[0], end, digit);
+		if(found == end){
 			break;
 		}
-	}
-	if(found && str.size() > 1){
-		str.erase(0, 1);
-		readBase(str, num, base);
+		*num = static_cast<uint64_t>(*num)*base + (found - digit_map);
 	}
 	return true;
 }
-- 
2.43.0


From 6c964fc9a6fddb18b71e7fafaadb778811f18d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 40/64] fix: R removes the stack of return addresses, not the
 current one

---
 src/StackStack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 3cd89d8..c44a703 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -77,7 +77,8 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	delete *iter;
 	stack.erase(iter);
 }
 
-- 
2.43.0


From deb56db69c0863152e8f445cc0dc0bc137cbd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 41/64] fix: stacks are opened and closed at the selected
 stack, and only with one below

---
 src/FishStrategy.cpp        |  2 +-
 src/StackStack.cpp          | 18 +++++++++++-------
 src/StarfishStrategy.cpp    |  1 +
 src/Unefunge98Strategy.cpp  |  4 ++--
 src/include/StackStack.h    |  6 ++++++
 src/util/include/FishUtil.h |  7 +++++++
 6 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 9077472..fa95010 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -367,7 +367,7 @@ FungeError FishStrategy::instructionCreateStack(){
 
 FungeError FishStrategy::instructionRemoveStack(){
 	check_selected(selected);
-	check_selected(selected+1);
+	check_below();
 	while(stack.top().size() > 0){
 		push(SECOND, pop(TOP));
 	}
diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c44a703..0df9c4f 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -18,8 +18,8 @@ StackStack::StackStack() :
 
 StackStack::~StackStack()
 {
-	while(stack.size() > 0){
-		pop();
+	for(auto s : stack){
+		delete s;
 	}
 }
 
@@ -58,14 +58,14 @@ const Stack& StackStack::at(size_t x) const{
 }
 
 void StackStack::pop(){
-	Stack* old = stack.back();
-	stack.pop_back();
-	delete old;
+	remove(0);
+	if(select > 0 && select >= stack.size()){
+		--select;
+	}
 }
 
 void StackStack::push(){
-	stack.push_back(new Stack());
-	stack.back()->setMode(mode);
+	insert(0);
 }
 
 void StackStack::insert(size_t pos){
@@ -82,6 +82,10 @@ void StackStack::remove(size_t pos){
 	stack.erase(iter);
 }
 
+size_t StackStack::below() const{
+	return stack.size()-select-1;
+}
+
 size_t StackStack::size() const{
 	return stack.size();
 }
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..7d5842a 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,6 +64,7 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	check_below();
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 17de1de..edec5e2 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -163,7 +163,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.below() > 0){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -210,7 +210,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.below() > 0){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 0f865cb..45926a9 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -111,6 +111,12 @@ class StackStack {
 		 */
 		void remove(size_t pos);
 
+		/**
+		 * Get the number of stacks below the selected one.
+		 * @return Number of stacks.
+		 */
+		size_t below() const;
+
 		/**
 		 * Get the number of stacks.
 		 * @return Number of stacks.
diff --git a/src/util/include/FishUtil.h b/src/util/include/FishUtil.h
index 51727c8..3c133cd 100644
--- a/src/util/include/FishUtil.h
+++ b/src/util/include/FishUtil.h
@@ -14,6 +14,13 @@
 #define check_selected(_s) if((_s) >= stack.size()) { return ERROR_UNSPEC; }
 
 
+/**
+ * Check if there is a stack below the selected one.
+ * @warning Returns ERROR_UNSPEC from the current function if the check fails.
+ */
+#define check_below() if(stack.below() == 0) { return ERROR_UNSPEC; }
+
+
 /**
  * Check if a stack exists and has enough elements.
  * @param _s Stack index.
-- 
2.43.0


From 8bb8a93909c823bad81f1510992b676a9d712542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 42/64] fix: the ><> register gives back the value it was given

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index fa95010..bd214f5 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -438,6 +438,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From b836bb3520fd1a629ed286acc5670940b3b081ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 43/64] fix: rotating an empty stack reads nothing outside of
 it

---
 src/FishStrategy.cpp                | 4 ++--
 src/fingerprint/FingerprintFISH.cpp | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index bd214f5..f7e69d9 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -312,7 +312,7 @@ FungeError FishStrategy::instructionLength(){
 }
 
 FungeError FishStrategy::instructionShiftLeft(){
-	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
 	double temp[len];
 	for(stack_t i = 0; i < len; ++i){
@@ -326,7 +326,7 @@ FungeError FishStrategy::instructionShiftLeft(){
 }
 
 FungeError FishStrategy::instructionShiftRight(){
-	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
 	double temp[len];
 	for(stack_t i = 0; i < len; ++i){
diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..35c0638 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,6 +67,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
@@ -98,6 +101,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
-- 
2.43.0


From a6c8343686c1e549c8ec7f8868f5f051ac27cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 44/64] fix: ><> % by -1 does not trap

---
 src/FishStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index f7e69d9..b8b7b67 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,7 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	push(TOP, (x == -1) ? 0 : y % x);
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 7935f403b65b7349a89d90af8956036c380de271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 45/64] fix: ><> [ and ] keep the order of the values they move

---
 src/FishStrategy.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index b8b7b67..bf47251 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -356,10 +356,14 @@ FungeError FishStrategy::instructionCreateStack(){
 	check_stack(top, 1);
 	size_t x = pop(TOP);
 
+	check_stack(top, x);
 	stack.insert(selected);
-	check_stack(second, x);
+	std::vector<double> moved;
 	for(size_t i = 0; i < x; ++i){
-		push(TOP, pop(SECOND));
+		moved.push_back(pop(SECOND));
+	}
+	for(size_t i = x; i > 0; --i){
+		push(TOP, moved[i-1]);
 	}
 	regs.push({false, 0});
 	return ERROR_NONE;
@@ -368,8 +372,12 @@ FungeError FishStrategy::instructionCreateStack(){
 FungeError FishStrategy::instructionRemoveStack(){
 	check_selected(selected);
 	check_below();
+	std::vector<double> moved;
 	while(stack.top().size() > 0){
-		push(SECOND, pop(TOP));
+		moved.push_back(pop(TOP));
+	}
+	for(size_t i = moved.size(); i > 0; --i){
+		push(SECOND, moved[i-1]);
 	}
 	stack.pop();
 	regs.pop();
-- 
2.43.0


From cacc1b043b95081859b60509b9bebdb166476cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 46/64] fix: { and } move any number of values

---
 src/Unefunge98Strategy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index edec5e2..ebcdb19 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -186,9 +186,9 @@ FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
 	stack.push();
 	if(n > 0){
-		stack_t trans[n];
+		std::vector<stack_t> trans;
 		for(stack_t i = 0; i < n; ++i){
-			trans[i] = stack.second().pop();
+			trans.push_back(stack.second().pop());
 		}
 		for(stack_t i = n; i > 0; --i){
 			stack.top().push(trans[i-1]);
@@ -215,9 +215,9 @@ FungeError Unefunge98Strategy::instructionEnd(){
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
+			std::vector<stack_t> trans;
 			for(stack_t i = 0; i < n; ++i){
-				trans[i] = stack.top().pop();
+				trans.push_back(stack.top().pop());
 			}
 			for(stack_t i = n; i > 0; --i){
 				stack.second().push(trans[i-1]);
-- 
2.43.0


From bbae8adbfb061c75861785b54ce71663366b4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 47/64] fix: y takes its whole argument

---
 src/Unefunge98Strategy.cpp       | 2 +-
 src/include/Unefunge98Strategy.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ebcdb19..cdd428e 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -355,7 +355,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 6231e4da589e81a12b2439be6c5a12b56d74981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 48/64] fix: the FISH fisherman returns to the last horizontal
 direction

---
 src/fingerprint/FingerprintFISH.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 35c0638..04690fc 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -43,6 +43,8 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Fisherman
 		case 'F':{
 			if(ip.getDelta().get(1) == 0){
+				// Not every change of direction is observed
+				fishermanChange(ip.getDelta());
 				if(fisherstate == FISHER_UP){
 					ip.setDelta(Vector{0, 1});
 					fisherstate = FISHER_DOWN;
-- 
2.43.0


From 82f848acd807c12763c58d696f3a1c0e7be1d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 49/64] fix: commands run by = and PERL print after earlier
 output

---
 src/Unefunge98Strategy.cpp          | 1 +
 src/fingerprint/FingerprintPERL.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index cdd428e..ae3d0e7 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -287,6 +287,7 @@ FungeError Unefunge98Strategy::instructionExecute(){
 	FungeError ret = ERROR_NONE;
 	if(runner.getUniverse().allowExecute()){
 		std::string sys = popString(stack.top());
+		std::cout << std::flush; // what was printed before comes first
 		int code = system(sys.c_str());
 		stack.top().push(code);
 	}else{
diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..40ec198 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -48,6 +48,7 @@ int FingerprintPERL::perl(const std::string& code){
 	std::stringstream sq;
 	sq << std::quoted(cmd);
 	cmd = std::string("perl -e ") + sq.str();
+	std::cout << std::flush; // what was printed before comes first
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From cc9f7985ef9886eb956f5bef65b2ba95125f56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 50/64] fix: mode changes and pointer lookup hold the
 universe's lock

Another universe's thread may be adding a pointer at the same time; an
arriving pointer's stack gets the mode current at its arrival.
---
 src/FungeUniverse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 3323644..845446b 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -145,6 +145,7 @@ void FungeUniverse::operator()(){
 					if(!dest.running){
 						thread->getIP().stop();
 					}
+					thread->setMode(dest.config.mode);
 					dest.runners.push_back(thread);
 					++transferred;
 					dest.semaphore.release();
@@ -226,6 +227,7 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 }
 
 FungeRunner* FungeUniverse::getRunner(size_t id){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		if(r->getID() == id){
 			return r;
@@ -277,6 +279,7 @@ bool FungeUniverse::isMode(FungeMode m) const {
 }
 
 void FungeUniverse::updateMode(){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		r->setMode(config.mode);
 	}
-- 
2.43.0


From b3a9906ed2a495c36d557665a8226a793943ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 51/64] fix: FMV files in the current directory find their
 universes

---
 src/Funge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index fcd47cc..d4fcbab 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,7 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
+	const std::filesystem::path dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
@@ -38,7 +38,7 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = dir / filename;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-- 
2.43.0


From d671207bcdd755f50f4ea5a5e50eb7046e3901f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 52/64] fix: keep the dimensions a BeQunge or Funge-lib file
 declares

The constructor replaced the number of dimensions found by the parser (the
Dimensions directive, 3 for Funge-lib) with the extent of the stored cells.
---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 43e6f64..005a8c8 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -32,7 +32,7 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
+	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
 }
-- 
2.43.0


From 2caa3fadf8c597c54900ad68f686406deac86551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 53/64] fix: counts given to SUBR, FRTH and Dynamic do not
 overflow the C stack

C and R of SUBR, L of FRTH and O of Dynamic used arrays of a length taken
from the stack, undefined for negative counts and a crash for large ones.
---
 src/fingerprint/FingerprintDynamic.cpp | 5 +++--
 src/fingerprint/FingerprintFRTH.cpp    | 5 +++--
 src/fingerprint/FingerprintSUBR.cpp    | 9 +++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..1d474e8 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintDynamic.h"
 #include "FungeUtilities.h"
+#include <vector>
 
 namespace Funge {
 
@@ -69,9 +70,9 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				std::vector<stack_t> pops;
 				for(stack_t i = 0; i <= count; ++i){
-					pops[i] = stack.top().pop();
+					pops.push_back(stack.top().pop());
 				}
 				if(u < 0){
 					stack.top().push(pops[0]);
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..eb05554 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFRTH.h"
+#include <vector>
 
 namespace Funge {
 
@@ -25,9 +26,9 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			std::vector<stack_t> pops;
 			for(stack_t i = 0; i <= count; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			if(u < 0){
 				stack.top().push(pops[0]);
diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..053e7de 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSUBR.h"
 #include "FungeUtilities.h"
+#include <vector>
 
 namespace Funge {
 
@@ -22,9 +23,9 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		case 'C':{
 			stack_t n = stack.top().pop();
 			Vector va = popVector(runner);
-			stack_t pops[n];
+			std::vector<stack_t> pops;
 			for(stack_t i = 0; i < n; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			pushVector(runner, ip.getPos());
 			pushVector(runner, ip.getDelta());
@@ -50,9 +51,9 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			std::vector<stack_t> pops;
 			for(stack_t i = 0; i < n; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			Vector vd = popVector(runner);
 			Vector va = popVector(runner);
-- 
2.43.0


From a9fe5743507462eff0f18ebec43cc140b7b8eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 54/64] fix: o writes the whole row of a region without height

In Unefunge the region has no y extent and only its first cell was written.
---
 src/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 005a8c8..7164654 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -208,9 +208,9 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			}
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			if(v[1] >= end[1]){
+				break;
+			}
 		}
 	}
 }
-- 
2.43.0


From dc8dbb0b24a95675d695451eb453d5b15204342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 55/64] fix: leave the delta and position as they are when
 setdelta or setpos has no vector

---
 src/Defunge.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 83a49cb..830290f 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -319,7 +319,9 @@ Defunge::Error Defunge::setdeltaCommand(std::istringstream& iss){
 	Vector v;
 	iss >> v;
 	InstructionPointer& ip = runner->getIP();
-	ip.setDelta(v);
+	if(v.size() > 0){
+		ip.setDelta(v);
+	}
 	std::cout << "Delta " << ip.getDelta() << std::endl;
 	return DEFUNGE_OK;
 }
@@ -332,7 +334,9 @@ Defunge::Error Defunge::setposCommand(std::istringstream& iss){
 	Vector v;
 	iss >> v;
 	InstructionPointer& ip = runner->getIP();
-	ip.setPos(v);
+	if(v.size() > 0){
+		ip.setPos(v);
+	}
 	printIP(*runner);
 	return DEFUNGE_OK;
 }
-- 
2.43.0


From 562732b20239b9ad3382331efd37c95ba6d20b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 56/64] fix: no debugger prompt for a pointer that another
 one's quit has stopped

---
 src/Defunge.cpp       | 3 +++
 src/FungeDebugger.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 830290f..a97f351 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -78,6 +78,9 @@ Defunge::Defunge():
 
 void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 	std::lock_guard<std::recursive_mutex> guard(mutex);
+	if(!run->isRunning()){
+		return;
+	}
 	debugger = dbg;
 	runner = run;
 	
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index b4502eb..65ef2cd 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -25,7 +25,7 @@ FungeDebugger::FungeDebugger(FungeUniverse& uni) :
 }
 
 void FungeDebugger::tick(FungeRunner& runner){
-	if(runner.isMode(FUNGE_MODE_DEBUG)){
+	if(runner.isMode(FUNGE_MODE_DEBUG) && runner.isRunning()){
 		intro(runner);
 		size_t id = runner.getID();
 		enter(runner);
-- 
2.43.0


From eda55116cb34603430e7050a0f750790e4b20944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 57/64] fix: breakpoints and watchpoints of DBUG go to the
 universe the pointer is in

---
 src/fingerprint/FingerprintDBUG.cpp       | 16 ++++++----------
 src/fingerprint/include/FingerprintDBUG.h |  6 ------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index a3ef965..d0c0709 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -11,23 +11,19 @@
 namespace Funge {
 
 FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
-	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'}),
-	dbg(nullptr)
+	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'})
 {}
 
-void FingerprintDBUG::activate(){
-	dbg = &runner.getUniverse().getDebugger();
-	Fingerprint::activate();
-}
-
 FungeError FingerprintDBUG::execute(inst_t cmd){
+	// The runner may have been transferred since the fingerprint was loaded
+	FungeDebugger& dbg = runner.getUniverse().getDebugger();
 	switch(cmd){
 		case 'A':{
 			Vector v = popVector(runner);
-			dbg->addBreakpoint(v);
+			dbg.addBreakpoint(v);
 		} break;
 		case 'B':{
-			dbg->swbreak(runner);
+			dbg.swbreak(runner);
 		} break;
 		case 'D':{
 			runner.getUniverse().clearMode(FUNGE_MODE_DEBUG);
@@ -37,7 +33,7 @@ FungeError FingerprintDBUG::execute(inst_t cmd){
 		} break;
 		case 'W':{
 			Vector v = popVector(runner);
-			dbg->addWatchpoint(v);
+			dbg.addWatchpoint(v);
 		} break;
 		default:
 			return ERROR_UNIMP;
diff --git a/src/fingerprint/include/FingerprintDBUG.h b/src/fingerprint/include/FingerprintDBUG.h
index fcbb714..ad1a760 100644
--- a/src/fingerprint/include/FingerprintDBUG.h
+++ b/src/fingerprint/include/FingerprintDBUG.h
@@ -7,7 +7,6 @@
 #pragma once
 
 #include "Fingerprint.h"
-#include "FungeDebugger.h"
 
 namespace Funge {
 
@@ -19,11 +18,6 @@ class FingerprintDBUG : public Fingerprint {
 		virtual ~FingerprintDBUG() = default;
 		
 		virtual FungeError execute(inst_t cmd) override;
-
-		virtual void activate() override;
-	
-	private:
-		FungeDebugger* dbg;
 };
 
 }
-- 
2.43.0


From f652456dad2d94ef50ce975d2b1e0910fdf48967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 58/64] fix: main waits for the ticks in progress before any
 universe is destroyed

---
 src/FungeMultiverse.cpp       | 23 ++++++++++++++++++++++-
 src/FungeUniverse.cpp         | 21 ++++++++++++++-------
 src/include/FungeMultiverse.h |  5 +++++
 src/include/FungeUniverse.h   |  5 +++++
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 209af5a..6aad9c7 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -17,6 +17,7 @@ FungeMultiverse::FungeMultiverse() :
 }
 
 FungeMultiverse::~FungeMultiverse(){
+	finish();
 	std::lock_guard<std::mutex> guard(mutex);
 	for(auto uni : universes){
 		// Destroy the universe
@@ -75,7 +76,27 @@ int FungeMultiverse::waitAll(){
 		again = (moved != FungeUniverse::transfers() || current.size() != universes.size());
 	}while(again);
 
-	return prime->get();
+	const int ret = prime->get();
+	finish();
+	return ret;
+}
+
+void FungeMultiverse::finish(){
+	// A tick still in progress may use any of the universes
+	std::unique_lock<std::mutex> lock(mutex);
+	size_t count = 0;
+	while(count != universes.size()){
+		count = universes.size();
+		const auto current = universes;
+		lock.unlock();
+		for(auto next : current){
+			next.second->killAll(next.second->get());
+		}
+		for(auto next : current){
+			next.second->finish();
+		}
+		lock.lock();
+	}
 }
 
 void FungeMultiverse::killAll(int ret){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 845446b..d36e88e 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,14 +54,8 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 
 FungeUniverse::~FungeUniverse(){
 	killAll(1);
-	thread->join();
+	finish();
 
-	while(threads.size() > 0){
-		std::thread* thread = threads.front();
-		threads.pop();
-		thread->join();
-		delete thread;
-	}
 	std::lock_guard<std::mutex> guard(mutex);
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
@@ -72,6 +66,19 @@ FungeUniverse::~FungeUniverse(){
 	delete thread;
 }
 
+void FungeUniverse::finish(){
+	if(thread->joinable()){
+		thread->join();
+	}
+
+	while(threads.size() > 0){
+		std::thread* thread = threads.front();
+		threads.pop();
+		thread->join();
+		delete thread;
+	}
+}
+
 void FungeUniverse::cloneRunner(const FungeRunner& runner){
 	addRunner(new FungeRunner(runner));
 }
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..39c7cc3 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -78,6 +78,11 @@ class FungeMultiverse {
 
 		FungeMultiverse();
 		~FungeMultiverse();
+
+		/**
+		 * Kill all universes and wait for their threads.
+		 */
+		void finish();
 };
 
 }
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 55dc16b..d406c29 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -56,6 +56,11 @@ class FungeUniverse {
 		 */
 		void killAll(int ret);
 
+		/**
+		 * Wait for the threads of a killed universe to be done with their last tick.
+		 */
+		void finish();
+
 		/**
 		 * Check if the universe is running.
 		 * @return true if there are runners in the universe.
-- 
2.43.0


From c1fb769b79f9940edfd69126063aa73a9852e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 59/64] fix: a pointer that has ended runs no more iterations
 of k

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ae3d0e7..192cb0d 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -130,7 +130,7 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	const Vector target = ip.getPos();
 	ip.setPos(v);
 	const stack_t k = stack.top().pop();
-	for(stack_t i = 0; i < k; i++){
+	for(stack_t i = 0; i < k && !ip.isStopped(); i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-- 
2.43.0


From 5210cb851baffcef62044948ae4738881a1865db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 60/64] fix: with native threads, pointers are removed when
 they end and follow their universe

---
 src/FungeUniverse.cpp       | 83 +++++++++++++++++++++++--------------
 src/include/FungeUniverse.h |  4 ++
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index d36e88e..9b9573b 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -21,6 +21,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	thread(nullptr),
 	threads(),
 	runners(),
+	ended(),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -41,6 +42,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	thread(nullptr),
 	threads(),
 	runners(),
+	ended(),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -62,6 +64,9 @@ FungeUniverse::~FungeUniverse(){
 		delete runner;
 		runners.pop_front();
 	}
+	for(auto runner : ended){
+		delete runner;
+	}
 
 	delete thread;
 }
@@ -71,11 +76,18 @@ void FungeUniverse::finish(){
 		thread->join();
 	}
 
+	joinAll();
+}
+
+void FungeUniverse::joinAll(){
+	std::unique_lock<std::mutex> lock(mutex);
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
 		threads.pop();
+		lock.unlock();
 		thread->join();
 		delete thread;
+		lock.lock();
 	}
 }
 
@@ -111,30 +123,51 @@ void FungeUniverse::addRunner(FungeRunner* runner){
 		runner->getIP().stop();
 	}
 	if(config.threads == THREAD_NATIVE){
-		std::thread* thread = new std::thread(std::ref(*runner));
-		threads.push(thread);
+		threads.push(new std::thread(&FungeUniverse::runNative, runner));
 	}
 	runners.push_back(runner);
 	semaphore.release();
 }
 
+void FungeUniverse::handOver(FungeRunner* runner, FungeUniverse& dest){
+	std::scoped_lock both(mutex, dest.mutex);
+	runners.remove(runner);
+	debug.endThread(*runner);
+	if(!dest.running){
+		runner->getIP().stop();
+	}
+	runner->setMode(dest.config.mode);
+	dest.runners.push_back(runner);
+	++transferred;
+	dest.semaphore.release();
+	cv.notify_all();
+}
+
+void FungeUniverse::runNative(FungeRunner* runner){
+	FungeUniverse* home = &runner->getUniverse();
+	while(runner->isRunning()){
+		runner->tick();
+		FungeUniverse* dest = &runner->getUniverse();
+		if(dest != home){
+			home->handOver(runner, *dest);
+			home = dest;
+		}
+		std::this_thread::yield();
+	}
+
+	std::lock_guard<std::mutex> guard(home->mutex);
+	home->runners.remove(runner);
+	home->debug.endThread(*runner);
+	// Another thread may still be looking at it
+	home->ended.push_back(runner);
+	home->cv.notify_all();
+}
+
 void FungeUniverse::operator()(){
 	while(running){
 		semaphore.acquire();
 		if(config.threads == THREAD_NATIVE){
-			mutex.lock();
-			while(threads.size() > 0){
-				std::thread* thread = threads.front();
-				if(thread->joinable()){
-					mutex.unlock();
-					thread->join();
-					mutex.lock();
-				}
-				threads.pop();
-				delete thread;
-			}
-			cv.notify_all();
-			mutex.unlock();
+			joinAll();
 		}else{
 			mutex.lock();
 			while(runners.size() > 0){
@@ -146,17 +179,7 @@ void FungeUniverse::operator()(){
 				}
 				FungeUniverse& dest = thread->getUniverse();
 				if(&dest != this){
-					std::scoped_lock both(mutex, dest.mutex);
-					runners.pop_front();
-					debug.endThread(*thread);
-					if(!dest.running){
-						thread->getIP().stop();
-					}
-					thread->setMode(dest.config.mode);
-					dest.runners.push_back(thread);
-					++transferred;
-					dest.semaphore.release();
-					cv.notify_all();
+					handOver(thread, dest);
 				}
 				mutex.lock();
 				if(&dest != this){
@@ -198,11 +221,7 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
-	bool alive = (runners.size() > 0);
-	if(config.threads == THREAD_NATIVE){
-		alive = (threads.size() > 0);
-	}
-	return running && alive;
+	return running && (runners.size() > 0);
 }
 
 Field& FungeUniverse::getField(){
@@ -236,7 +255,7 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 FungeRunner* FungeUniverse::getRunner(size_t id){
 	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
-		if(r->getID() == id){
+		if(r->getID() == id && r->isRunning()){
 			return r;
 		}
 	}
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index d406c29..1166949 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -144,6 +144,7 @@ class FungeUniverse {
 		std::thread* thread;
 		std::queue<std::thread*> threads;
 		std::list<FungeRunner*> runners;
+		std::list<FungeRunner*> ended;
 		FungeRunner* creator;
 		FungeSem semaphore;
 		mutable std::mutex mutex;
@@ -152,6 +153,9 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		void handOver(FungeRunner* runner, FungeUniverse& dest);
+		void joinAll();
+		static void runNative(FungeRunner* runner);
 		void updateMode();
 
 		friend class FungeMultiverse;
-- 
2.43.0


From 628162ad79e4d46a1468bdefbe157bce29fbffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 61/64] fix: post-increment of a VectorRange returns the range
 as it was

---
 src/VectorRange.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/VectorRange.cpp b/src/VectorRange.cpp
index 66c9454..d6b9dd6 100644
--- a/src/VectorRange.cpp
+++ b/src/VectorRange.cpp
@@ -64,7 +64,9 @@ VectorRange& VectorRange::operator++(){
 }
 
 VectorRange VectorRange::operator++(int){
-	return ++(*this);
+	VectorRange ret(*this);
+	++(*this);
+	return ret;
 }
 
 }
-- 
2.43.0


From 12d0d4377a73e2bf2c0fc73a33e7eb42155adb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 62/64] fix: assigning a vector to itself keeps its value

---
 src/Vector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index cefab93..0119091 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -28,7 +28,6 @@ Vector::Vector(std::initializer_list<dim_t> v) :
 }
 
 Vector& Vector::operator=(const Vector& orig){
-	values.clear();
 	values = orig.values;
 	normalize();
 	return *this;
-- 
2.43.0


From ef8cdcf7b8aebb77c984730dced9f997dc525e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 63/64] fix: BASE prints base 64 digits 52 to 63

---
 src/fingerprint/FingerprintBASE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index a344f17..9cec56c 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
+	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
-- 
2.43.0


From 9ac9edc455823c6eaabaada5144439215a4154cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 64/64] fix: ><> and *><> count as missing any number of values
 beyond the stack's size

The popped number was converted to size_t before it was compared: one of 2^64 or more
became an arbitrary count, mostly 0.
---
 src/FishStrategy.cpp     | 7 +++++--
 src/StarfishStrategy.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index bf47251..8e4428d 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -354,9 +354,12 @@ FungeError FishStrategy::instructionReverse(){
 
 FungeError FishStrategy::instructionCreateStack(){
 	check_stack(top, 1);
-	size_t x = pop(TOP);
+	double count = pop(TOP);
+	if(!(count > -1.0 && count < stack.top().size() + 1.0)){
+		return ERROR_UNSPEC;
+	}
+	size_t x = count;
 
-	check_stack(top, x);
 	stack.insert(selected);
 	std::vector<double> moved;
 	for(size_t i = 0; i < x; ++i){
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 7d5842a..2748cdb 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -94,8 +94,11 @@ FungeError StarfishStrategy::instructionFile(){
 	FungeError ret = ERROR_UNSPEC;
 	if(runner.getUniverse().allowFilesystem()){
 		check_stack(top, 1);
-		size_t x = pop(TOP);
-		check_stack(top, x);
+		double count = pop(TOP);
+		if(!(count > -1.0 && count < stack.top().size() + 1.0)){
+			return ERROR_UNSPEC;
+		}
+		size_t x = count;
 		if(file == nullptr){
 			std::string str;
 			for (size_t i = 0; i < x; ++i){
-- 
2.43.0

