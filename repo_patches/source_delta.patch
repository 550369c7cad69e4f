From a9dc505de44d2e759d0d99adbcc426e3e034ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 01/37] fix: signal_event lost wake-ups and untruthful timed
 waits

signal() now sets the flag and wakes every waiter under the event's lock and
the waits test the flag under that lock until it is set or the (monotonic)
deadline has passed.
---
 src/mg/core/thread.cpp | 49 ++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..214621a 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -98,56 +98,49 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
-	if (_signed)
-		return;
+	auto_lock l(_crit_sec);
 
 	_signed = true;
 	//free anyone waiting
-	uv_cond_signal(&_cond_t);
-
+	uv_cond_broadcast(&_cond_t);
 }
 
 void signal_event::reset()
 {
+	auto_lock l(_crit_sec);
+
 	_signed = false;
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
-	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
-	_crit_sec.unLock();
+	auto_lock l(_crit_sec);
+
+	while (!_signed)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	const uint64_t start   = uv_hrtime();
+	const uint64_t timeout = static_cast<uint64_t>(millyseconds) * 1000000;
 
-	double t = millyseconds;
-	         t *= 1e6;
-	
-	
-	bool work = true;
+	auto_lock l(_crit_sec);
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	while (!_signed)
+	{
+		const uint64_t elapsed = uv_hrtime() - start;
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+		if (elapsed >= timeout)
+			return false;
 
-	UVCHECK(n);
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, timeout - elapsed);
 
-	return false;
+		if (UV_ETIMEDOUT != n)
+			UVCHECK(n);
+	}
 
+	return true;
 }
 
 bool signal_event::is_signaled()
-- 
2.43.0


From f267534aa4799c2342f0db67f7285d07b3cb1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 02/37] fix: joining a thread that was never started

join() of a cthread whose start() failed (or was never called) passed an
uninitialised thread id to uv_thread_join; nothing is joinable before start().
---
 src/mg/core/thread.cpp | 2 ++
 src/mg/core/thread.h   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index 214621a..ac84f3e 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -177,6 +177,8 @@ void cthread::start()
 {
 	int n = uv_thread_create(&_thread_t, startThread, this);
 	UVCHECK(n);
+
+	_joined = false;
 }
 
 void cthread::stop()
diff --git a/src/mg/core/thread.h b/src/mg/core/thread.h
index 1d51ae9..d983c30 100644
--- a/src/mg/core/thread.h
+++ b/src/mg/core/thread.h
@@ -128,7 +128,8 @@ public:
 
 	void join();	
 
-	cthread() :_joined(false) {}
+	//nothing to join until a thread has been started
+	cthread() :_joined(true) {}
 
 };
 
-- 
2.43.0


From 2e8e8d97669f268ff2fde27d5eaab05c1f5111bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 03/37] fix: reference count of shared handles was not thread
 safe, self-assignment freed the object

---
 src/mg/cresource.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..70b3aee 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -24,6 +24,7 @@
 #include <new>
 
 #include <functional>
+#include <atomic>
 
 #pragma once
 
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt;
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
@@ -120,10 +120,15 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
-		m_pInternalResource = res.m_pInternalResource;
-		if(m_pInternalResource) m_pInternalResource->addRef();	
-		return res;
+		//take the new reference before leaving the old one: res can be this
+		//resource, or be owned by the resource we are about to release
+		CInternalResource<Type> *previous = m_pInternalResource;
+		CInternalResource<Type> *next = res.m_pInternalResource;
+
+		if(next) next->addRef();
+		m_pInternalResource = next;
+		if(previous) previous->release();
+		return *this;
 	}
    	//assign the resource to another resource
 	//Both resource will point to the same
-- 
2.43.0


From b198099e9e621137899d88733d1b6e65b4e4dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 04/37] fix: loop thread lost operations when stopped, lost or
 raced on unhandled errors

A run cut short by stop left operations pending when the thread ended; the
last unhandled error replaced the first and was shared between threads
without a lock; UVCHECK raised an overflow instead of the system error.
---
 src/mg/core/uvbase.cpp | 10 ++--------
 src/mg/core/uvbase.h   | 35 +++++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 39ceac4..9f1dbf7 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -58,13 +58,7 @@ void uvloopthread::run()
 					std::cout << "loop alive: " << _loop->alive() << std::endl;
 				}
 				*/
-				do {
-
-					MGCORE::auto_lock l(_cs);
-					if (_loop->alive())
-						_loop->run(UV_RUN_DEFAULT);
-
-				} while (0);
+				complete_all();
 
 				//std::cout << "ending loop thread: " << _loop->alive() << std::endl;
 
@@ -81,7 +75,7 @@ void uvloopthread::run()
 
 		std::cout << "ending loop thread handled_exception" << std::endl;
 
-		_last_exception = std::current_exception();
+		set_exception(std::current_exception());
 
 		//std::cout << "last_exception:\t" << _last_exception.w
 	}
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..792083a 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(static_cast<int>(num), uv_strerror(static_cast<int>(num)), _T(__FILE__), __LINE__); } }
 
 
 
@@ -117,6 +117,8 @@ class uvloopthread : public MGCORE::cthread
 
 	std::exception_ptr _last_exception;
 
+	MGCORE::critical_section _ex_cs; //protects _last_exception
+
 	MGCORE::critical_section _cs;
 
 protected:
@@ -158,13 +160,27 @@ public:
 
 	void loop_now() {_w.signal();}
 
+	//run until nothing is outstanding
+	void complete_all()
+	{
+		MGCORE::auto_lock l(_cs);
+
+		//a run can be cut short by stop
+		while (_loop->alive())
+			_loop->run(UV_RUN_DEFAULT);
+	}
+
 	void check_exception()
 	{
-		if (_last_exception != nullptr)
-		{
-			std::exception_ptr pt = _last_exception;
-			_last_exception = nullptr;
+		std::exception_ptr pt;
 
+		do {
+			MGCORE::auto_lock l(_ex_cs);
+			std::swap(pt, _last_exception);
+		} while (0);
+
+		if (pt != nullptr)
+		{
 			std::rethrow_exception(pt);
 		}
 	}
@@ -188,7 +204,14 @@ public:
 		end(true);
 	}
 
-	void set_exception(std::exception_ptr & eptr) { _last_exception = eptr; }
+	//the first error is kept until the owner asks for it
+	void set_exception(const std::exception_ptr & eptr)
+	{
+		MGCORE::auto_lock l(_ex_cs);
+
+		if (_last_exception == nullptr)
+			_last_exception = eptr;
+	}
 };
 
 typedef MGCORE::CResource<uvloopthread> loopthread;
-- 
2.43.0


From f68e576a2a544665b57ec1f7e4be25b130680d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 05/37] fix: asynchronous file errors, ordering, short
 transfers and closing

The system error was replaced by an overflow error and never reached the
listener; an error in a listener ended the loop thread with operations
outstanding; writes between reads broke the order of reads; partial
transfers were reported as success; closing raced with the last listener,
with pending opens and leaked or closed twice when something failed.
---
 src/mg/core/file.cpp | 145 ++++++++++++++++++++++++++++---------------
 src/mg/core/file.h   |  45 +++++++++++++-
 2 files changed, 138 insertions(+), 52 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..e868e2a 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -49,7 +49,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 #endif
 	
-	if (fcb->_sequence > (*fcb->_p_served)
+	if (fcb->_sequence > (*fcb->_p_read_served)
 		&& req->fs_type == UV_FS_READ
 		//&& 0 <= req->result
 		)
@@ -64,7 +64,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
 
 		while (it != fcb->_p_forward->end()
-			&& (*it.operator->())->_sequence > (*fcb->_p_served))
+			&& (*it.operator->())->_sequence > (*fcb->_p_read_served))
 		{
 			it++;
 
@@ -92,6 +92,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		fcb->_p_forward->remove(temp);
 
 		fcb = temp;
+		req = fcb->_uv_fs_t;
 	
 	}
 
@@ -132,20 +133,36 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 	
 	(*fcb->_p_served)++;
-	
-	
-	if(0 > req->result)
-	{
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
-			<< _T("\t")
-			<< std::endl;
+	if (req->fs_type == UV_FS_READ)
+		(*fcb->_p_read_served)++;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
+	//the rest of an operation which was cut short is not there
+	int result = static_cast<int>((fcb->_expected > req->result && 0 <= req->result) ? UV_EIO : req->result);
+
+	//nothing can be thrown through the loop: it would lose the other operations
+	try {
+
+		if(0 > result)
+		{
+
+			std::cout << "!!!file async error " << uv_strerror(result)
+				<< _T("\t")
+				<< std::endl;
+
+			fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(result, uv_strerror(result), _T(__FILE__), __LINE__)));
+		}
+		else
+		{
+			fcb->_delivered = true;
+			fcb->call_cb(fcb->_uv_fs_t);
+		}
 	}
-	else
+	catch (...)
 	{
-		fcb->call_cb(fcb->_uv_fs_t);
+		//the owner is told, and the thread ends when nothing is outstanding
+		fcb->_p_loop->set_exception(std::current_exception());
+		fcb->_p_loop->stop();
 	}
 	
 	delete fcb;
@@ -168,6 +185,8 @@ cfile::cfile(::mg::uv::loopthread & loop)
 	, _position(0)
 	, _outstanding(0)
 	, _served(0)
+	, _read_outstanding(0)
+	, _read_served(0)
 {
 	::memset(&_file_stat, 0, sizeof(uv_stat_t));
 
@@ -182,8 +201,15 @@ cfile::cfile(::mg::uv::loopthread & loop)
 
 cfile::~cfile()
 {
-	if (_file)
-		close(false);
+	try {
+
+		if (_file || _outstanding)
+			close(false);
+	}
+	catch (...)
+	{
+		_loop->set_exception(std::current_exception());
+	}
 }
 
 CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool async)
@@ -211,7 +237,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(static_cast<int>(req.result), uv_strerror(static_cast<int>(req.result)), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
@@ -239,21 +265,19 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 		cfile * myself = this;
 
 		cb->set_cb([myself](CResource<uv_fs_t> & req) {
-			myself->_file = ST_U32(req->result);
+			myself->_file = static_cast<uv_file>(req->result);
 		}
 		);
 
-		cb->set_er();
-
-		CResource<CPromise<uv_fs_t>> f = cb->forward();
+		cb->set_er([cb](std::exception_ptr eptr) -> bool { cb->not_delivered(eptr); return true; });
 
-		do_outstanding(cb);
+		CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 		do {
 
 			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_open(_loop->get_loop(), cb->_uv_fs_t, path, flags, mode, uv_file_cb);
-			UVCHECK(r);
+			submitted(cb, r);
 
 		} while (0);
 
@@ -268,7 +292,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 
 		UVCHECK(req.result);
 
-		_file = ST_U32(req.result);
+		_file = static_cast<uv_file>(req.result);
 
 		return CResource<CPromise<uv_fs_t> >();
 	}
@@ -280,11 +304,27 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
 
-	while (this->_served != this->_outstanding)
+	for (;;)
 	{
-		_ended.wait(10);
+		while (this->_served != this->_outstanding)
+		{
+			_ended.wait(10);
+
+			//nobody else will
+			if (_loop->is_done())
+				_loop->complete_all();
+		}
+
+		//the last listener can still be running, or have asked for more
+		auto_lock l(_loop->loop_lock());
+
+		if (this->_served == this->_outstanding)
+			return do_close(async);
 	}
+}
 
+CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
+{
 
 	_ASSERTE(this->_served == this->_outstanding);
 
@@ -302,26 +342,23 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 		cb->_uv_fs_t->data = cb;
 		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 
-		cb->set_er();
-
 		uv_file * pfile = &_file;
 
+		//the descriptor is gone even if the close fails
+		cb->set_er([cb, pfile](std::exception_ptr eptr) -> bool { (*pfile) = 0; cb->not_delivered(eptr); return true; });
+
 		cb->set_cb([ pfile ](CResource<uv_fs_t> & req) 
 		{
 			(*pfile) = 0; 
 		}
 		);
 
-		CResource<CPromise<uv_fs_t>> f = cb->forward();
-
-		do_outstanding(cb);
-
+		CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 		do {
 
-			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, _file, uv_file_cb);
-			UVCHECK(r);
+			submitted(cb, r);
 
 		} while (0);
 
@@ -334,7 +371,11 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 	{
 		uv_fs_t req;
 
-		int r = uv_fs_close(_loop->get_loop(), &req, _file, NULL);
+		//the descriptor is gone even if the close fails
+		uv_file file = _file;
+		_file = 0;
+
+		int r = uv_fs_close(_loop->get_loop(), &req, file, NULL);
 		UVCHECK(r);
 
 		UVCHECK(req.result);
@@ -343,8 +384,6 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	//std::cout << _T("cfile::close 3\t") << _served << _T("\t") << _outstanding << std::endl;
 
-		_file = 0;
-
 		return CResource<CPromise<uv_fs_t>>();
 	}
 }
@@ -366,9 +405,12 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	cb->_uv_fs_t->data = cb;
 	cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 
-	cb->set_er();
+	cb->set_er([cb](std::exception_ptr eptr) -> bool { cb->not_delivered(eptr); return true; });
+	cb->_expected = size;
+
+	auto_lock l(_loop->loop_lock());
 
-	uint64_t * ppos = &_position;
+	cfile * myself = this;
 	uint64_t    pos =  _position;
 
 #ifdef _DEBUG
@@ -377,23 +419,24 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	cb->_expt = size;
 #endif
 	
-	cb->set_cb([pBuffer/*, ppos*/](CResource<uv_fs_t> & req)  
+	cb->set_cb([pBuffer, myself, pos](CResource<uv_fs_t> & req)  
 		{
+			//what has been written can be read
+			if (myself->_file_stat.st_size < pos + pBuffer->size())
+				myself->_file_stat.st_size = pos + pBuffer->size();
+
 			/*(*ppos) += pBuffer->size();*/
 			//keep an active reference to the buffer. //we can work in fire and forget.
-			_ASSERTE(req->result = pBuffer->size());
+			_ASSERTE(req->result == pBuffer->size());
 	    }
 	);
 
-	CResource<CPromise<uv_fs_t>> f = cb->forward();
-
-	do_outstanding(cb);
+	CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 	do {
 
-		auto_lock l(_loop->loop_lock());
 		int r = uv_fs_write(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-		UVCHECK(r);
+		submitted(cb, r);
 
 	} while (0);
 
@@ -423,17 +466,20 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 		
 		cb->set_er(
-			[promise](std::exception_ptr  eptr)  mutable -> bool 
-			{ promise->call_er(eptr); return true; }
+			[promise, cb](std::exception_ptr  eptr)  mutable -> bool 
+			{ cb->not_delivered(eptr); promise->call_er(eptr); return true; }
 		);
 			
 
-		uint64_t * ppos = &_position;
+		auto_lock l(_loop->loop_lock());
+
 		uint64_t    pos = _position;
 
 		if ((pos + size) > this->size())
 			size = static_cast<uint32_t>(this->size() - pos);
 
+		cb->_expected = size;
+
 #ifdef _DEBUG
 		//cb->_sequence = _leave_r_sequence++;
 		cb->_p_arrive = &_arrive_r_sequence;
@@ -450,13 +496,10 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 			}
 		);
 
-		do_outstanding(cb);
-
 		do {
 
-			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_read(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-			UVCHECK(r);
+			submitted(cb, r);
 
 		} while (0);
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..e4b98c4 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -50,9 +50,33 @@ struct struct_file_cb: CPromise<uv_fs_t>
 #endif
 
 	uint32_t			* _p_served;
+	uint32_t			* _p_read_served;
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
+
+	MGUV::uvloopthread  * _p_loop;
+
+	ssize_t               _expected;  //less than this is a failure
+	bool                  _delivered; //the operation succeeded and its listener has been called
+
+	struct_file_cb()
+		: _sequence(0)
+		, _p_served(NULL)
+		, _p_read_served(NULL)
+		, _p_forward(NULL)
+		, _p_loop(NULL)
+		, _expected(0)
+		, _delivered(false)
+	{}
+
+	//what a listener throws was already offered to the listener own error
+	//listener. Only the operation failure has still to be told.
+	void not_delivered(std::exception_ptr eptr)
+	{
+		if (_delivered)
+			std::rethrow_exception(eptr);
+	}
 };
 
 class cfile
@@ -83,20 +107,39 @@ class cfile
 	uint32_t            _outstanding;
 	uint32_t            _served;
 
+	//reads are delivered in the order they are issued
+	uint32_t            _read_outstanding;
+	uint32_t            _read_served;
+
 	signal_event        _ended;
 
+	 //with the loop locked after the request has been submitted
 	 void do_outstanding(struct_file_cb * fcb)
 	 {
 		 fcb->_p_served = &_served;
+		 fcb->_p_read_served = &_read_served;
+		 fcb->_p_loop = _loop;
 		 //fcb->_p_outstanding = &_outstanding;
 
 		 //(*fcb->_p_outstanding)++;
-		 fcb->_sequence = _outstanding;
+		 fcb->_sequence = (UV_FS_READ == fcb->_uv_fs_t->fs_type) ? _read_outstanding++ : _outstanding;
 		 fcb->_p_forward = &_unordered_buffer;
 
 		 _outstanding++;
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
 	 }
+
+	 void submitted(struct_file_cb * fcb, int r)
+	 {
+		 if (0 > r)
+			 delete fcb; //it will never be called back
+		 UVCHECK(r);
+
+		 do_outstanding(fcb);
+	 }
+
+	 //with the loop locked and nothing outstanding
+	 CResource<CPromise<uv_fs_t> > do_close(bool async);
 protected:
 	void loop_now() {
 		_loop->loop_now();
-- 
2.43.0


From 9b02b038f5fd4f805f47995dfd104cf8fd29387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 06/37] fix: copy_stream returned early, lost errors, copied
 past the end position

---
 src/mg/core/bitstream.cpp | 217 ++++++++++++++++++++++++--------------
 src/mg/core/bitstream.h   |   6 +-
 src/mg/core/file.h        |  32 +++++-
 3 files changed, 167 insertions(+), 88 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..672f09d 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -35,148 +35,187 @@ class _ccopy_stream :public Ibitstream_cb
 	signal_event         _read_event;
 	signal_event         _write_event;
 
-	
+	critical_section     _cs; //protects what follows
 
 	uint32_t _read;
 	uint32_t _write;
-	uint32_t _traveling;
 	uint32_t _max_out;
 
+	uint64_t _bytes_read;
+	uint64_t _bytes_written;
+
+	bool _empty_read;
+
+	std::exception_ptr _eptr; //the first failure
 
-	bool _wait_end;
+	//a chunk has been written, or it never will
+	void done()
+	{
+		_write++;
 
-	void wait(signal_event & ev) {
+		if (_read - _write <= _max_out)
+		{
+			_read_event.signal();
+			FDBGC3(COPY_STREAM_DEBUG, "read-signal\t%u\t%u\t%u", (_read - _write), _read, _write);
+		}
 
-		if (!ev.wait(TIMEOUT))
-			if (!ev.wait(MICROTIMEOUT))
-				throw Timeout(__FILE__, __LINE__);
+		if (_read == _write)
+		{
+			FDBGC2(COPY_STREAM_WAIT, "write-signal\t%u\t%u", _read, _write);
+			_write_event.signal();
+		}
 	}
 
 public:
 
-	
-
+	Ibitstream_storage & _source;
 	Ibitstream_storage & _destination;
+
+	void idle()
+	{
+		_source.idle();
+		_destination.idle();
+	}
+
+	bool outstanding(uint32_t max)
+	{
+		auto_lock l(_cs);
+
+		return _read - _write > max;
+	}
 	
 	void wait_read()
 	{
-		while (_read - _write > _max_out)
+		while (outstanding(_max_out))
 		{
 			_read_event.reset();
-			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
-			//wait(_read_event);
-			
-			_destination.idle();
+			FDBGC2(COPY_STREAM_WAIT, "wait-read\t%u\t%u", _read, _write);
+
+			idle();
 
-			_read_event.wait(SMALL_WAIT);
+			if (outstanding(_max_out))
+				_read_event.wait(SMALL_WAIT);
 		}
 	}
 
+	//nothing is called back anymore after this
 	void wait_end()
 	{
-		_wait_end = true;
-
-		if (_read == _write)
+		while (outstanding(0))
 		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
-			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
-			}
+			_write_event.reset();
+			FDBGC2(COPY_STREAM_DEBUG, "wait-end\t%u\t%u", _read, _write);
+
+			idle();
 
-			return;
+			if (outstanding(0))
+				_write_event.wait(SMALL_WAIT);
 		}
+	}
 
-		while (!_write_event.wait(SMALL_WAIT))
-		{
+	bool failed()
+	{
+		auto_lock l(_cs);
 
-			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
+		return _eptr != nullptr;
+	}
 
-			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
+	bool empty_read()
+	{
+		auto_lock l(_cs);
 
-					MGCHECK(E_TIMEOUT);
-				}
+		return _empty_read;
+	}
 
-				return;
-			}
+	void check()
+	{
+		if (_eptr != nullptr)
+			std::rethrow_exception(_eptr);
 
-			
+		if (_bytes_read != _bytes_written)
+		{
+			MGCHECK(E_UNKNOWN);
 		}
-
-		_write_event.wait();
-
 	}
 
 
-	_ccopy_stream(Ibitstream_storage & destination)
-		:_destination(destination)
-		, _read(0)
+	_ccopy_stream(Ibitstream_storage & source, Ibitstream_storage & destination)
+		: _read(0)
 		, _write(0)
-		, _traveling(0)
 		, _max_out(10)
-		, _wait_end(false)
+		, _bytes_read(0)
+		, _bytes_written(0)
+		, _empty_read(false)
+		, _source(source)
+		, _destination(destination)
 
 	{
-		_write_event.reset();
 	}
 
 	
-	void read(Ibitstream_storage & source, uint32_t chunk)
+	void read(uint32_t chunk)
 	{
-		_read++;
+		do {
+			auto_lock l(_cs);
+			_read++;
+		} while (0);
 
-		
-		source.read(chunk, this);
-
-		
+		try {
+			_source.read(chunk, this);
+		}
+		catch (...)
+		{
+			err_cb(std::current_exception());
+		}
 	}
 
 	virtual void read_cb(const unsigned char * p_val, uint32_t read) override
 	{
 
-		//DBGC0(_T("-COPY-WAIT-READ-SIGNAL"));
-		
-		
-		_traveling++;
-		
+		FDBGC2(COPY_STREAM_DEBUG, "read-cb\t%u\t%u", _read, _write);
+
+		do {
+			auto_lock l(_cs);
 
-		FDBGC3(COPY_STREAM_DEBUG, "read-cb\t%u\t%u\t%u", _read, _write, _traveling);
+			_bytes_read += read;
 
-				
-		_destination.write(const_cast<unsigned char*>(p_val), read, this);
+			if (!read)
+			{
+				_empty_read = true;
+				done();
+				return;
+			}
 
-		//std::cout << "read_cb" << std::endl;
+		} while (0);
+
+		try {
+			_destination.write(const_cast<unsigned char*>(p_val), read, this);
+		}
+		catch (...)
+		{
+			err_cb(std::current_exception());
+		}
 	}
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		auto_lock l(_cs);
 
-		_write++;
-		
-		if (_read - _write <= _max_out)
-		{
-			_read_event.signal();
-			FDBGC4(COPY_STREAM_DEBUG, "read-signal\t%u\t%u\t%u\t%u", (_read - _write), _read, _write, _traveling);
-		}
+		FDBGC2(COPY_STREAM_DEBUG, "write-cb\t%u\t%u", _read, _write);
 
-		FDBGC3(COPY_STREAM_DEBUG, "write-cb\t%u\t%u\t%u", _read, _write, _traveling);
+		_bytes_written += written;
 
-		if (_wait_end)
-		{
-			if (_read == _write)
-			{
-				FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
-				_write_event.signal();
-			}
-		}
+		done();
+	}
+
+	virtual void err_cb(std::exception_ptr eptr) override
+	{
+		auto_lock l(_cs);
+
+		if (_eptr == nullptr)
+			_eptr = eptr;
 
+		done();
 	}
 };
 
@@ -192,7 +231,7 @@ void copy_stream(
 	//if (0 != startpos)
 		source.set_position(startpos);
 
-	_ccopy_stream ccs(destination);
+	_ccopy_stream ccs(source, destination);
 
 	///ccs._write_event.reset();
 
@@ -200,10 +239,19 @@ void copy_stream(
 	{
 	
 		ccs.wait_read();
+
+		//a source which is not at its end has something to give
+		if (ccs.failed() || ccs.empty_read())
+			break;
 		
 		FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
+		uint32_t size = chunk;
+
+		if (endpos != 0 && endpos - source.get_position() < size)
+			size = static_cast<uint32_t>(endpos - source.get_position());
+
+		ccs.read(size);
 		
 	}
 
@@ -214,8 +262,13 @@ void copy_stream(
 
 	FDBGC0(COPY_STREAM_WAIT, "ended");
 
+	ccs.check();
+
 	destination.flush();
 
+	//the source has been cut short
+	if (!source.eof() && (endpos == 0 || endpos > source.get_position()))
+		throw EndOfData(__FILE__, __LINE__);
 	
 }
 
diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..6f29fed 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -127,9 +127,9 @@ public:
 	virtual void read_cb(const unsigned char * p_val, uint32_t read) = 0;
 	virtual void write_cb(uint32_t written) = 0;
 
-	
-
-	//TODO: err_cb
+	//the operation failed: it will not be called back otherwise.
+	//An error which is not handled here is reported to the loop owner.
+	virtual void err_cb(std::exception_ptr eptr) { std::rethrow_exception(eptr); }
 
 };
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e4b98c4..3a6e052 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -144,6 +144,18 @@ protected:
 	void loop_now() {
 		_loop->loop_now();
 	}
+
+	//with this locked nothing is called back
+	critical_section & loop_lock() { return _loop->loop_lock(); }
+
+	//somebody is waiting for what is outstanding
+	void progress()
+	{
+		if (_loop->is_done())
+			_loop->complete_all();
+		else
+			loop_now();
+	}
 public:
 	cfile(MGUV::loopthread & loop);
 
@@ -187,7 +199,14 @@ public:
 
 	virtual void read(uint32_t to_read, Ibitstream_cb * pcb)
 	{
-		cfile::read(to_read)->set_er().set_cb(
+		auto_lock l(loop_lock());
+
+		cfile::read(to_read)->set_er(
+			[pcb](std::exception_ptr eptr) -> bool
+		{
+			pcb->err_cb(eptr);
+			return false;
+		}).set_cb(
 			[pcb](CResource<CBuffer<unsigned char> > & buf) mutable
 		{
 			pcb->read_cb(buf->get(), ST_U32(buf->size()));
@@ -200,7 +219,14 @@ public:
 
 	virtual void write(const unsigned char * pbytes, uint32_t to_write, Ibitstream_cb * pcb)
 	{
-		cfile::write(pbytes, to_write)->set_er().set_cb(
+		auto_lock l(loop_lock());
+
+		cfile::write(pbytes, to_write)->set_er(
+			[pcb](std::exception_ptr eptr) -> bool
+		{
+			pcb->err_cb(eptr);
+			return false;
+		}).set_cb(
 			[pcb](CResource<uv_fs_t> & r)
 		{
 			pcb->write_cb(ST_U32(r->result));
@@ -214,7 +240,7 @@ public:
 	virtual uint64_t get_position() const { return cfile::get_position(); }
 	virtual void     set_position(uint64_t rhs) { cfile::set_position(rhs); }
 
-	virtual void idle() { this->loop_now(); };
+	virtual void idle() { this->progress(); };
 };
 
 class sync_file_bitstream : public Ibitstream_storage
-- 
2.43.0


From d86a95c0cb4d8b1c1eedf846de6aff452c3f0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 07/37] fix: synchronous file storage ignored errors and
 truncated positions to 32 bits

---
 src/mg/core/file.h | 81 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 3a6e052..934605e 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -250,15 +250,27 @@ class sync_file_bitstream : public Ibitstream_storage
 
 	uint64_t _size;
 
+	bool     _reading;
+
+	//what has not been read, or written, is not silently forgotten
+	void check_error()
+	{
+		if (ferror(_f))
+		{
+			UVCHECK(UV_EIO);
+		}
+	}
+
 public:
 
-	sync_file_bitstream():_f(NULL), _buffer(64 * 1024)
+	sync_file_bitstream():_f(NULL), _buffer(64 * 1024), _size(0), _reading(true)
 	{
 		
 	}
 
 	void open(const TCHAR * pszName, bool read = true)
 	{
+		_reading = read;
 		_f = ::fopen(pszName, (read) ? "rb" : "wb");
 		if (NULL == _f)
 		{
@@ -269,6 +281,11 @@ public:
 		uv_fs_t req;
 
 		int r = uv_fs_stat(uv_default_loop(), &req, pszName, NULL); //sinc
+		if (0 > r)
+		{
+			::fclose(_f);
+			_f = NULL;
+		}
 		UVCHECK(r);
 
 		_size = req.statbuf.st_size;
@@ -276,7 +293,7 @@ public:
 	}
 
 	sync_file_bitstream(const TCHAR * pszName, bool read = true)
-		:_buffer(64 * 1024)
+		:_f(NULL), _buffer(64 * 1024), _size(0), _reading(read)
 	{
 		open(pszName, read);
 	}
@@ -284,7 +301,12 @@ public:
 
 	size_t read(uint32_t to_read, unsigned char * pbyte)
 	{
-		return ::fread(pbyte, 1, to_read, _f);
+		size_t r = ::fread(pbyte, 1, to_read, _f);
+
+		if (r < to_read)
+			check_error();
+
+		return r;
 	}
 
 	
@@ -292,7 +314,7 @@ public:
 	{
 		_buffer.prepare(to_read);
 
-		size_t r = ::fread(_buffer.get(), 1, to_read, _f);
+		size_t r = read(to_read, _buffer.get());
 
         //_ASSERTE(r == to_read);
 
@@ -313,31 +335,70 @@ public:
 		//size_t r = ::fwrite(pbytes, 1, to_write, _f);
 		size_t r = write(pbytes, to_write);
 
+		if (r < to_write)
+			check_error();
+
 		pcb->write_cb(ST_U32(r));
 	}
 
 	virtual void flush()
 	{
-		size_t r = ::fflush(_f);
+		int r = ::fflush(_f);
+		if (0 != r)
+		{
+			UVCHECK(UV_EIO);
+		}
+
+		//an earlier write
+		check_error();
 	}
 
-	virtual uint64_t get_position() const { return ::ftell(_f); }
+#ifdef _WIN32
+	virtual uint64_t get_position() const { return ::_ftelli64(_f); }
+#else
+	virtual uint64_t get_position() const { return ::ftello(_f); }
+#endif
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+#ifdef _WIN32
+		int r = ::_fseeki64(_f, rhs, SEEK_SET);
+#else
+		int r = ::fseeko(_f, rhs, SEEK_SET);
+#endif
+		if (0 != r)
+		{
+			UVCHECK(UV_EIO);
+		}
 	}
 
 	void close()
 	{
-		if(_f)
-			::fclose(_f);
+		if (!_f)
+			return;
+
+		//a failed write, which a later flush does not repeat
+		bool failed = !_reading && ferror(_f);
+
+		if (0 != ::fclose(_f))
+			failed = true;
 
 		_f = NULL;
+
+		if (failed)
+		{
+			UVCHECK(UV_EIO);
+		}
 	}
 
 	virtual ~sync_file_bitstream()
 	{
-		close();
+		try {
+			close();
+		}
+		catch (...)
+		{
+			//close before destroying to know
+		}
 	}
 
 	virtual uint64_t size()
-- 
2.43.0


From 50046a899d509ab0c78a43a5d7f1fcaac49edf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 08/37] fix: bit reader and writer: exact end of data, seeks
 and skips whatever background read is pending; failed reads reported; no
 destruction under pending writes

The reader took an empty shadow buffer for the end while its last read was
still on its way, lost or repeated bytes when a read completed between the
consumer's check and its use, skipped and seeked wrongly around the buffered
data, hung or read uninitialised memory after a failed or late read and wrote
past its buffer with small buffer sizes. The writer's objects could be
destroyed while writes were still going to be called back, truncated the
position of big writes and wrote nothing when skipping.
---
 src/mg/core/bitstream.h   | 667 +++++++++++++++++---------------------
 src/mg/media/TBitstream.h |   6 +-
 2 files changed, 304 insertions(+), 369 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 6f29fed..f53967e 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -269,18 +269,24 @@ class bitstream_base : public Ibitstream_cb
 
 	unsigned char *_shadow_buf;     // shadow buffer
 	uint32_t         _shadow_len;     // from begging to _shadow_end available to read
-	bool	       _load_shadow;
 
 	signal_event     _load_event;
 	critical_section _load_lock;
 
 	bool _load;
 
-	bool _pending_read;
+	std::exception_ptr _eptr; //the outstanding read failed: what follows is not there
 
+	uint32_t         _writing; //writes which have not been called back
+	signal_event     _write_event;
+
+	//_nextbits and _putbits access whole words
+	enum {EXTRA_BYTES = 8};
+
+	//nothing is read in background after this
 	void wait() {
 		
-		if (_p_cb)
+		if (_p_cb && !_load_event.is_signaled())
 		{
 			_p_cb->idle();
 
@@ -289,29 +295,94 @@ class bitstream_base : public Ibitstream_cb
 					throw Timeout(__FILE__, __LINE__);
 		}
 	}
-	
-	void internal_read(uint32_t size, bool async = true)
+
+	//nothing is read in background after this and what has been asked is there
+	void wait_data() {
+
+		wait();
+
+		if (_eptr != nullptr)
+			std::rethrow_exception(_eptr);
+	}
+
+	//nothing is called back after this
+	void wait_all()
+	{
+		if (!_p_cb)
+			return;
+
+		while (!_load_event.is_signaled())
+		{
+			_p_cb->idle();
+			_load_event.wait(MICROTIMEOUT);
+		}
+
+		for (;;)
+		{
+			do {
+				auto_lock l(_load_lock);
+
+				if (!_writing)
+					return;
+
+				_write_event.reset();
+
+			} while (0);
+
+			_p_cb->idle();
+			_write_event.wait(MICROTIMEOUT);
+		}
+	}
+
+	//append to the shadow buffer in background
+	//with no other request pending
+	void internal_read(uint32_t size)
 	{
 		_ASSERTE(_p_cb);
 
-		if (_p_cb->eof())
+		if (_p_cb->eof() || !size)
 			return;
 
-		//if (0 < _shadow_len)
+		FDBGC1(BITSTREAM_READ_DEBUG, "INTERNAL_READ_LOAD_RESET\t%u", size);
+		_load_event.reset();
+
+		try {
+			_p_cb->read(size, this);
+		}
+		catch (...)
 		{
-			//Make sure no other request are pending
-			wait();
+			//told when these bytes are needed
+			err_cb(std::current_exception());
 		}
-		
-		FDBGC2(BITSTREAM_READ_DEBUG, "INTERNAL_READ_LOAD_RESET\t%u\t%d", size, async);
-		_load_event.reset();
+	}
 
-		_pending_read = true;
-		_p_cb->read(size, this);
+	//is there something after the buffer? Then some of it is in the shadow buffer
+	bool more()
+	{
+		wait_data();
 
-		if (!async)
-			wait();
+		if (!_shadow_len && !_p_cb->eof())
+		{
+			internal_read(_buf_size);
+			wait_data();
+
+			//not at the end, but nothing to give
+			if (!_shadow_len && !_p_cb->eof())
+				throw InvalidInput(__FILE__, __LINE__);
+		}
 
+		return 0 != _shadow_len;
+	}
+
+	//this is a template to be able to skip storages without a size
+	template<class S> static auto storage_size(S & storage, int) -> decltype(static_cast<uint64_t>(storage.size()))
+	{
+		return static_cast<uint64_t>(storage.size());
+	}
+
+	template<class S> static uint64_t storage_size(S & storage, long)
+	{
+		return ~static_cast<uint64_t>(0);
 	}
 	
 	void internal_write(unsigned char * pbytes, uint32_t size, bool async = true)
@@ -355,37 +426,60 @@ class bitstream_base : public Ibitstream_cb
 
 		*/
 
-		_p_cb->write(pbytes, size, this);
+		do_write(pbytes, size);
 	}
 
+	void do_write(const unsigned char * pbytes, uint32_t size)
+	{
+		do {
+			auto_lock l(_load_lock);
+			_writing++;
+		} while (0);
+
+		try {
+			_p_cb->write(pbytes, size, this);
+		}
+		catch (...)
+		{
+			written();
+			throw;
+		}
+	}
+
+	//nothing is accessed after the lock: we can be destroyed
+	void written()
+	{
+		auto_lock l(_load_lock);
+
+		if (!(--_writing))
+			_write_event.signal();
+	}
 
-	void fill_buf();
+	void switch_buf();
+	void fill_buf(uint32_t bits);
 
 	void reload()
 	{
 		if (!_load)
 		{
-			::memset(_buf, 0, _buf_size);
+			::memset(_buf, 0, _buf_size + EXTRA_BYTES);
 			return;
 		}
 
-		wait();
-
 		_buf_len = 0;
 		_shadow_len = 0;
 		_cur_bit = 0;
 
-			//do a first sync read in _buf
-			_load_shadow = false;
-			internal_read(_buf_size, false);
-
-			_load_shadow = true;
-			internal_read(_buf_size, true);
+		internal_read(_buf_size);
 	}
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		//at least the biggest read has to fit
+		if (buf_len < EXTRA_BYTES)
+			buf_len = EXTRA_BYTES;
+
+		_buf        = new unsigned char[buf_len + EXTRA_BYTES];
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
@@ -508,6 +602,9 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			//there is nothing to align to
+			if (_load && atend())
+				break;
 			s += 8;
 			_skipbits(8);
 		}
@@ -519,7 +616,8 @@ protected:
 public:
 
 	virtual void read_cb(const unsigned char * p_val, uint32_t read);
-	virtual void write_cb(uint32_t read);
+	virtual void write_cb(uint32_t size);
+	virtual void err_cb(std::exception_ptr eptr);
 
 	void create(CResource<Type > & p_cb
 		, uint32_t size = DEFAULT_FILE_PAGE
@@ -529,6 +627,7 @@ public:
 
 		_buf = NULL;
 		_tot_bits = 0;
+		_writing = 0;
 		
 		//_ASSERTE(size > 4);
 
@@ -547,14 +646,14 @@ public:
 		create(p_cb, size, load);
 	}
 
-	bitstream_base():_buf(NULL), _shadow_buf(NULL)
+	bitstream_base():_buf(NULL), _shadow_buf(NULL), _writing(0)
 	{
 		
 	}
 
 	virtual ~bitstream_base()
 	{
-		wait();
+		wait_all();
 
 		if (_buf)
 			delete[] _buf;
@@ -563,29 +662,41 @@ public:
 			delete[] _shadow_buf;
 	}
 		
+	uint64_t buf_bits() const { return static_cast<uint64_t>(_buf_len) << 3; }
+
 	virtual bool atend()
 	{
-		if (_p_cb->eof())
-			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
-					return true;
+		if (buf_bits() > _cur_bit)
+			return false;
+
+		if (_load)
+			return !more();
 
-		return false;
+		return _p_cb->eof();
 	}
 	
 	inline bool has_bits(int nbit)
 	{
-		if (_p_cb->eof())
-		{
-			uint64_t available = (_buf_len << 3) - _cur_bit;
-			//if (((_buf_len * 8 - _cur_bit) - nbit) >= 0)
-			if(available >= nbit)
-				return true;
+		uint64_t needed = _cur_bit + nbit;
+
+		if (buf_bits() >= needed)
+			return true;
 
+		if (!more())
 			return false;
+
+		//what is not in the shadow buffer yet
+		uint64_t available = buf_bits() + (static_cast<uint64_t>(_shadow_len) << 3);
+
+		while (available < needed && _shadow_len < _buf_size && !_p_cb->eof())
+		{
+			internal_read(_buf_size - _shadow_len);
+			wait_data();
+
+			available = buf_bits() + (static_cast<uint64_t>(_shadow_len) << 3);
 		}
 
-		return true;
+		return available >= needed || !_p_cb->eof();
 	}
 	
 	uint64_t _getpos(void) const { return _tot_bits; }
@@ -644,6 +755,8 @@ public:
 
 	virtual uint32_t _little_getbits(int n)
 	{
+		_nextbits(n);                       // all of it or nothing
+
 		register unsigned int x = 0;        // the value we will return
 		int bytes = n >> 3;                 // number of bytes to read 
 		int leftbits = n % 8;               // number of bits to read
@@ -699,135 +812,59 @@ public:
 	
 	virtual void _set_position_read(uint64_t rhs) {
 
-		bool do_reload = false;
-		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
-			{
-				wait();
-			}
-
-			mg::core::auto_lock l(_load_lock);
-			
-			//buffer start
-			uint64_t epos = _p_cb->get_position();
-            
-			uint64_t kpos  = epos;
-			kpos -= _buf_len;
-			kpos -= _shadow_len;
-			uint64_t pos = kpos + (_cur_bit >> 3);
-
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-			FDBGC6(BITSTREAM_POSITION_DEBUG
-				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
-				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
-
-			if ((rhs < epos) //already read
-				&& (kpos <= rhs)
-				)
-			{
-
-
-
-				//we can move in buffer
-				uint64_t cur_ava = (_buf_len - (_cur_bit >> 3));
-				uint64_t advance = 0;
-				
-				if(rhs > pos)
-					advance = rhs - pos;
-
-				if (advance > cur_ava)
-				{
-					
-
-					_ASSERTE((advance - cur_ava) <= _shadow_len);
-
-					_cur_bit  += (cur_ava << 3);
-					_tot_bits += (cur_ava << 3);
-
-					//force buffer switch
-					this->_nextbits(32);
-
-					_ASSERTE(0 == _cur_bit);
-					//_ASSERTE(0 == _shadow_len);
-
-					uint64_t n = ((advance - cur_ava) << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit  += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-				}
-				else if ((rhs < pos) && rhs >= (kpos))
-				{
-					//move backward
-					uint64_t n = pos - rhs;
-
-					_ASSERTE((_cur_bit >> 3) >= n);
-					_ASSERTE((_tot_bits >> 3) >= n);
-
-					_cur_bit -= (n << 3);
-
-					if (_tot_bits < (n << 3))
-						_tot_bits = 0;
-					else
-						_tot_bits -= (n << 3);
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
-				else
-				{
-					//move in current buffer
-					uint64_t n = (advance << 3);
+		//nothing can be read in background while moving. A failed read is forgotten
+		//since what follows the new position is read again.
+		wait();
 
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
+		bool failed = (_eptr != nullptr);
 
-					_cur_bit += n;
-					_tot_bits += n;
+		//the end is the last position
+		uint64_t end = storage_size(_p_cb.GetRef(), 0);
+		if (rhs > end)
+			rhs = end;
 
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
+		//buffer start
+		uint64_t epos = _p_cb->get_position();
+		uint64_t spos = epos - _shadow_len;
+		uint64_t kpos = spos - _buf_len;
 
-				}
-			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
-			else
-			{
-                
+		FDBGC5(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, epos, _buf_len, _shadow_len, _buf_size);
 
-				//reset
-                _p_cb->set_position(rhs);
-				_tot_bits = rhs << 3;
+		if (!failed && rhs > epos && _p_cb->eof())
+			rhs = epos;
 
-				do_reload = true;
+		if (!failed && kpos <= rhs && rhs <= spos)
+		{
+			//move in buffer
+			_cur_bit = (rhs - kpos) << 3;
+		}
+		else if (!failed && spos < rhs && rhs <= epos)
+		{
+			//move in shadow
+			_cur_bit = buf_bits();
+			switch_buf();
+			_cur_bit = (rhs - spos) << 3;
+		}
+		else
+		{
+			_p_cb->set_position(rhs);
 
-				FDBGC3(BITSTREAM_READ_DEBUG
-					, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 ""
-					, rhs, epos, pos);
+			_eptr = nullptr;
 
-			}
+			FDBGC2(BITSTREAM_READ_DEBUG
+				, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 ""
+				, rhs, epos);
 
+			reload();
 		}
 
-		if(do_reload)
-			reload();
+		_tot_bits = rhs << 3;
 
-		FDBGC5(BITSTREAM_POSITION_DEBUG
-			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%d"
-			, rhs, _cur_bit, _shadow_len, _buf_len, do_reload);
+		FDBGC4(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, _cur_bit, _shadow_len, _buf_len);
 
 	}
 
@@ -893,9 +930,9 @@ public:
 		}
 		*/
 
-		_p_cb->write(pbyte, size, this); //fire and forget
+		do_write(pbyte, size); //fire and forget
 
-		_tot_bits += (size << 3);
+		_tot_bits += (static_cast<uint64_t>(size) << 3);
 	}
 	
 	
@@ -903,68 +940,36 @@ protected:
 
 	virtual void _skipbits(uint16_t n)
 	{
-		//_getbits(n); 
-
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		if (!_load)
 		{
-			//we do not have enough bits
-
-			uint64_t bit_sha = _shadow_len << 3;
-
-			if ((bit_ava + bit_sha) > n)
+			//zeros are written
+			while (n)
 			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
+				short k = (n > 32) ? 32 : n;
+				_putbits(0, k);
+				n -= k;
 			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
 
-						 uint64_t remain = pos % 8;
+			return;
+		}
 
-						 _set_position((pos + n) >> 3);
+		for (;;)
+		{
+			uint64_t k = buf_bits() - _cur_bit;
 
-						 _ASSERTE(_cur_bit == 0);
+			if (k > n)
+				k = n;
 
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
+			_cur_bit += k;
+			_tot_bits += k;
+			n -= static_cast<uint16_t>(k);
 
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
-
-                _ASSERTE(atend());
-            }
+			//enough, or we are at the end
+			if (!n || !more())
+				return;
 
+			switch_buf();
 		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
-		}
-
 	}
 private:
 
@@ -977,57 +982,14 @@ private:
 		
 		
 		if (available > size)
-		{
-			(*read) = size;
-			
-			::memcpy(pbytes, this->_buf + used, size);
-
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
-			_ASSERTE(((_cur_bit >> 3) + size) <= _buf_size);
+			available = size;
 
-			this->_cur_bit += (size << 3);
-			this->_tot_bits += (size << 3);
+		::memcpy(pbytes, this->_buf + used, available);
 
-			this->_nextbits(32); //reload buffer if needed
-		}
-		else /*if ((available + this->_shadow_len) > size)*/
-		{
-			
-			::memcpy(pbytes, this->_buf + used, available);
-
-			this->_cur_bit += (available << 3);
-			this->_tot_bits += (available << 3);
+		this->_cur_bit += (static_cast<uint64_t>(available) << 3);
+		this->_tot_bits += (static_cast<uint64_t>(available) << 3);
 
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			else
-			{
-				//we are at the end
-				(*read) = available;
-				return;
-			}
-
-			uint32_t todo = size - available;
-
-			if (todo > this->_buf_len)
-			{
-				todo = this->_buf_len;
-			}
-
-			_ASSERTE(this->_buf_len >= todo);
-			_ASSERTE(0 == this->_cur_bit);
-
-			::memcpy(pbytes + available, this->_buf, todo);
-
-			this->_cur_bit += (todo << 3);
-			this->_tot_bits += (todo << 3);
-
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
-			(*read) = available + todo;
-
-		}
+		(*read) = available;
 	}
 
 protected:
@@ -1040,13 +1002,20 @@ protected:
 
 		_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
-		while (done < size && (!this->atend()))
+		//between bytes
+		while ((_cur_bit & 7) && done < size && has_bits(8))
 		{
-			if(done)
-				wait();
+			pbytes[done++] = static_cast<unsigned char>(_getbits(8));
+		}
 
+		while (!(_cur_bit & 7) && done < size && (!this->atend()))
+		{
 			_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
+			//atend knows that there is more
+			if (buf_bits() <= _cur_bit)
+				switch_buf();
+
 			uint32_t working(0);
 			__read(pmybytes, mysize, &working);
 
@@ -1159,137 +1128,102 @@ public:
 
 };  
 
-template<class Type> void bitstream_base<Type>::fill_buf()
+//move what has not been read to the beginning of the buffer and refill it from
+//the shadow buffer, which then is refilled in background.
+//There is no pending request here
+template<class Type> void bitstream_base<Type>::switch_buf()
 {
-	if ((!_shadow_len) && _p_cb->eof())
-		throw EndOfData(_T(__FILE__), __LINE__);
-
-	_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-	if (_shadow_len != _buf_size) {
-		wait();
-	}
+	uint32_t	n;	// how many bytes we must fetch (already read)
+	uint32_t	u;	// how many are still unread
 
-	{
-		auto_lock l(_load_lock);
+	n = static_cast<uint32_t>(_cur_bit >> 3);
 
-		//DBGC2("READ\tENTER-FILL-BUFFER\t%d\t%d", _shadow_len, _buf_size);
-		
-		_ASSERTE( ( _shadow_len == _buf_size) || _p_cb->eof() );
-		_ASSERTE((_cur_bit >> 3) <= _buf_size);
+	_ASSERTE(n <= _buf_len);
 
-		uint32_t	n;	// how many bytes we must fetch (already read)
-					//uint32_t	l(0);	// how many bytes we will fetch (available)
-		uint32_t	u;	// how many are still unread
+	u = _buf_len - n;
 
-		n = static_cast<uint32_t>(_cur_bit >> 3);
+	// move unread contents to the beginning of the buffer
+	memmove(_buf, _buf + n, u);
 
-		_ASSERTE(n > 0);
-		_ASSERTE(n <= _buf_size);
+	// now we are at the first byte
+	_cur_bit &= 7;
 
-		u = _buf_len - n;
-
-		// move unread contents to the beginning of the buffer
-		memmove(_buf, _buf + n, u);
-		// clear the rest of buf
-		memset(_buf + u, 0, n);
-
-		// now we are at the first byte
-		_cur_bit &= 7;
-		//we have u bytes in buffer yet to read
-		_buf_len = u;
+	//move as much as we can from _shadow
+	uint32_t k = _buf_size - u;
+	if (k > _shadow_len)
+		k = _shadow_len;
 
-		_ASSERTE( ( n == _buf_size - _buf_len ) ||  _p_cb->eof() );
-				
-		//move as much as we can from _shadow
-		_ASSERTE(_shadow_len);
-		_ASSERTE( ( n <= _shadow_len) || _p_cb->eof());
+	memcpy(_buf + u, _shadow_buf, k);
+	_shadow_len -= k;
+	memmove(_shadow_buf, _shadow_buf + k, _shadow_len);
 
-		//DBGC3("READ\tFILL-BUFFER\t%d\t%d\t%d", _shadow_len, n, _buf_size - _shadow_len);
+	_buf_len = u + k;
 
-		if (_shadow_len)
-		{
-			if (_shadow_len > n)
-			{
-				memcpy(_buf + u, _shadow_buf, n);
-				_shadow_len -= n;
-				_buf_len += n;
-			}
-			else
-			{
-				_ASSERTE( ( n == _shadow_len) || _p_cb->eof() );
+	// clear the rest of buf
+	memset(_buf + _buf_len, 0, _buf_size + EXTRA_BYTES - _buf_len);
 
-				memcpy(_buf + u, _shadow_buf, _shadow_len);
-				_buf_len += _shadow_len;
-				_shadow_len = 0;
-			}
+	internal_read(_buf_size - _shadow_len);
+}
 
-		}INVALIDELSE;
+//make bits available in the buffer
+template<class Type> void bitstream_base<Type>::fill_buf(uint32_t bits)
+{
+	while (_cur_bit + bits > buf_bits())
+	{
+		if (!more())
+			throw EndOfData(_T(__FILE__), __LINE__);
 
-		_ASSERTE(_buf_size > _shadow_len);
+		switch_buf();
 	}
-
-	_load_shadow = true;
-	internal_read(_buf_size - _shadow_len, true);
-
-    _ASSERTE(((_cur_bit) >> 3) <= _buf_len);
-
 }
 
 template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_val, uint32_t read)
 {
-	FDBGC4(BITSTREAM_READ_DEBUG, "READ_CB\t%d\t%d\t%d\t%d"
-		, _shadow_len, read, _buf_size - _shadow_len, _load_shadow);
+	FDBGC3(BITSTREAM_READ_DEBUG, "READ_CB\t%d\t%d\t%d"
+		, _shadow_len, read, _buf_size - _shadow_len);
 
-	if (_load_shadow)
-	{
-		if (read)
-		{
-			//DBGC3("READ\tCB\t%d\t%d\t%d", _shadow_len, read, _buf_size - _shadow_len);
+	do {
+		auto_lock l(_load_lock);
 
-			auto_lock l(_load_lock);
+		if (read > _buf_size - _shadow_len)
+		{
+			//more than what has been asked
+			_eptr = std::make_exception_ptr(InvalidInput(__FILE__, __LINE__));
+			break;
+		}
 
-			_ASSERTE( (read <= (_buf_size - _shadow_len)) || _p_cb->eof() );
+		if (read)
+			memcpy(_shadow_buf + _shadow_len, p_val, read);
 
-			if (read)
-			{
-				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
+		_shadow_len += read;
 
-				memcpy(_shadow_buf + _shadow_len, p_val, read);
+	} while (0);
 
-				_shadow_len += read;
-			}
+	FDBGC0(BITSTREAM_READ_DEBUG, "READ_CB_SIGNAL");
+	_load_event.signal();
+}
 
-			//_ASSERTE( (_shadow_len == _buf_size) || _p_cb->eof() );
-		
-		}//INVALIDELSE;
-	}
-	else
+template<class Type> void bitstream_base<Type>::err_cb(std::exception_ptr eptr)
+{
+	if (!_load)
 	{
-		auto_lock l(_load_lock);
-
-		//_ASSERTE(read == _buf_size - _buf_len);
-
-		_ASSERTE((_buf_len + read) <= _buf_size);
-
-		memcpy(_buf + _buf_len, p_val, read);
-
-
-		_buf_len += read;
+		//this is for the owner of the storage
+		written();
+		std::rethrow_exception(eptr);
 	}
 
-	FDBGC0(BITSTREAM_READ_DEBUG, "READ_CB_SIGNAL");
-	_pending_read = false;
+	do {
+		auto_lock l(_load_lock);
+		_eptr = eptr;
+	} while (0);
+
 	_load_event.signal();
 }
 
-template<class Type> void bitstream_base<Type>::write_cb(uint32_t written)
+template<class Type> void bitstream_base<Type>::write_cb(uint32_t size)
 {
+	written();
+
 	/*
 	DBGC0("WRITE_CB");
 
@@ -1318,10 +1252,9 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
-	if (_cur_bit + n >(_buf_len << 3))
+	if (_cur_bit + n > buf_bits())
 	{
-		fill_buf();
-		_ASSERTE(_cur_bit == 0);
+		fill_buf(n);
 	}
 
 	// starting byte in buffer
diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index 1e119db..572186e 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -90,9 +90,11 @@ public:
 		return _current_pos;
 	}
 	virtual void     set_position(uint64_t rhs) {
-		_ASSERTE(rhs < _buf_len);
-		_current_pos = rhs;
+		//there is nothing after the end
+		_current_pos = (rhs < _buf_len) ? rhs : _buf_len;
 	}
+
+	uint64_t size() const { return _buf_len; }
 };
 
 class fixed_memory_bitstream : public bitstream<fixed_memory_read>
-- 
2.43.0


From 9a36070c29053180070dbe93c0cc10d2d012fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 09/37] fix: base64 decoding read one entry past its table

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 69a53ec8ed209a0317abb1fa8e597c57ea0ae884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 10/37] fix: creating a directory that exists failed

---
 src/mg/core/nx/util.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/util.cpp b/src/mg/core/nx/util.cpp
index 81d9934..0a26706 100644
--- a/src/mg/core/nx/util.cpp
+++ b/src/mg/core/nx/util.cpp
@@ -21,6 +21,7 @@
  *****************************************************************************/
 #include "../../exception.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
@@ -55,8 +56,18 @@ void delete_file(const TCHAR* pszname)
 void create_directory(const TCHAR* pszname)
 {
     int r = mkdir(pszname , S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-    if(EEXIST != r)
-        MGCHECK(r);
+    if(0 > r && EEXIST == errno)
+    {
+        //it is fine only when it is a directory
+        struct stat st;
+        r = stat(pszname, &st);
+        if(0 == r && !S_ISDIR(st.st_mode))
+        {
+            errno = EEXIST;
+            r = -1;
+        }
+    }
+    MGCHECK(r);
 }
 
 __MGCORE_END_NAMESPACE
-- 
2.43.0


From c5ca63144ef34b3a3b2241de0a886fc6f2951352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 11/37] fix: buffer appended to itself read freed memory;
 reading past the end was not refused

---
 src/mg/cbuffer.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..f941d6e 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,11 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				if(m_iCurrent < position) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
@@ -176,7 +177,11 @@ public:
 
 	const CBuffer& operator+=(CBuffer &addbuf)
 	{
-		add(addbuf.get(), addbuf.getFull());
+		sizetype size = addbuf.getFull();
+		//it can be this buffer: its memory must not move while adding
+		if(0 < size)
+			prepare(size);
+		add(addbuf.get(), size);
 		return *this;
 	}
 	
-- 
2.43.0


From 4632879443e6bf15c43f463ed764c9165a45cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 12/37] fix: timestamps mixed two clock readings; UTC offset
 shared a buffer between threads and lost sign and minutes

---
 src/mg/core/nx/ctime.cpp | 50 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..f15a659 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -71,21 +71,20 @@ inline uint64_t total_hnano(const SYSTEMTIME & systime)
 }
 
 
-int64_t Ctime::_GetUTCOffset()
+//minutes east of UTC, no shared buffer is used: any thread can ask
+inline int64_t utc_offset(const time_t & instant)
 {
+	tm stm;
 
-	time_t rawtime = time(NULL);
-	    struct tm *ptm = gmtime(&rawtime);
-        // Request that mktime() looksup dst in timezone database
-	    ptm->tm_isdst = -1;                
-	time_t gmt = mktime(ptm);
-	    double offset = difftime(rawtime, gmt) / 60;
-
-
-
+	if(NULL == localtime_r(&instant, &stm))
+		ALXTHROW_LASTERR;
 
-	return static_cast<int64_t>(offset); 
+	return stm.tm_gmtoff / 60;
+}
 
+int64_t Ctime::_GetUTCOffset()
+{
+	return utc_offset(time(NULL)); 
 }
 
 int64_t  Ctime::GetLocalOffset(){return _GetUTCOffset();}
@@ -95,13 +94,14 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
 	MGCHECK(r);
 
+	//the date, the time and the offset belong to this very instant
+	time_t tt = ts.tv_sec;
+
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
 	tm stm;
@@ -111,7 +111,7 @@ void  Ctime::ResetToNow(bool local)
 	{
 		
 		pstm = localtime_r(&tt, &stm);
-		_offset = _GetUTCOffset();
+		_offset = utc_offset(tt);
 	}
 	else
 		pstm = gmtime_r(&tt, &stm);
@@ -180,7 +180,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return static_cast<int64_t>(total_hnano(_systime) - total_hnano((*psysBase))) / 10000LL;
 		   }
 		   else
 		   {
@@ -361,10 +361,10 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	int64_t offset = 0;
 
-	if (!_local)
-		offset = 0;
+	if (_local)
+		offset = GetUTCOffset();
 
 	if (0 != offset)
 	{
@@ -377,12 +377,20 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		const int64_t hours   = offset / 60;
+		const int64_t minutes = offset % 60;
+
+		if (hours < 10)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += hours;
+
+		tmp += _T(":");
+
+		if (minutes < 10)
+			tmp += _T("0");
 
-		tmp += _T(":00");
+		tmp += minutes;
 	}
 	else
 	{
-- 
2.43.0


From 805dbb1855188150e825aea5176d7fbe27d53efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 13/37] fix: CRC table was filled again while other threads
 were using it

---
 src/mg/media/wincrc.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/wincrc.cpp b/src/mg/media/wincrc.cpp
index 0a4544b..ee41a41 100644
--- a/src/mg/media/wincrc.cpp
+++ b/src/mg/media/wincrc.cpp
@@ -89,7 +89,7 @@ unsigned int av_crc(const AVCRC *ctx, unsigned int crc,
 }
 
 
-CWinCrc::CWinCrc(void)
+static bool av_crc_first_use()
 {	
 	CRC_TABLE_PARAM tp0 = { 0,  8,       0x07 };
 	CRC_TABLE_PARAM tp1 = { 0, 16,     0x8005 };
@@ -106,6 +106,15 @@ CWinCrc::CWinCrc(void)
     av_crc_table_params[AV_CRC_32_IEEE]        = tp4;
     av_crc_table_params[AV_CRC_32_IEEE_LE]     = tp5;
 
+	return NULL != av_crc_get_table(AV_CRC_32_IEEE);
+}
+
+CWinCrc::CWinCrc(void)
+{	
+	//the tables are filled once, whatever thread comes first: filling them 
+	//again while they are in use would change their content for a while.
+	static const bool ready = av_crc_first_use();
+	(void)ready;
 }
 
 CWinCrc::~CWinCrc(void)
-- 
2.43.0


From 1bee60daccaed7463ddb44a8aa9d27d2044b2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 14/37] fix: object handed to a resource leaked when its
 counter could not be allocated

---
 src/mg/cresource.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 70b3aee..6c2d456 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -62,15 +62,20 @@ private:
 	
 	static CInternalResource* create()
 	{
-		CInternalResource* tmp = new CInternalResource(new Type);
-		tmp->addRef();
-		return tmp;
+		return create(new Type);
 	}
 
 	static CInternalResource* create(Type *pointer)
 	{
-		CInternalResource* tmp = new CInternalResource(pointer);
-		if(0 == tmp) throw std::bad_alloc();
+		CInternalResource* tmp = 0;
+		try{
+			tmp = new CInternalResource(pointer);
+		}catch(...)
+		{
+			//the pointer is already ours: nobody else will delete it
+			delete pointer;
+			throw;
+		}
 		tmp->addRef();
 			return tmp;
 	}
-- 
2.43.0


From 04ff9177717419063292a6e3e1c391a432594925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 15/37] fix: polling an event no longer gave the other threads
 a chance to run

---
 src/mg/core/thread.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index ac84f3e..2ecf951 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -127,17 +127,22 @@ bool signal_event::wait(uint32_t millyseconds)
 
 	auto_lock l(_crit_sec);
 
+	uint64_t left = timeout;
+
+	//even a wait without time lets the others in
 	while (!_signed)
 	{
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, left);
+
+		if (UV_ETIMEDOUT != n)
+			UVCHECK(n);
+
 		const uint64_t elapsed = uv_hrtime() - start;
 
 		if (elapsed >= timeout)
-			return false;
-
-		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, timeout - elapsed);
+			return _signed;
 
-		if (UV_ETIMEDOUT != n)
-			UVCHECK(n);
+		left = timeout - elapsed;
 	}
 
 	return true;
-- 
2.43.0


From 3b8e6f14b63221d5f6354dd303148d28a3c1097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 16/37] fix: bit writer read and wrote outside its tables for
 widths over 32; aligning to nothing divided by zero

---
 src/mg/core/bitstream.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index f53967e..4e48994 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -537,6 +537,9 @@ protected:
 		unsigned int tmp;   // temp value for shifted bits
 		unsigned int val;   // the n-bit value
 
+		if (n > 32 || n < 0)
+			throw InvalidInput(__FILE__, __LINE__);
+
 		val = value & tmask[n];
 
 		if (_cur_bit + n > (_buf_size << 3)) _flush_buf();
@@ -592,7 +595,7 @@ protected:
 	{
 		int s = 0;
 		// we only allow alignment on multiples of bytes
-		if (n % 8) {
+		if (n <= 0 || n % 8) {
 			throw InvalidAlignment(__FILE__, __LINE__);
 			return 0;
 		}
@@ -738,6 +741,10 @@ public:
 	virtual int _little_putbits(unsigned int value, int n)
 	{
 		unsigned int tmp = value;
+
+		if (n > 32 || n < 0)
+			throw InvalidInput(__FILE__, __LINE__);
+
 		int bytes = n >> 3;         // number of bytes to write
 		int leftbits = n % 8;       // number of bits to write
 		unsigned int byte_x = 0;
@@ -1050,7 +1057,7 @@ protected:
 				}
 			}
 		}
-		else 
+		else if (alen > 0)
 			s += _align(alen);
 
 		return s;
-- 
2.43.0


From 2b8dc8a0d3bca955bdc72d75546f5a375207cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 17/37] fix: a file that is not open used descriptor 0; a file
 given descriptor 0 was never closed

---
 src/mg/core/file.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index e868e2a..edd8b12 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -181,7 +181,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 cfile::cfile(::mg::uv::loopthread & loop)
     : _loop(loop)
-	, _file(0)
+	, _file(-1)
 	, _position(0)
 	, _outstanding(0)
 	, _served(0)
@@ -203,7 +203,7 @@ cfile::~cfile()
 {
 	try {
 
-		if (_file || _outstanding)
+		if (0 <= _file || _outstanding)
 			close(false);
 	}
 	catch (...)
@@ -219,7 +219,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 		//S_IRWXU | S_IRWXG | S_IRWXO;
 //|		S_IEXEC
 
-	_ASSERTE(0 == _file);
+	_ASSERTE(0 > _file);
 
 	uv_fs_t req;
 	
@@ -331,7 +331,7 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 	
 	//std::cout << _T("cfile::close 2\t") << _served << _T("\t") << _outstanding << std::endl;
 
-	if (0 == _file)
+	if (0 > _file)
 		return CResource<CPromise<uv_fs_t>>();
 		
 	if (async)
@@ -345,11 +345,11 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 		uv_file * pfile = &_file;
 
 		//the descriptor is gone even if the close fails
-		cb->set_er([cb, pfile](std::exception_ptr eptr) -> bool { (*pfile) = 0; cb->not_delivered(eptr); return true; });
+		cb->set_er([cb, pfile](std::exception_ptr eptr) -> bool { (*pfile) = -1; cb->not_delivered(eptr); return true; });
 
 		cb->set_cb([ pfile ](CResource<uv_fs_t> & req) 
 		{
-			(*pfile) = 0; 
+			(*pfile) = -1; 
 		}
 		);
 
@@ -373,7 +373,7 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 
 		//the descriptor is gone even if the close fails
 		uv_file file = _file;
-		_file = 0;
+		_file = -1;
 
 		int r = uv_fs_close(_loop->get_loop(), &req, file, NULL);
 		UVCHECK(r);
-- 
2.43.0


From d27d6dd32745c68f0fc1626285c7a5bc77711fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 18/37] fix: using a synchronous file that is not open crashed

---
 src/mg/core/file.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 934605e..26337f9 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -252,6 +252,15 @@ class sync_file_bitstream : public Ibitstream_storage
 
 	bool     _reading;
 
+	//there is nothing to work on before opening, or after a failed one
+	void check_open() const
+	{
+		if (!_f)
+		{
+			UVCHECK(UV_EBADF);
+		}
+	}
+
 	//what has not been read, or written, is not silently forgotten
 	void check_error()
 	{
@@ -301,6 +310,8 @@ public:
 
 	size_t read(uint32_t to_read, unsigned char * pbyte)
 	{
+		check_open();
+
 		size_t r = ::fread(pbyte, 1, to_read, _f);
 
 		if (r < to_read)
@@ -322,11 +333,15 @@ public:
 	}
 
 	virtual bool eof() {
+		check_open();
+
 		return (0 != feof(_f));
 	}
 
 	size_t write(const unsigned char * pbytes, uint32_t to_write)
 	{
+		check_open();
+
 		return ::fwrite(pbytes, 1, to_write, _f);
 	}
 
@@ -343,6 +358,8 @@ public:
 
 	virtual void flush()
 	{
+		check_open();
+
 		int r = ::fflush(_f);
 		if (0 != r)
 		{
@@ -353,13 +370,19 @@ public:
 		check_error();
 	}
 
+	virtual uint64_t get_position() const {
+		check_open();
+
 #ifdef _WIN32
-	virtual uint64_t get_position() const { return ::_ftelli64(_f); }
+		return ::_ftelli64(_f);
 #else
-	virtual uint64_t get_position() const { return ::ftello(_f); }
+		return ::ftello(_f);
 #endif
+	}
 
 	virtual void     set_position(uint64_t rhs) {
+		check_open();
+
 #ifdef _WIN32
 		int r = ::_fseeki64(_f, rhs, SEEK_SET);
 #else
-- 
2.43.0


From e645cc3cb2e2deb1043f6d7c465729a95a3a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 19/37] fix: an operation issued after an asynchronous close
 was requested used the descriptor being closed

---
 src/mg/core/file.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index edd8b12..e7e008f 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -342,16 +342,9 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 		cb->_uv_fs_t->data = cb;
 		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 
-		uv_file * pfile = &_file;
+		cb->set_er([cb](std::exception_ptr eptr) -> bool { cb->not_delivered(eptr); return true; });
 
-		//the descriptor is gone even if the close fails
-		cb->set_er([cb, pfile](std::exception_ptr eptr) -> bool { (*pfile) = -1; cb->not_delivered(eptr); return true; });
-
-		cb->set_cb([ pfile ](CResource<uv_fs_t> & req) 
-		{
-			(*pfile) = -1; 
-		}
-		);
+		cb->set_cb([](CResource<uv_fs_t> & req) {});
 
 		CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
@@ -360,6 +353,9 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, _file, uv_file_cb);
 			submitted(cb, r);
 
+			//the descriptor is gone even if the close fails
+			_file = -1;
+
 		} while (0);
 
 
-- 
2.43.0


From a77b672b6aaf782d21bd0750edeb56fe752eada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 20/37] fix: appending part of a buffer to itself read freed
 memory

---
 src/mg/cbuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f941d6e..ea55517 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//it can be in this buffer: its memory can move while growing
+		const bool own = (m_p <= source && source < m_p + m_iSize);
+		const ptrdiff_t at = own ? source - m_p : 0;
+
 		prepare(size);
 
+		if (own)
+			source = m_p + at;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From 7c56362e413f05c6e89921262809370de13c41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 21/37] fix: strings read outside their text when cut past its
 end or assigned a part of it; formatting ignored its arguments

---
 src/mg/alxstring.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..b5aa5dc 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -177,6 +177,9 @@ public:
 	CstringT operator=(const char *str)
 	{
 		size_t size = strlen(str); 
+
+		//the text can be in the buffer we are leaving
+		CResource<CBuffer<T, size_t> > old(m_str);
 		
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
 		
@@ -195,6 +198,9 @@ public:
 	{
 		size_t size = wcslen(str);
 
+		//the text can be in the buffer we are leaving
+		CResource<CBuffer<T, size_t> > old(m_str);
+
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
 
 		return operator+=(str);
@@ -637,7 +643,10 @@ public:
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
 		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		const size_t nfull = s.m_str->getFull();
+		const size_t nleft = (nbegin < nfull) ? nfull - nbegin : 0;
+
+		nLen = ST_U32(nleft < nLen?nleft:nLen);
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
@@ -771,13 +780,16 @@ public:
 #ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
+		retVal = vsnprintf(szLine, sizeof(szLine), pszFmtString, args);
+
+		if (static_cast<int>(sizeof(szLine)) <= retVal)
+			retVal = -1; //it does not fit
 #endif
 		
-		MGBASECHECK(retVal);
-
 		va_end( args );
 
+		MGBASECHECK(retVal);
+
 		operator+=(szLine);
 	}
 
-- 
2.43.0


From f675685d8010d4089260a12b9ff2c74d90ba2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 22/37] fix: a splitter used again mixed the old pieces in; an
 empty separator never ended

---
 src/mg/splitter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..362dd07 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -51,6 +51,8 @@ public:
 	void split(Cstring scontent, Cstring sseparator)
 	{
 
+		m_locator.clear();
+
 		if(!scontent || !sseparator)
 			return;
 
@@ -65,7 +67,8 @@ public:
 			
 				loc.nBegin = pszbegin - static_cast<TCHAR*>(scontent);
 			
-			pszbegin = _tcsstr(pszbegin, sseparator);
+			//an empty separator is nowhere
+			pszbegin = nLen ? _tcsstr(pszbegin, sseparator) : NULL;
 			if(!pszbegin){
 				//nothing found
 					loc.nLen = _tcslen(scontent) - loc.nBegin;
-- 
2.43.0


From 220bc3b3e04fdf6002896a2dc7e89153a91c245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:19 +0000
Subject: [PATCH 23/37] fix: a file opened again went on where the one before
 had stopped

---
 src/mg/core/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index e7e008f..ce7f003 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -221,6 +221,10 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 
 	_ASSERTE(0 > _file);
 
+	//nothing is left of the file which was open before
+	_position = 0;
+	::memset(&_file_stat, 0, sizeof(uv_stat_t));
+
 	uv_fs_t req;
 	
 		
-- 
2.43.0


From bbe977713428b41176097c6325d9b163a50e41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:19 +0000
Subject: [PATCH 24/37] fix: a bit stream opened again, or closed after a
 failed open, used what was not there and left its buffers behind

---
 src/mg/core/bitstream.h | 43 +++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 4e48994..16012ce 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -473,6 +473,21 @@ class bitstream_base : public Ibitstream_cb
 		internal_read(_buf_size);
 	}
 
+	//with nothing called back
+	void release()
+	{
+		delete[] _buf;
+		delete[] _shadow_buf;
+
+		_buf = NULL;
+		_shadow_buf = NULL;
+
+		_buf_len = 0;
+		_shadow_len = 0;
+		_cur_bit = 0;
+		_eptr = nullptr;
+	}
+
 	void init(uint32_t buf_len, bool load = true)
 	{
 		//at least the biggest read has to fit
@@ -626,11 +641,13 @@ public:
 		, uint32_t size = DEFAULT_FILE_PAGE
 	    , bool load = true)
 	{
+		//leave the storage used before
+		wait_all();
+		release();
+
 		_p_cb = p_cb;
 
-		_buf = NULL;
 		_tot_bits = 0;
-		_writing = 0;
 		
 		//_ASSERTE(size > 4);
 
@@ -645,11 +662,22 @@ public:
 	}
 
 	bitstream_base(CResource<Type > & p_cb, uint32_t size = DEFAULT_FILE_PAGE, bool load = true)
+		: _buf(NULL), _buf_len(0), _cur_bit(0), _tot_bits(0), _buf_size(0)
+		, _shadow_buf(NULL), _shadow_len(0), _load(load), _writing(0)
 	{
-		create(p_cb, size, load);
+		try {
+			create(p_cb, size, load);
+		}
+		catch (...)
+		{
+			release();
+			throw;
+		}
 	}
 
-	bitstream_base():_buf(NULL), _shadow_buf(NULL), _writing(0)
+	bitstream_base()
+		: _buf(NULL), _buf_len(0), _cur_bit(0), _tot_bits(0), _buf_size(0)
+		, _shadow_buf(NULL), _shadow_len(0), _load(true), _writing(0)
 	{
 		
 	}
@@ -657,12 +685,7 @@ public:
 	virtual ~bitstream_base()
 	{
 		wait_all();
-
-		if (_buf)
-			delete[] _buf;
-
-		if(_shadow_buf)
-			delete[] _shadow_buf;
+		release();
 	}
 		
 	uint64_t buf_bits() const { return static_cast<uint64_t>(_buf_len) << 3; }
-- 
2.43.0


From 523fd1c0e609c71b372a00ce4270386a7f9ce3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 25/37] fix: a file operation for which memory ran out left its
 request behind, and a late one threw through the loop

---
 src/mg/core/file.cpp | 54 +++++++++++++++++++++-----------------------
 src/mg/core/file.h   | 41 +++++++++++++++++++++++++++++----
 2 files changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index ce7f003..7e99da8 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -59,7 +59,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 			, (*fcb->_p_served)
 		);
 		//unordered read operation
-		fcb->_p_forward->push_front(fcb);
+		fcb->put_aside();
 
 		std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
 
@@ -89,7 +89,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		//switch
 		struct_file_cb * temp = (*it.operator->());
 
-		fcb->_p_forward->remove(temp);
+		temp->take_back();
 
 		fcb = temp;
 		req = fcb->_uv_fs_t;
@@ -128,7 +128,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 		_ASSERTE(temp->_sequence < 10000);
 
-		fcb->_p_forward->pop_front();
+		temp->take_back();
 	}
 
 	
@@ -150,7 +150,17 @@ void cfile::uv_file_cb(uv_fs_t* req)
 				<< _T("\t")
 				<< std::endl;
 
-			fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(result, uv_strerror(result), _T(__FILE__), __LINE__)));
+			std::exception_ptr eptr;
+
+			try {
+				eptr = std::make_exception_ptr(MGCORE::mgexception(result, uv_strerror(result), _T(__FILE__), __LINE__));
+			}
+			catch (...)
+			{
+				eptr = std::current_exception();
+			}
+
+			fcb->call_er(eptr);
 		}
 		else
 		{
@@ -258,11 +268,8 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 	
 	if (async)
 	{
-		struct_file_cb * cb = new struct_file_cb; // { std::bind(&cfile::handle_size, this, std::placeholders::_1) };
-
-		cb->_uv_fs_t.Create();
-		cb->_uv_fs_t->data = cb;
-		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
+		std::unique_ptr<struct_file_cb> owner(struct_file_cb::create());
+		struct_file_cb * cb = owner.get();
 
 		//cb->set_cb(std::bind(&cfile::handle_size, this, std::placeholders::_1));
 
@@ -281,7 +288,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 
 			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_open(_loop->get_loop(), cb->_uv_fs_t, path, flags, mode, uv_file_cb);
-			submitted(cb, r);
+			submitted(owner, r);
 
 		} while (0);
 
@@ -340,11 +347,8 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 		
 	if (async)
 	{
-		struct_file_cb * cb = new struct_file_cb;
-
-		cb->_uv_fs_t.Create();
-		cb->_uv_fs_t->data = cb;
-		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
+		std::unique_ptr<struct_file_cb> owner(struct_file_cb::create());
+		struct_file_cb * cb = owner.get();
 
 		cb->set_er([cb](std::exception_ptr eptr) -> bool { cb->not_delivered(eptr); return true; });
 
@@ -355,7 +359,7 @@ CResource<CPromise<uv_fs_t> > cfile::do_close(bool async)
 		do {
 
 			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, _file, uv_file_cb);
-			submitted(cb, r);
+			submitted(owner, r);
 
 			//the descriptor is gone even if the close fails
 			_file = -1;
@@ -399,11 +403,8 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	buf.len  = size;
 	buf.base = reinterpret_cast<char*>(pBuffer->get());
 
-	struct_file_cb * cb = new struct_file_cb;
-
-	cb->_uv_fs_t.Create();
-	cb->_uv_fs_t->data = cb;
-	cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
+	std::unique_ptr<struct_file_cb> owner(struct_file_cb::create());
+	struct_file_cb * cb = owner.get();
 
 	cb->set_er([cb](std::exception_ptr eptr) -> bool { cb->not_delivered(eptr); return true; });
 	cb->_expected = size;
@@ -436,7 +437,7 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	do {
 
 		int r = uv_fs_write(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-		submitted(cb, r);
+		submitted(owner, r);
 
 	} while (0);
 
@@ -459,11 +460,8 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		buf.len = size;
 		buf.base = reinterpret_cast<char*>(pBuffer->get());
 
-		struct_file_cb * cb = new struct_file_cb; 
-
-		cb->_uv_fs_t.Create();
-		cb->_uv_fs_t->data = cb;
-		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
+		std::unique_ptr<struct_file_cb> owner(struct_file_cb::create());
+		struct_file_cb * cb = owner.get();
 		
 		cb->set_er(
 			[promise, cb](std::exception_ptr  eptr)  mutable -> bool 
@@ -499,7 +497,7 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		do {
 
 			int r = uv_fs_read(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-			submitted(cb, r);
+			submitted(owner, r);
 
 		} while (0);
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 26337f9..8c88bae 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -32,6 +32,8 @@
 #include <stdio.h>
 
 #include <forward_list>
+#include <iterator>
+#include <memory>
 
 __MGCORE_BEGIN_NAMESPACE
 
@@ -60,6 +62,8 @@ struct struct_file_cb: CPromise<uv_fs_t>
 	ssize_t               _expected;  //less than this is a failure
 	bool                  _delivered; //the operation succeeded and its listener has been called
 
+	std::forward_list<struct_file_cb *> _node; //to be put aside nothing has to be allocated
+
 	struct_file_cb()
 		: _sequence(0)
 		, _p_served(NULL)
@@ -70,6 +74,35 @@ struct struct_file_cb: CPromise<uv_fs_t>
 		, _delivered(false)
 	{}
 
+	static struct_file_cb * create()
+	{
+		std::unique_ptr<struct_file_cb> fcb(new struct_file_cb);
+
+		fcb->_node.push_front(fcb.get());
+
+		fcb->_uv_fs_t.Create();
+		::memset(static_cast<uv_fs_t *>(fcb->_uv_fs_t), 0, sizeof(uv_fs_t));
+		fcb->_uv_fs_t->data = fcb.get();
+		fcb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
+
+		return fcb.release();
+	}
+
+	void put_aside()
+	{
+		_p_forward->splice_after(_p_forward->before_begin(), _node);
+	}
+
+	void take_back()
+	{
+		std::forward_list<struct_file_cb *>::iterator before = _p_forward->before_begin();
+
+		while (*std::next(before) != this)
+			before++;
+
+		_node.splice_after(_node.before_begin(), *_p_forward, before);
+	}
+
 	//what a listener throws was already offered to the listener own error
 	//listener. Only the operation failure has still to be told.
 	void not_delivered(std::exception_ptr eptr)
@@ -129,13 +162,11 @@ class cfile
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
 	 }
 
-	 void submitted(struct_file_cb * fcb, int r)
+	 void submitted(std::unique_ptr<struct_file_cb> & fcb, int r)
 	 {
-		 if (0 > r)
-			 delete fcb; //it will never be called back
-		 UVCHECK(r);
+		 UVCHECK(r); //it will never be called back
 
-		 do_outstanding(fcb);
+		 do_outstanding(fcb.release());
 	 }
 
 	 //with the loop locked and nothing outstanding
-- 
2.43.0


From 5b5bb78e31c55ab1bdc1bc9aea72e6f07088d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 26/37] fix: a message set after an error was raised did not
 show in its text

---
 src/mg/exception.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/exception.h b/src/mg/exception.h
index ed30e02..78b44ed 100644
--- a/src/mg/exception.h
+++ b/src/mg/exception.h
@@ -78,7 +78,10 @@ public:
 
 	void set_message(const TCHAR* pmsg)
 	{
-		_msg = pmsg;
+		mgexception other(get_error_number(), pmsg, _file, _line);
+
+		_msg  = other._msg;
+		_what = other._what;
 	}
 
 };
-- 
2.43.0


From b531c52667560603101e3dd02547a91055819f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 27/37] fix: the time between taking a lap and resetting the
 clock was lost

---
 src/mg/core/ctime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/ctime.h b/src/mg/core/ctime.h
index 575bdac..45f4585 100644
--- a/src/mg/core/ctime.h
+++ b/src/mg/core/ctime.h
@@ -139,7 +139,7 @@ inline uint64_t clock_elapsed(Ctime & clock, bool reset = true)
 
 	if (reset)
 	{
-		clock.ResetToNow(false);
+		clock = t;
 	}
 
 	return d;
-- 
2.43.0


From b73c3b46060a422ca144b3e8323f4ed8175ac294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:46 +0000
Subject: [PATCH 28/37] fix: a file whose read had failed stayed at an error
 wherever it was moved

---
 src/mg/core/file.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 8c88bae..f84902b 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -414,6 +414,10 @@ public:
 	virtual void     set_position(uint64_t rhs) {
 		check_open();
 
+		//what could not be read elsewhere says nothing about the new place
+		if (_reading)
+			::clearerr(_f);
+
 #ifdef _WIN32
 		int r = ::_fseeki64(_f, rhs, SEEK_SET);
 #else
-- 
2.43.0


From 6b8837351dad6b33b13c2bdf85423110322f282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:46 +0000
Subject: [PATCH 29/37] fix: an item larger than a queue can count was written
 past its end

---
 src/mg/media/fixed_queue.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mg/media/fixed_queue.h b/src/mg/media/fixed_queue.h
index 2a2cea0..d511bd9 100644
--- a/src/mg/media/fixed_queue.h
+++ b/src/mg/media/fixed_queue.h
@@ -315,6 +315,17 @@ public:
 
 		_ASSERTE(ph->start_offset >= 0);
 
+		//more than any queue can count
+		if(length > static_cast<unsigned int>(INT32_MAX - get_queue_item_header_size()))
+		{
+			if(!return_on_failure)
+			{
+				ALXTHROW_T(_T("NOT ENOUGH STORAGE IS AVAILABLE"));
+			}
+
+			return false;
+		}
+
 		size_type space = get_queue_item_header_size() + length;
 
 		size_type begin_space = get_tail_space() + get_head_space();
-- 
2.43.0


From 847d277be33cd168a1b4ab4744b4a04184b57edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 30/37] fix: a buffer asked for more than can be counted came
 out too small

---
 src/mg/cbuffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index ea55517..c7f9ed7 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -53,6 +53,8 @@ protected:
 		//either growth enough or growth as much 
 		//as the beginning
 		sizetype t_nsize = m_iOrigin > size?m_iOrigin:size;
+		//more than can be counted
+		if(static_cast<sizetype>(m_iSize + t_nsize) < m_iSize) throw std::bad_alloc();
 		type *temp = m_p;
 		m_p = new type[m_iSize +  t_nsize];
 		if(0 == m_p) throw std::bad_alloc();
-- 
2.43.0


From c679013360283bcac8e7f0ae5749bb69ffef091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 31/37] fix: text that cannot be converted left a piece of it
 in the string

---
 src/mg/alxstring.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index b5aa5dc..7b560aa 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -249,7 +249,11 @@ public:
 			
 			size_t c_res = mbstowcs(pw, str, size + 1);
 			if( (size_t) -1 == c_res)
+			{
+				//nothing of it is left
+				memset(pw, 0, (size + 1) * sizeof(wchar_t));
 				MGBASECHECK(E_BASE_CUSTOM);
+			}
 
 			_ASSERTE(c_res == size);
 			
@@ -292,7 +296,11 @@ public:
 
        			size_t c_res = wcstombs(pw, str, size + 1);
 			if( (size_t) -1 == c_res)
+			{
+				//nothing of it is left
+				memset(pw, 0, size + 1);
 				MGBASECHECK(E_BASE_CUSTOM);
+			}
 			
 			_ASSERTE(c_res == size);
 #endif
-- 
2.43.0


From 34775fb3f1301e276205a9ed02660fb2a1c0a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:18 +0000
Subject: [PATCH 32/37] fix: reading a file which grows delivered bytes twice

---
 src/mg/core/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 7e99da8..d4a1243 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -476,6 +476,9 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		if ((pos + size) > this->size())
 			size = static_cast<uint32_t>(this->size() - pos);
 
+		//no more than the position moves by: the file can have grown
+		buf.len = size;
+
 		cb->_expected = size;
 
 #ifdef _DEBUG
-- 
2.43.0


From 1e7a7923d26aadc83abc76502dcd67754c45f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 33/37] fix: a thread started again was reported done before
 its body had finished

The event which says that the body has finished stayed signalled from the first run. The new run was reported done at once and join did not wait for it.
---
 src/mg/core/thread.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index 2ecf951..f05de0d 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -180,7 +180,16 @@ void cthread::startThread(void* thread)
 
 void cthread::start()
 {
+	//done is about this run, not about the one before
+	const bool done = is_done();
+
+	_ended.reset();
+
 	int n = uv_thread_create(&_thread_t, startThread, this);
+
+	if (0 != n && done)
+		_ended.signal();
+
 	UVCHECK(n);
 
 	_joined = false;
-- 
2.43.0


From 5ad46f629889ae0e656bf153074c7381b8f2c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 34/37] fix: a code search on a boundary of 64 Kbit or more
 never ended

A skip takes 16 bits of width: an alignment of 65536 skipped nothing and the search stayed where it was, others went to the wrong place. Skip in pieces.
---
 src/mg/core/bitstream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 16012ce..c3141a8 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1076,7 +1076,13 @@ protected:
 				s += _align(alen);
 				while (code != _nextbits(n)) {
 					s += alen;
-					_skipbits(alen);
+
+					//a skip takes 16 bits
+					int left = alen;
+					for (; left > UINT16_MAX; left -= 0x8000)
+						_skipbits(0x8000);
+
+					_skipbits(static_cast<uint16_t>(left));
 				}
 			}
 		}
-- 
2.43.0


From 5e5439c6db9f5ae4531a25f5e671897aefe7d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 35/37] fix: copying from a source which throws left operations
 behind

When the source threw while asked for its position, its end or to make progress, copy_stream unwound while reads and writes were still outstanding; they completed on a destroyed object. Report it like a failed operation and wait for the others.
---
 src/mg/core/bitstream.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 672f09d..bf51fdb 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -73,8 +73,23 @@ public:
 
 	void idle()
 	{
-		_source.idle();
-		_destination.idle();
+		try {
+			_source.idle();
+			_destination.idle();
+		}
+		catch (...)
+		{
+			fail(std::current_exception());
+		}
+	}
+
+	//the first failure is the one which is told
+	void fail(std::exception_ptr eptr)
+	{
+		auto_lock l(_cs);
+
+		if (_eptr == nullptr)
+			_eptr = eptr;
 	}
 
 	bool outstanding(uint32_t max)
@@ -212,8 +227,7 @@ public:
 	{
 		auto_lock l(_cs);
 
-		if (_eptr == nullptr)
-			_eptr = eptr;
+		fail(eptr);
 
 		done();
 	}
@@ -235,6 +249,8 @@ void copy_stream(
 
 	///ccs._write_event.reset();
 
+	try {
+
 	while (!source.eof() && (endpos == 0 || endpos > source.get_position()))
 	{
 	
@@ -255,6 +271,13 @@ void copy_stream(
 		
 	}
 
+	}
+	catch (...)
+	{
+		//what has been asked still uses ccs
+		ccs.fail(std::current_exception());
+	}
+
 	
 	FDBGC0(COPY_STREAM_WAIT, "ending");
 
-- 
2.43.0


From cd659930415d4c834c28592e2ef57055748a0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 36/37] fix: searching behind the end of a text read outside of
 it

A search which starts behind the end has nothing to find. A backward search for an empty text went on behind the end, nearly for ever.
---
 src/mg/alxstring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 7b560aa..6191d43 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -619,6 +619,11 @@ public:
 	SSIZE_T find(const TCHAR *str, uint32_t nBegin = 0) const
 	{
 		const TCHAR *sz = CstringT<T>::operator TCHAR*();
+
+		//behind the end there is nothing
+		if (nBegin > _tcslen(sz))
+			return npos;
+
 		const TCHAR *f = _tcsstr(&sz[nBegin], str);
 			if(f) return ST_U32(f - sz);
 
-- 
2.43.0


From 36235a849622c1b89d30b85585c3af8ccf2c290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:07 +0000
Subject: [PATCH 37/37] fix: a date given by its parts or as text showed
 another date

The parts were stored without the offsets a tm has, the offset, the
milliseconds and the tick count were left unset, and the time elapsed since
such a date was computed in the local zone.
---
 src/mg/core/nx/ctime.cpp | 77 +++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index f15a659..e356729 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -55,14 +55,19 @@ inline uint64_t total_seconds(const SYSTEMTIME & systime)
 {
 	tm tms;
 		sm_to_tm(systime, tms);
-		return mktime(&tms); 
+		//a difference of dates does not depend on the zone
+		return timegm(&tms); 
 
 }
+inline uint64_t fields_hnano(const SYSTEMTIME & systime)
+{
+	return total_seconds(systime) * 10000000ULL + systime.wMilliseconds * 10000ULL;
+}
 inline uint64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return fields_hnano(systime);
 	}
 	else
 	{
@@ -82,6 +87,27 @@ inline int64_t utc_offset(const time_t & instant)
 	return stm.tm_gmtoff / 60;
 }
 
+//a date which is not a reading of the clock
+inline void set_fields(SYSTEMTIME & sm, int year, int month, int day, int hour, int minute, int second, int milly)
+{
+	tm tms;
+	memset(&tms, 0, sizeof(tms));
+
+	tms.tm_year = year - 1900;
+	tms.tm_mon  = month - 1;
+	tms.tm_mday = day;
+	tms.tm_hour = hour;
+	tms.tm_min  = minute;
+	tms.tm_sec  = second;
+
+	//fills the day of the week
+	timegm(&tms);
+
+	tm_to_sm(tms, sm);
+	sm.wMilliseconds = static_cast<uint16_t>(milly);
+	sm.total_hnano   = UINT64_MAX;
+}
+
 int64_t Ctime::_GetUTCOffset()
 {
 	return utc_offset(time(NULL)); 
@@ -118,6 +144,7 @@ void  Ctime::ResetToNow(bool local)
 
 
 	tm_to_sm(stm, _systime);	
+	_systime.wMilliseconds = static_cast<uint16_t>(ts.tv_nsec / 1000000);
 
 }
 
@@ -133,15 +160,10 @@ Ctime::Ctime(uint16_t wYear
 	, uint16_t wMonth
 	, uint16_t wDay)
 {
-	_systime.wYear = wYear;
-	_systime.wMonth = wMonth;
-	_systime.wDay = wDay;
-	_systime.wDayOfWeek = 0;
-	_systime.wHour = 0;
-	_systime.wMinute = 0;
-	_systime.wSecond = 0;
-	_systime.wMilliseconds = 0;
-	_systime.total_hnano = UINT64_MAX;
+	_local = false;
+	_offset = 0;
+
+	set_fields(_systime, wYear, wMonth, wDay, 0, 0, 0, 0);
 }
 
 
@@ -151,24 +173,28 @@ Ctime::Ctime(const TCHAR * str_time
 	, const TCHAR * str_format)
 {
 
+	int year = 1970, month = 1, day = 1, hour = 0, minute = 0, second = 0, milly = 0;
+
 	//_stscanf(str_time
 	//TODO: _stscanf_s
 	sscanf(str_time
 		, str_format
-		, &_systime.wYear
-		, &_systime.wMonth
-		, &_systime.wDay
-		, &_systime.wHour
-		, &_systime.wMinute
-		, &_systime.wSecond
-		, &_systime.wMilliseconds
+		, &year
+		, &month
+		, &day
+		, &hour
+		, &minute
+		, &second
+		, &milly
 	);
 
 	_local = local;
 	_offset = 0;
 
+	set_fields(_systime, year, month, day, hour, minute, second, milly);
+
 	if (_local)
-		_offset = _GetUTCOffset();
+		_offset = utc_offset(TotalHNano() / 10000000LL);
 }
 
 
@@ -184,7 +210,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   }
 		   else
 		   {
-		   	return (total_seconds(_systime) - total_seconds((*psysBase))) * 1000; 
+		   	return static_cast<int64_t>(fields_hnano(_systime) - fields_hnano((*psysBase))) / 10000LL; 
 
 		   }
 	
@@ -195,9 +221,12 @@ int64_t Ctime::TotalHNano() const
 {
 	if(UINT64_MAX == _systime.total_hnano)
 	{
+		if(!_local)
+			return fields_hnano(_systime);
+
 		tm tms;
 		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
+		return mktime(&tms) * 10000000LL + _systime.wMilliseconds * 10000LL;
 	}
 	else
 	{
@@ -206,7 +235,7 @@ int64_t Ctime::TotalHNano() const
 }
 
 
-int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000ULL; }
+int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000LL; }
 int64_t Ctime::AddMilliSeconds(int64_t milly_to_add) const
 {
 
@@ -322,9 +351,7 @@ Cstring Ctime::get_MillisecondsString() const
 {
 	Cstring t(_T(""));
 	
-	uint64_t mx = total_hnano(_systime);
-		 mx %= 10000000ull; //find hnano
-		 mx /= 10000ull;    //transform to milly
+	uint64_t mx = _systime.wMilliseconds;
 
 	if (mx < 100)
 		t += _T("0");
-- 
2.43.0

