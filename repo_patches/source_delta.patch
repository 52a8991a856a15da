From 92a4336579b0087a3a3a73424fc68ec91c22c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 001/107] fix: AutoreleasePool::drain() must not hold the pool
 lock while releasing

A destructor that calls autorelease() while the pool is drained blocked
forever on the lock its own thread already held.
---
 src/core/AutoreleasePool.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..19f7ac0 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -46,8 +46,8 @@ AutoreleasePool::AutoreleasePool(): Object()
 
 AutoreleasePool::~AutoreleasePool()
 {
-   // Cleanup autorelease
-   drain();
+   // Cleanup autorelease. Destructors may have added further objects.
+   while(mPool->next != nullptr)drain();
 
    // Delete dummy
    delete mPool;
@@ -55,8 +55,12 @@ AutoreleasePool::~AutoreleasePool()
 
 void AutoreleasePool::drain()
 {
+   // Detach the entries first: The destructors of the released objects may call autorelease().
    mPoolMutex.lock();
    PoolEntry* pool = mPool->next;
+   mTop = mPool;
+   mPool->next = nullptr;
+   mPoolMutex.unlock();
 
    while(pool != nullptr)
    {
@@ -67,10 +71,6 @@ void AutoreleasePool::drain()
       delete pool;
       pool = next;
    }
-
-   mTop = mPool;
-   mPool->next = nullptr;
-   mPoolMutex.unlock();
 }
 
 void AutoreleasePool::add(Object* object)
-- 
2.43.0


From 6077f1fe44f6e6a018eb8549bad49c0188ca2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 002/107] fix: Object::setHighBit() must not lose concurrent
 retain() and release()

The flag is stored in the same word as the reference counter, but was
written back without the lock that protects the counter.
---
 src/core/Object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..05f9364 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -105,7 +105,12 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   // The flag shares its word with the reference counter, see retain() and release().
+   Mutex* mutex = mPool != nullptr ? mPool->mutex() : nullptr;
+
+   if(mutex != nullptr)mutex->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   if(mutex != nullptr)mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From 97cda24d7b7fcc802e675441e2f62dbfa5479804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 003/107] fix: Thread::interrupt() could block forever

If interrupt() ran before the new thread was scheduled, the new thread set
its status back to alive. If it ran between the isAlive() check and sleep(),
the wake up was lost. Interrupting a thread that was never started, or
twice, joined an invalid thread.
---
 include/core/Thread.h |  8 ++++++++
 src/core/Thread.cpp   | 30 +++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index f314b43..cd195c9 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -85,6 +85,14 @@ namespace jm
           */
          bool alive;
 
+         #if defined __APPLE__ || defined __linux__
+         /*!
+          \brief Status indicating that interrupt() was called. An interrupted thread does not sleep any
+          more, otherwise nobody would wake it up.
+          */
+         bool interrupted;
+         #endif
+
          /*!
           \brief This method must be implemented by derived classes. It is the main method
           that runs on the new thread. It is executed when the thread is started.
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..773daf9 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -71,6 +67,7 @@ Thread::Thread(): jm::Object()
    #if defined __APPLE__ || defined __linux__
    thread = 0;
    alive = false;
+   interrupted = false;
    pthread_condattr_init(&attrc);
    pthread_cond_init(&cond, &attrc);
 
@@ -96,8 +93,21 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // The status is set here and not by the new thread, which may be scheduled after interrupt().
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   interrupted = false;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
-   if(ret != 0)throw Exception("Error on starting Thread");
+   if(ret != 0)
+   {
+      thread = 0;
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+      throw Exception("Error on starting Thread");
+   }
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
@@ -125,7 +135,7 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   if(!interrupted)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -154,7 +164,7 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   if(!interrupted)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
@@ -177,9 +187,11 @@ void Thread::interrupt()
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
    alive = false;
+   interrupted = true;
    pthread_mutex_unlock(&criticalSection);
-   pthread_cond_signal(&cond);
-   pthread_join(thread, nullptr);
+   pthread_cond_broadcast(&cond);
+   if(thread != 0)pthread_join(thread, nullptr);
+   thread = 0;
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From 4343b45fe6cc90e3ad9a01821502c58129cb4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 004/107] fix: Thread::sleep(ms) must not depend on wall clock
 changes

---
 src/core/Thread.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 773daf9..86d4c4d 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -69,6 +69,10 @@ Thread::Thread(): jm::Object()
    alive = false;
    interrupted = false;
    pthread_condattr_init(&attrc);
+   #if defined __linux__
+   // Durations must not depend on changes of the wall clock
+   pthread_condattr_setclock(&attrc, CLOCK_MONOTONIC);
+   #endif
    pthread_cond_init(&cond, &attrc);
 
    pthread_mutexattr_init(&attra);
@@ -121,16 +125,21 @@ void Thread::sleep(int64 millis)
 {
    #if defined __APPLE__ || defined __linux__
    timespec   ts;
+   #if defined __linux__
+   clock_gettime(CLOCK_MONOTONIC, &ts);
+   #else
    timeval    now;
    gettimeofday(&now, nullptr);
 
-   //Konversion machen, damit es keinen overflow gibt, der dann in einer falschen Zeit resultiert.
-   uint64 m = millis;
-
    /* Convert from timeval to timespec */
    ts.tv_sec = now.tv_sec;
    ts.tv_nsec = now.tv_usec * 1000;
-   ts.tv_nsec += m * 1000000;
+   #endif
+
+   //Konversion machen, damit es keinen overflow gibt, der dann in einer falschen Zeit resultiert.
+   if(millis < 0)millis = 0;
+   ts.tv_sec += millis / 1000;
+   ts.tv_nsec += (millis % 1000) * 1000000;
    ts.tv_sec += ts.tv_nsec / 1000000000L;
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
-- 
2.43.0


From 75cdad52df67357dc29e26ea5ed3d48556b84513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 005/107] fix: System::lastErrorMessage() returned a reference
 to a string other threads modify

---
 include/core/System.h | 2 +-
 src/core/System.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/core/System.h b/include/core/System.h
index 0989ea2..ae13bd5 100644
--- a/include/core/System.h
+++ b/include/core/System.h
@@ -124,7 +124,7 @@ namespace jm
          /*!
           \brief Returns the last error message
           */
-         static const String& lastErrorMessage();
+         static String lastErrorMessage();
 
          /*!
           \brief This method loads a dynamic library. On macOS *.dylib, Windows *.dll, and Linux *.so
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 802ca29..e0907f0 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -184,9 +184,13 @@ void jm::System::log(const String& message, LogLevel logLevel)
    gSystemMutex.unlock();
 }
 
-const jm::String& jm::System::lastErrorMessage()
+jm::String jm::System::lastErrorMessage()
 {
-   return gSystemError;
+   // A copy is returned because another thread may log an error at any time.
+   gSystemMutex.lock();
+   jm::String msg = gSystemError;
+   gSystemMutex.unlock();
+   return msg;
 }
 
 
-- 
2.43.0


From d7e987b05e10e29100b9ef1ae27f11320db83eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 006/107] fix: File::close() must not keep a handle that
 fclose() already released

---
 src/core/File.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..5eb37f9 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -649,9 +649,10 @@ bool File::isOpen()
 void File::close()
 {
    if(mHandle == nullptr)return;
+   // The handle is invalid after fclose(), even if an error is reported.
    int32 eof = fclose(mHandle);
-   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
    mHandle = nullptr;
+   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
 }
 
 void File::seek(int64 position)
-- 
2.43.0


From 7e495d7f06c38793eed2943846850ac13f251c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 007/107] fix: File::createNewFile() must not truncate an
 existing file

---
 src/core/File.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 5eb37f9..30dcb93 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -582,10 +582,11 @@ bool File::isAbsolute() const
 bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
-   mHandle = fopen(mCstr.constData(), "wb");
-   bool exist = (mHandle != nullptr);
-   close();
-   return exist;
+   // "x": An existing file must not be touched.
+   FILE* handle = fopen(mCstr.constData(), "wbx");
+   if(handle == nullptr)return false;
+   fclose(handle);
+   return true;
    #elif defined _WIN32 //Windows
    int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
    close();
-- 
2.43.0


From b1fe2f267148a6abca1910247cb9d26d2b7fff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 008/107] fix: File status queries used an uninitialised stat
 buffer; lastModified() is in milliseconds

---
 src/core/File.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 30dcb93..e8a567d 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -249,7 +249,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -271,7 +271,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -311,7 +311,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -335,7 +335,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
@@ -357,24 +357,24 @@ Date File::lastModified() const
    #if defined(__APPLE__) //macOS
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(0);
 
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
    #elif defined(__linux__) //Linux
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(0);
 
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From 86f307ebccf8d5239fb179201c624c6864c9121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 009/107] fix: File::listFiles() must cope with a directory
 that changes while it is read

---
 src/core/File.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index e8a567d..2b68ab9 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -464,24 +464,24 @@ Array<File>* File::listFiles()const
       throw Exception(Tr("Cannot open directory"));
    }
 
-   uint32 fileCount = 0;
-
-   //Zähle Einträge
-   while(readdir(dp) != nullptr)fileCount++;
-
-   //Zum Anfang
-   rewinddir(dp);
-
-   //Array füllen
-   Array<File>* list = new Array<File>(fileCount);
-   uint32 cnt = 0;
-
+   // Read in one pass: the directory may change at any time.
+   std::vector<String> files;
+   errno = 0;
    while((dirp = readdir(dp)) != nullptr)
    {
-      String filename = String(dirp->d_name);
-      list->set(cnt++, File(*this, filename));
+      files.push_back(String(dirp->d_name));
+      errno = 0;
    }
+   bool failed = (errno != 0);
    closedir(dp);
+   if(failed)throw Exception(Tr("Cannot read directory"));
+
+   //Array füllen
+   Array<File>* list = new Array<File>(files.size());
+   for(size_t a = 0; a < files.size(); a++)
+   {
+      list->set(a, File(*this, files[a]));
+   }
 
    return list;
 
-- 
2.43.0


From 766331af09b0ae1642652c0dccc624fa74077ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 010/107] fix: File::open() leaked an open handle and evaluated
 errno too late

---
 src/core/File.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 2b68ab9..1ebd168 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -596,6 +596,9 @@ bool File::createNewFile()
 
 Status File::open(FileMode mode)
 {
+   // Do not leak the handle if the file is already open.
+   close();
+
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
@@ -630,13 +633,15 @@ Status File::open(FileMode mode)
 
    if(mHandle == nullptr)
    {
-      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(errno));
+      // The following calls may change errno
+      const int32 error = errno;
+      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(error));
       jm::System::log(msg, jm::LogLevel::kError);
 
-      if(errno == EACCES)return Status::eNotAllowed;
-      if(errno == ENOENT)return  Status::eNotFound;
-      if(errno == ETIMEDOUT)return Status::eTimeout;
-      if(errno == ENOTDIR)return Status::eNoDirectory;
+      if(error == EACCES)return Status::eNotAllowed;
+      if(error == ENOENT)return  Status::eNotFound;
+      if(error == ETIMEDOUT)return Status::eTimeout;
+      if(error == ENOTDIR)return Status::eNoDirectory;
       throw Exception(msg);
    }
    return Status::eOK;
-- 
2.43.0


From ea1bff4df6f381a56833cd05d85c1e41b9d65ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 011/107] fix: File::renameTo() must keep the path name
 normalized

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 1ebd168..2c451fb 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -435,8 +435,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From ea40c06258b1c9ebed6be97bdf0a36339000e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 012/107] fix: copies of a File shared its open handle, which
 was then closed twice

---
 src/core/File.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 2c451fb..4b65baf 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -66,7 +66,8 @@ File::File(const File& parent, String child): Stream(), Comparable<File>()
 File::File(const File& other): Stream(), Comparable<File>()
 {
    mPathname = other.mPathname;
-   mHandle = other.mHandle;
+   // The handle belongs to the other object. A shared handle would be closed twice.
+   mHandle = nullptr;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -80,8 +81,8 @@ File& File::operator=(const File& another)
 {
    if(this != &another)
    {
+      close();
       mPathname = another.mPathname;
-      mHandle = another.mHandle;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
-- 
2.43.0


From 63e72a6642afc263e9faa5539dc9d47a19819bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 013/107] fix: File::addTag() and removeTag() lost the existing
 tags if these could not be read or were longer than 4096 bytes

---
 src/core/File.cpp | 54 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 4b65baf..6f7ed36 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -723,6 +723,36 @@ int32 File::compareTo(const File& other) const
    return mPathname.compareTo(other.mPathname);
 }
 
+#ifdef __linux__
+
+/*!
+ \brief Reads the tags of a file.
+ \return \c false, if the tags could not be read. A file without tags is not an error.
+ */
+static bool ReadTags(const char* path, StringList& tags)
+{
+   const char* attribute = "user.xdg.tags";
+
+   while(true)
+   {
+      ssize_t size = getxattr(path, attribute, nullptr, 0);
+      if(size == 0)return true;
+      if(size < 0)return errno == ENODATA;
+
+      ByteArray buffer = ByteArray(size, 0);
+      ssize_t result = getxattr(path, attribute, buffer.data(), size);
+      if(result < 0 && errno == ERANGE)continue; // Another process added tags meanwhile
+      if(result < 0)return errno == ENODATA;
+      buffer.resize(result);
+
+      // Data is stored usually as comma(,) separated list.
+      if(result > 0)tags = String(buffer).split(',');
+      return true;
+   }
+}
+
+#endif
+
 StringList File::getTags()const
 {
    #ifdef __APPLE__ //macOS
@@ -776,17 +806,8 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
-   char buffer[sz];
-   int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
-
-   if(result > 0)
-   {
-      // Data is stored usually as comma(,) separated list.
-      ByteArray tagList = ByteArray((int8*)buffer, result);
-      String string(tagList);
-      return string.split(',');
-   }
+   StringList list;
+   if(ReadTags(mCstr.constData(), list))return list;
    #endif
 
    // Return empty if no tags found array
@@ -863,7 +884,13 @@ Status File::addTag(const String& tag)
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
 
+   #ifdef __linux__
+   // Never overwrite tags which could not be read.
+   StringList tags;
+   if(!ReadTags(mCstr.constData(), tags))return Status::eNo;
+   #else
    StringList tags = getTags();
+   #endif
    if(!tags.contains(tag))
    {
       tags.append(tag);
@@ -880,7 +907,12 @@ Status File::removeTag(const String& tag)
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
 
+   #ifdef __linux__
+   StringList tags;
+   if(!ReadTags(mCstr.constData(), tags))return Status::eNo;
+   #else
    StringList tags = getTags();
+   #endif
    if(tags.contains(tag))
    {
       tags.remove(tag);
-- 
2.43.0


From 9410e5447438b8e9e957d024dc26a65880ad250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 014/107] fix: File::extension() of a file without extension is
 empty

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 6f7ed36..8408b3a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -571,7 +571,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   const String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From 56bbc9cdab58490ff8733360706283786c7c54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 015/107] fix: Preferences::load() must not read from a file
 that could not be opened

---
 src/core/Preferences.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..fb8dc18 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -57,7 +57,8 @@ void Preferences::load(File file)
 
    int64 l = file.size();
    ByteArray buffer = ByteArray(l, 0);
-   file.open(FileMode::kRead);
+   Status status = file.open(FileMode::kRead);
+   if(status != Status::eOK)throw Exception(Tr("Cannot open property file: %1").arg(file.absolutePath()));
    int64 check = file.Stream::readFully(buffer);
    file.close();
    String data = String(buffer);
-- 
2.43.0


From 57bcffbc9bbd87f1242fb3dfc6dab87e8f827a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 016/107] fix: Preferences must not change values with
 backslashes, line breaks or surrounding whitespace when they are saved and
 loaded

---
 src/core/Preferences.cpp | 116 ++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 56 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb8dc18..05de99a 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -33,6 +33,63 @@
 
 using namespace jm;
 
+// A value is stored in one line. Everything that ends the line and whitespace that is trimmed while
+// loading is therefore replaced by an escape sequence.
+static String escape(const String& value)
+{
+   String result;
+   int64 length = value.size();
+
+   for(int64 index = 0; index < length; index++)
+   {
+      Char c = value.charAt(index);
+      bool border = index == 0 || index == length - 1;
+
+      if(c == '\\')result.append("\\\\");
+      else if(c == '\t')result.append("\\t");
+      else if(c == '\n')result.append("\\n");
+      else if(c == '\r')result.append("\\r");
+      else if(c == ' ' && border)result.append("\\s");
+      else if(c == '\b' && border)result.append("\\b");
+      else if(c == '\f' && border)result.append("\\f");
+      else result.append(c);
+   }
+
+   return result;
+}
+
+static String unescape(const String& value)
+{
+   String result;
+   int64 length = value.size();
+
+   for(int64 index = 0; index < length; index++)
+   {
+      Char c = value.charAt(index);
+      if(c == '\\' && index + 1 < length)
+      {
+         Char d = value.charAt(index + 1);
+         index++;
+
+         if(d == '\\')result.append('\\');
+         else if(d == 't')result.append('\t');
+         else if(d == 'n')result.append('\n');
+         else if(d == 'r')result.append('\r');
+         else if(d == 's')result.append(' ');
+         else if(d == 'b')result.append('\b');
+         else if(d == 'f')result.append('\f');
+         else
+         {
+            result.append(c);
+            index--;
+         }
+      }
+      else result.append(c);
+   }
+
+   return result;
+}
+
 Preferences::Preferences(): Hashtable()
 {
 }
@@ -78,35 +135,7 @@ void Preferences::load(File file)
          String key = line.substring(0, pos).trim();
          String value = line.substring(pos + 1).trim();
 
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
-
-         //Ersetze
-         int64 index = 0;
-         while(index < value.size())
-         {
-            Char c = value.charAt(index);
-
-            if(c == '\\' && index + 1 < value.size())
-            {
-               Char d = value.charAt(index + 1);
-               if(d == 't')
-               {
-                  value.setCharAt(index, '\t');
-                  value.deleteCharAt(index + 1);
-               }
-               if(d == '\\')
-               {
-                  value.deleteCharAt(index + 1);
-               }
-            }
-            index++;
-         }
-
-         setValue(key, value);
+         setValue(key, unescape(value));
       }
    }
    delete st;
@@ -139,30 +168,9 @@ void Preferences::save(File file)
          String key = *static_cast<String*>(keyiter->next());
          String val = value(key);
 
-         //Ersetzungen
-         //Ersetze
-         uint32 index = 0;
-         while(index < val.size())
-         {
-            Char c = val.charAt(index);
-
-            if(c == '\\')
-            {
-               val.insert(index + 1, '\\');
-               index++;
-            }
-            else if(c == '\t')
-            {
-               val.setCharAt(index, '\\');
-               val.insert(index + 1, 't');
-               index++;
-            }
-            index++;
-         }
-
          //Zeile bilden
          key.append('=');
-         key.append(val);
+         key.append(escape(val));
          key.append(String::lineSeparator());
 
          entries.append(key);
@@ -194,11 +202,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From b4f8f14ec7346fc727221d3633a13858a025765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 017/107] fix: Preferences::save() hid write errors

---
 src/core/Preferences.cpp | 71 ++++++++++++++++++----------------------
 src/core/System.cpp      | 12 +++++--
 2 files changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 05de99a..2df944f 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -144,55 +144,48 @@ void Preferences::load(File file)
 
 void Preferences::save(File file)
 {
-   try
+   if(file.exists() == false)
    {
-      if(file.exists() == false)
-      {
-         jm::File dir = jm::File(file.parent());
-         if(dir.exists() == false)dir.makeDirectory();
-         file.createNewFile();
-      }
-      Status status = file.open(FileMode::kWrite);
-      if(status != Status::eOK)
-      {
-         jm::System::log(Tr("cannot store preferences in '%1'").arg(file.absolutePath()), jm::LogLevel::kError);
-         return;
-      }
-
-      Iterator* keyiter = keys();
+      jm::File dir = jm::File(file.parent());
+      if(dir.exists() == false)dir.makeDirectory();
+   }
+   Status status = file.open(FileMode::kWrite);
+   if(status != Status::eOK)
+   {
+      throw Exception(Tr("cannot store preferences in '%1'").arg(file.absolutePath()));
+   }
 
-      jm::StringList entries;
+   Iterator* keyiter = keys();
 
-      while(keyiter->hasNext())
-      {
-         String key = *static_cast<String*>(keyiter->next());
-         String val = value(key);
+   jm::StringList entries;
 
-         //Zeile bilden
-         key.append('=');
-         key.append(escape(val));
-         key.append(String::lineSeparator());
+   while(keyiter->hasNext())
+   {
+      String key = *static_cast<String*>(keyiter->next());
+      String val = value(key);
 
-         entries.append(key);
-      }
-      delete keyiter;
+      //Zeile bilden
+      key.append('=');
+      key.append(escape(val));
+      key.append(String::lineSeparator());
 
-      // sort the entries, so that the file is better readablye by humans
-      entries.sort();
+      entries.append(key);
+   }
+   delete keyiter;
 
-      for(const jm::String& line : entries)
-      {
-         ByteArray cstr = line.toCString();
-         file.write((uint8*)cstr.constData(), cstr.size());
-      }
+   // sort the entries, so that the file is better readablye by humans
+   entries.sort();
 
-      file.close();
-   }
-   catch(Exception& e)
+   bool complete = true;
+   for(const jm::String& line : entries)
    {
-      e.printStackTrace();
-      System::log(Tr("Cannot save property file: %1").arg(file.absolutePath()), LogLevel::kError);
+      ByteArray cstr = line.toCString();
+      if(file.write((uint8*)cstr.constData(), cstr.size()) != cstr.size())complete = false;
    }
+
+   file.close();
+
+   if(!complete)throw Exception(Tr("Cannot save property file: %1").arg(file.absolutePath()));
 }
 
 bool Preferences::hasValue(const String& key)const
diff --git a/src/core/System.cpp b/src/core/System.cpp
index e0907f0..b110e79 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -490,7 +490,15 @@ void jm::System::savePreferences()
    std::cout << "SAVE PREFERENCES" << std::endl;
    if(gPreferences != nullptr)
    {
-      gPreferences->save(*gPrefFile);
-      std::cout << "SAVEED" << std::endl;
+      try
+      {
+         gPreferences->save(*gPrefFile);
+         std::cout << "SAVEED" << std::endl;
+      }
+      catch(Exception& e)
+      {
+         e.printStackTrace();
+         System::log(Tr("Cannot save property file: %1").arg(gPrefFile->absolutePath()), LogLevel::kError);
+      }
    }
 }
-- 
2.43.0


From a5d9340d97b00602d9f721f056533c77445ee61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 018/107] fix: String kept an outdated hash value after
 assignment and case conversion, and hashCode() changed its sign

---
 src/core/String.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..0d3c372 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -290,7 +290,7 @@ int64 String::hashCode()
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
@@ -298,12 +298,13 @@ int64 String::constHashCode() const
    if(mHash != 0)return mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
 {
    String ret = *this;
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -316,6 +317,7 @@ String String::toLowerCase() const
 String String::toUpperCase() const
 {
    String ret = *this;
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -433,6 +435,7 @@ int64 String::lastIndexOf(const String& str, int64 fromIndex) const
 String String::replace(Char oldChar, Char newChar) const
 {
    String ret = String(*this);
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -474,6 +477,7 @@ String String::replace(const String& oldStr, const String& newStr)const
 String String::reverse() const
 {
    String ret = String(*this);
+   ret.mHash = 0;
    int64 cnt = mStrLength / 2;
    int64 last = mStrLength - 1;
    for(int64 a = 0; a < cnt; a++)
@@ -1237,6 +1241,7 @@ namespace jm
          delete[] mValue;
          mStrLength = another.mStrLength;
          mArrLength = another.mArrLength;
+         mHash = another.mHash;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
       }
-- 
2.43.0


From 4c52ad9d159095585d281be7925ebbee34264731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 019/107] fix: String::indexOf() compared characters behind the
 end of the string

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 0d3c372..31e699c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a + str.mStrLength <= mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From c6de18016f85f9d9fa218f08c86c3deea0dfac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 020/107] fix: UTF8Decoder read behind the end of a string that
 ends within a character

---
 src/core/UTF8Decoder.cpp | 50 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..0bd3472 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -33,6 +33,25 @@
 
 using namespace jm;
 
+// Returns the number of bytes of the sequence that starts at cstring. A sequence that is cut off by the
+// end of the string is an encoding error, its first byte is taken as a single character.
+static uint32 sequenceLength(const char* cstring)
+{
+   uint8 c = cstring[0];
+   uint32 length = 1;
+
+   if((c & 0xE0) == 0xC0)length = 2;
+   else if((c & 0xF0) == 0xE0)length = 3;
+   else if((c & 0xF8) == 0xF0)length = 4;
+
+   for(uint32 index = 1; index < length; index++)
+   {
+      if(cstring[index] == 0)return 1;
+   }
+
+   return length;
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -70,31 +89,11 @@ CharArray UTF8Decoder::decode(const char* cstring)
    {
       uint8 c = cstring[cntC];
 
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
-      {
-         strLength++;
-         cntC += 2;
-      }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
+      if(c == 0xFF && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; // ignored, see below
       else
       {
-         // In fact an encoding error, but we then take the byte as a single character
          strLength++;
-         cntC++;
+         cntC += sequenceLength(&cstring[cntC]);
       }
    }
    cntC = start;
@@ -104,6 +103,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
+      uint32 length = sequenceLength(&cstring[cntC]);
 
       if((c & 0x80) == 0)     //1 Zeichen
       {
@@ -111,7 +111,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC++;
       }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      else if(length == 2)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
@@ -119,7 +119,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(length == 3)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
@@ -128,7 +128,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(length == 4)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
-- 
2.43.0


From 63e7addb2f6805b7bcbd17aa019afa869ebfd3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 021/107] fix: String::valueOf() returned '-' for the smallest
 integer

---
 src/core/String.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 31e699c..a02c48e 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -970,11 +970,12 @@ String String::valueOf(int64 number)
 {
    String ret;
    bool neg = false;
+   uint64 rest = static_cast<uint64>(number);
 
-   // Check sign
+   // Check sign. The smallest number has no positive counterpart in int64.
    if(number < 0)
    {
-      number *= -1;
+      rest = 0 - rest;
       neg = true;
    }
    // Check 0
@@ -984,10 +985,10 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      uint64 digit = rest % 10;
+      rest = rest / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
@@ -1111,7 +1112,7 @@ double String::toDouble() const
 
 int64 String::toInt() const
 {
-   int64 val = 0;
+   uint64 val = 0;
    bool neg = false;
 
    for(int64 a = 0; a < size(); a++)
@@ -1127,8 +1128,8 @@ int64 String::toInt() const
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-   if(neg)val *= -1;
-   return val;
+   if(neg)val = 0 - val;
+   return static_cast<int64>(val);
 }
 
 bool String::isEmpty() const
-- 
2.43.0


From 73a59cc0d17a17251b0dc58cc8d042d15da1a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 022/107] fix: MemoryStream::write() wrote behind the end of
 its array, seek() and move() accepted positions before its begin

---
 src/core/MemoryStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..a448a1e 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -81,13 +81,13 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition < mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
    int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition < mStreamlength) ? newPosition : mPosition;
 }
 
 int64 MemoryStream::position()
@@ -98,7 +98,8 @@ int64 MemoryStream::position()
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
    int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   if(available <= 0)return 0;
+   memcpy(&mStream[mPosition], buffer, available);
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From 5969193f5281244ecc0106a9ee220aba734f0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 023/107] fix: Resource assignment leaked the previous stream

---
 src/core/Resource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Resource.cpp b/src/core/Resource.cpp
index e535b36..fff3f6c 100644
--- a/src/core/Resource.cpp
+++ b/src/core/Resource.cpp
@@ -61,8 +61,9 @@ Resource& Resource::operator=(const Resource& other)
 {
    if(this != &other)
    {
+      if(other.mStream != nullptr)other.mStream->retain();
+      if(mStream != nullptr)mStream->release();
       mStream = other.mStream;
-      if(mStream != nullptr)mStream->retain();
    }
 
    return *this;
-- 
2.43.0


From 693fb49bfadda3aebc694a798616bc935973a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 024/107] fix: Deflater cut off compressed data that is longer
 than the input

---
 src/core/Deflater.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..2e05490 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -35,8 +35,7 @@ using namespace jm;
 
 Deflater::Deflater(): Object()
 {
-   mTotalIn=0;
-   mTotalOut=0;
+   reset();
 }
 
 Deflater::~Deflater()
@@ -55,8 +54,6 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
-
    z_stream defstream;
    defstream.zalloc = Z_NULL;
    defstream.zfree = Z_NULL;
@@ -64,13 +61,24 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
-   defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
    // the actual compression work.
-   deflateInit(&defstream, Z_BEST_COMPRESSION);
-   ::deflate(&defstream, Z_FINISH);
+   if(deflateInit(&defstream, Z_BEST_COMPRESSION) != Z_OK)throw Exception("Cannot initialize the compression.");
+
+   // Data that cannot be compressed become longer
+   uLong capacity = deflateBound(&defstream, (uLong)mUncompLength);
+   buffer = new uint8[capacity];
+   defstream.avail_out = (uInt)capacity; // size of output
+   defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
+
+   int result = ::deflate(&defstream, Z_FINISH);
    deflateEnd(&defstream);
+   if(result != Z_STREAM_END)
+   {
+      delete[] buffer;
+      buffer = nullptr;
+      throw Exception("Cannot compress the data.");
+   }
 
    length = (uint32)defstream.total_out;
    mTotalOut += length;
-- 
2.43.0


From 133debbf380976b43613a763a6c7b417ae1791ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 025/107] fix: Inflater read behind the end of the compressed
 data

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..edee934 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -164,6 +164,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Compressed data ends unexpectedly.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -187,6 +188,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Compressed data ends unexpectedly.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From 234b5926e446af8b95adef21f67dbde9d319e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 026/107] fix: Inflater() had no output buffer

---
 src/core/Inflater.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index edee934..9b1b8ed 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -43,18 +43,9 @@ const uint16 DIST_OFFSET[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97,
 
 Inflater::Inflater(): Object()
 {
-   mWrap = false;
-   mCompBytes = nullptr;
-   mCompLength = 0;
-   mCompIndex = 0;
    mUncompBytes = nullptr;
-   mUncompLength = 1024;
-   mUncompIndex = 0;
-   mTotalIn = 0;
-   mTotalOut = 0;
-   mBit = 0;
-   mLastBlock = false;
-   mEof = false;
+   Reset();
+   mWrap = false;
 }
 
 Inflater::Inflater(bool wrap): Object()
-- 
2.43.0


From 74eddcc8196ea29c8e10877a5b5953cfbca55116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 027/107] fix: Inflater reserved gigabytes for data that begin
 with well compressible parts

---
 src/core/Inflater.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 9b1b8ed..791ceed 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -221,8 +221,7 @@ void Inflater::checkCapacity()
    if(mUncompIndex < mUncompLength)return;
 
    // Increase
-   double ratio = mCompIndex / (double)mCompLength;
-   int64 newLength = mUncompLength + max(int64(4096), int64(mUncompLength / ratio));
+   int64 newLength = mUncompLength + max(int64(4096), mUncompLength);
    uint8* tmp = new uint8[newLength];
    if(tmp == nullptr)throw Exception("Cannot allocate memory!");
    memcpy(tmp, mUncompBytes, mUncompIndex);
-- 
2.43.0


From 5642b8b0bc357d3fc1ddcb5f3527aabbbccbf367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 028/107] fix: Inflater copied wrong or foreign bytes for
 distances in blocks with fixed codes behind the first 32 KB and for invalid
 distance codes

---
 src/core/Inflater.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 791ceed..14fa6f6 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -290,6 +290,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -299,7 +300,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
@@ -657,6 +658,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
-- 
2.43.0


From 6c08b8296b1f99620fa57f13dcfe973ac25032d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 029/107] fix: Inflater did not report damaged blocks and codes

---
 src/core/Inflater.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 14fa6f6..2d479d2 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -248,7 +248,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if(nlen != (uint16)~len)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
@@ -675,7 +675,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -716,7 +716,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -751,7 +751,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -785,7 +785,6 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From 59f23ef5179f859bc3bf2f557e5418f5e7e23d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 030/107] fix: Inflater wrote behind its code length arrays and
 rejected valid blocks

---
 src/core/Inflater.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2d479d2..1f3bf44 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -344,6 +344,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
       }
    }
 
+   // An alphabet without codes, e.g. the distances of a block without repetitions
+   if(nodes.empty())return new HuffmanTree();
+
    do
    {
       if(maxBits < 0)throw Exception("Mööp");
@@ -547,6 +550,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //16: Copy the previous code length 3 - 6 times.
          case 16:
             repeat = nextUIntXR(2) + 3;
+            if(cnt == 0 || repeat > count - cnt)throw Exception("Code lengths are corrupted.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = (*target)[cnt - 1];
@@ -557,6 +561,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //17: Repeat a code length of 0 for 3 - 10 times.
          case 17:
             repeat = nextUIntXR(3) + 3;
+            if(repeat > count - cnt)throw Exception("Code lengths are corrupted.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
@@ -567,6 +572,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //18: Repeat a code length of 0 for 11 - 138 times
          case 18:
             repeat = nextUIntXR(7) + 11;
+            if(repeat > count - cnt)throw Exception("Code lengths are corrupted.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
@@ -613,11 +619,15 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // The lengths of both alphabets are one sequence, repetitions can extend from one to the other
+   Array<uint16> sequence(HLIT + HDIST);
+   readLengthDists(&sequence, intermediate, HLIT + HDIST);
+
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
+   for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = sequence[a];
 
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = sequence[HLIT + a];
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
-- 
2.43.0


From cab5a1dffe54a8771009fcfe3f1e93976e0f57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 031/107] fix: Inflater leaked its buffers and trees

---
 include/core/Inflater.h |  3 ++
 src/core/Inflater.cpp   | 65 +++++++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/include/core/Inflater.h b/include/core/Inflater.h
index 6a4f354..4c79571 100644
--- a/include/core/Inflater.h
+++ b/include/core/Inflater.h
@@ -127,6 +127,9 @@ namespace jm
 
          HuffmanTree* createTree(Array<uint16>* lengths, Array<uint16>* codes);
 
+         // Deletes the parts of an incomplete tree and throws.
+         [[noreturn]] static void failTree(const std::vector<HuffmanTree*>& nodes, const std::vector<HuffmanTree*>& focus);
+
          uint16 decodeHuffmanSymbol(Inflater::HuffmanTree* tree);
 
          Array<uint16>* huffmanCodes(Array<uint16>* codelengths);
diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 1f3bf44..3fa2112 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -57,6 +57,7 @@ Inflater::Inflater(bool wrap): Object()
 
 Inflater::~Inflater()
 {
+   delete[] mUncompBytes;
 }
 
 void Inflater::SetInput(uint8* buffer, int64 length)
@@ -119,6 +120,11 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    buffer = mUncompBytes;
    length = mUncompIndex;
+
+   // The buffer now belongs to the caller
+   mUncompBytes = nullptr;
+   mUncompLength = 0;
+   mUncompIndex = 0;
 }
 
 void Inflater::Reset()
@@ -126,7 +132,7 @@ void Inflater::Reset()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   delete[] mUncompBytes;
    mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
@@ -313,6 +319,13 @@ void Inflater::handleCompressedFixHuffman()
    }
 }
 
+void Inflater::failTree(const std::vector<HuffmanTree*>& nodes, const std::vector<HuffmanTree*>& focus)
+{
+   for(HuffmanTree* node : nodes)delete node;
+   for(HuffmanTree* node : focus)delete node;
+   throw Exception("Mööp");
+}
+
 Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16>* codes)
 {
    // Algorithm:
@@ -328,6 +341,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    // Create array with all codes and lengths to generate the tree
    //1. Determine maxBits at the same time
    std::vector<Inflater::HuffmanTree*> nodes;
+   std::vector<Inflater::HuffmanTree*> focus;
    int32 maxBits = 0;
    for(int64 a = 0; a < lengths->size(); a++)
    {
@@ -349,10 +363,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
 
    do
    {
-      if(maxBits < 0)throw Exception("Mööp");
+      if(maxBits < 0)failTree(nodes, focus);
 
       //2. Take all elements with the highest number of bits
-      std::vector<Inflater::HuffmanTree*> focus;
       for(uint32 a = 0; a < nodes.size(); a++)
       {
          if(nodes[a]->length == maxBits)
@@ -381,7 +394,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
       // Check for duplicate entries
       for(uint32 a = 1; a < focus.size(); a++)
       {
-         if(focus[a - 1]->code == focus[a]->code)throw Exception("Mööp");
+         if(focus[a - 1]->code == focus[a]->code)failTree(nodes, focus);
       }
 
       //4. Remove bit in tmp
@@ -436,7 +449,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
          focus.erase(focus.begin());
       }
 
-      if(focus.size() != 0)throw Exception("Mööp");
+      if(focus.size() != 0)failTree(nodes, focus);
       maxBits--;
 
    }
@@ -604,47 +617,47 @@ void Inflater::handleCompressedDynamicHuffman()
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
    //Codelängenarray erzeugen und Nullen
-   Array<uint16>* codelengths = new Array<uint16>(19);
-   for(uint32 a = 0; a < codelengths->size(); a++)(*codelengths)[a] = 0;
+   Array<uint16> codelengths(19);
+   for(uint32 a = 0; a < codelengths.size(); a++)codelengths[a] = 0;
 
    //Einlesen der definierten Codelängen (3 Bit feste Breite)
    for(uint16 a = 0; a < HCLEN; a++)
    {
       uint16 codelength = nextUIntXR(3);
-      (*codelengths)[CODELENTH_ALPHABET[a]] = codelength;
+      codelengths[CODELENTH_ALPHABET[a]] = codelength;
    }
 
    //Erzeuge aus den Codelängen die HuffmanCodes
-   Array<uint16>* codes = huffmanCodes(codelengths);
+   std::unique_ptr<Array<uint16>> codes(huffmanCodes(&codelengths));
 
-   HuffmanTree* intermediate = createTree(codelengths, codes);
+   std::unique_ptr<HuffmanTree> intermediate(createTree(&codelengths, codes.get()));
 
    // The lengths of both alphabets are one sequence, repetitions can extend from one to the other
    Array<uint16> sequence(HLIT + HDIST);
-   readLengthDists(&sequence, intermediate, HLIT + HDIST);
+   readLengthDists(&sequence, intermediate.get(), HLIT + HDIST);
 
-   Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = sequence[a];
+   Array<uint16> lengths2(HLIT);
+   for(uint16 a = 0; a < HLIT; a++)lengths2[a] = sequence[a];
 
-   Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = sequence[HLIT + a];
+   Array<uint16> distances2(HDIST);
+   for(uint16 a = 0; a < HDIST; a++)distances2[a] = sequence[HLIT + a];
 
-   Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
+   std::unique_ptr<Array<uint16>> lengthcodes2(huffmanCodes(&lengths2));
 
-   Array<uint16>* distcodes2 = huffmanCodes(distances2);
+   std::unique_ptr<Array<uint16>> distcodes2(huffmanCodes(&distances2));
 
    //Workaround
    MAX_BITS = 15;
 
-   HuffmanTree* htvallen = createTree(lengths2, lengthcodes2);
-   HuffmanTree* htdist = createTree(distances2, distcodes2);
+   std::unique_ptr<HuffmanTree> htvallen(createTree(&lengths2, lengthcodes2.get()));
+   std::unique_ptr<HuffmanTree> htdist(createTree(&distances2, distcodes2.get()));
 
    bool endOfBlock = false;
    while(!endOfBlock)
    {
       uint16 value ;
 
-      value = decodeHuffmanSymbol(htvallen);
+      value = decodeHuffmanSymbol(htvallen.get());
 
       if(value < 256)
       {
@@ -667,7 +680,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //codes, with possible additional bits as shown in the table
          //shown in Paragraph 3.2.5, above.
 
-         uint16 code = decodeHuffmanSymbol(htdist);
+         uint16 code = decodeHuffmanSymbol(htdist.get());
          if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
@@ -689,16 +702,6 @@ void Inflater::handleCompressedDynamicHuffman()
 
 
    }
-
-   delete codelengths;
-   delete codes;
-   delete lengths2;
-   delete distances2;
-   delete lengthcodes2;
-   delete distcodes2;
-   delete intermediate;
-   delete htvallen;
-   delete htdist;
 }
 
 
-- 
2.43.0


From 7a3970b38da632f725e3c5a64c14146d04bf0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 032/107] fix: Inflater did not compare the checksum of zlib
 data

---
 src/core/Inflater.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 3fa2112..3818764 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -118,6 +118,16 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    inflate();
 
+   // Check the checksum (Adler-32) behind the compressed data
+   if(mWrap == false)
+   {
+      skipByteBits();
+      uint32 checksum = 0;
+      for(int32 a = 0; a < 4; a++)checksum = (checksum << 8) | nextAlignedUInt8();
+      uint32 actual = (uint32)adler32(adler32(0, nullptr, 0), mUncompBytes, (uInt)mUncompIndex);
+      if(checksum != actual)throw Exception("Wrong checksum for uncompressed data.");
+   }
+
    buffer = mUncompBytes;
    length = mUncompIndex;
 
-- 
2.43.0


From 1ace7fc57da033003d1d640f66d5a5591307b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 033/107] fix: ZipFile::open() read outside of damaged
 directories and ignored read errors

---
 src/core/ZipFile.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..e5a2e7f 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -55,13 +55,14 @@ ZipFile::~ZipFile()
 
 void ZipFile::open()
 {
-   uint32 length = (uint32)mFile->size();
-   uint32 seek = length - 22;
+   if(mFile->open(FileMode::kRead) != Status::eOK)throw jm::Exception(Tr("ZIP-File cannot be opened."));
 
-   mFile->open(FileMode::kRead);
+   int64 length = mFile->size();
+   int64 seek = length - 22;
 
    // If the file is empty, then we are done
    if(length == 0)return;
+   if(seek < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
 
    // We first read the file at the end, where the directory with the entries is located.
    // It's idiotic that you have to search for the end because the last entry has a variable length.
@@ -75,7 +76,7 @@ void ZipFile::open()
    do
    {
       mFile->seek(seek);
-      mFile->Stream::readFully(eocd);
+      if(mFile->Stream::readFully(eocd) != eocd.size())throw jm::Exception(Tr("ZIP-File cannot be read."));
       signature = jm::deserializeLEInt32((uint8*)eocd.constData(), 0);
       seek--;
 
@@ -85,7 +86,7 @@ void ZipFile::open()
          break;
       }
    }
-   while(seek > 0);
+   while(seek >= 0);
 
    if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
 
@@ -93,15 +94,18 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
+   if(int64(dictOffset) + dictSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
-   mFile->Stream::readFully(dict);
+   if(mFile->Stream::readFully(dict) != dict.size())throw jm::Exception(Tr("ZIP-File cannot be read."));
 
 
    uint32 index = 0;
    uint32 count = 0;
    while(count < recordCount)
    {
+      if(index + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
       //signature = jm::DeserializeLEInt32(dict, index);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
@@ -110,10 +114,15 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
-      jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
-      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
-      jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-                                      commentLength);
+      if(index + 46 + fileNameLength + extraFieldLength + commentLength > dictSize)
+      {
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+      }
+
+      const char* text = dict.constData() + index + 46;
+      jm::String name = jm::String(text, fileNameLength);
+      jm::String extra = jm::String(text + fileNameLength, extraFieldLength);
+      jm::String comment = jm::String(text + fileNameLength + extraFieldLength, commentLength);
 
       ZipEntry* entry = new ZipEntry(name);
       entry->mExtra = extra;
-- 
2.43.0


From b70b1e0bbef43002a07633c33bbbe5c3ce72481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 034/107] fix: ZipFile::stream() wrote and read outside of its
 buffers for damaged entries and ignored read errors

---
 src/core/ZipFile.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index e5a2e7f..98df2ba 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -176,12 +176,21 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
+   if(entry == nullptr)return nullptr;
+
+   if(int64(entry->mHeaderOffset) + 30 + entry->mCompressedSize > mFile->size())
+   {
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+   }
    ByteArray input = ByteArray(entry->mCompressedSize, 0);
 
    //Local Header
    ByteArray localHeader = ByteArray(30, 0);
    mFile->seek(entry->mHeaderOffset);
-   mFile->Stream::readFully(localHeader);
+   if(mFile->Stream::readFully(localHeader) != localHeader.size())
+   {
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+   }
    uint32 signature = jm::deserializeLEUInt32((uint8*)localHeader.constData(), 0);
 
    if(signature != 0x04034b50)
@@ -195,22 +204,35 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
 
 
    mFile->seek(entry->mHeaderOffset + 30 + fl + el);
-   mFile->Stream::readFully(input);
+   if(mFile->Stream::readFully(input) != input.size())
+   {
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+   }
 
    uint8* buffer = nullptr;
    if(cm == 0) //Daten uncompressed
    {
+      if(entry->mUncompressedSize != entry->mCompressedSize)
+      {
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+      }
       buffer = new uint8[entry->mUncompressedSize];
       memcpy(buffer, input.constData(), entry->mCompressedSize);
    }
-   if(cm == 8) //Deflate
+   else if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
       int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
+      if(control != entry->mUncompressedSize)
+      {
+         delete[] buffer;
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+      }
    }
+   else throw jm::Exception(Tr("ZIP file Error. Compression method is not supported."));
 
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
-- 
2.43.0


From 66bba1441841dc68383d4604a774cfc017df63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 035/107] fix: ZipFile::stream() did not compare the checksum
 of entries

---
 src/core/ZipFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 98df2ba..fa3b209 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -107,6 +107,7 @@ void ZipFile::open()
    {
       if(index + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
       //signature = jm::DeserializeLEInt32(dict, index);
+      uint32 crc = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 16);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
       uint32 fileNameLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 28);
@@ -130,6 +131,7 @@ void ZipFile::open()
       entry->mUncompressedSize = uncompressedSize;
       entry->mCompressedSize = compressedSize;
       entry->mHeaderOffset = offset;
+      entry->mCRC = crc;
 
       mEntries.add(entry, nullptr);
 
@@ -234,6 +236,12 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    }
    else throw jm::Exception(Tr("ZIP file Error. Compression method is not supported."));
 
+   if(crc32(crc32(0, nullptr, 0), buffer, entry->mUncompressedSize) != entry->mCRC)
+   {
+      delete[] buffer;
+      throw jm::Exception(Tr("ZIP file Error. Checksum of Entry wrong."));
+   }
+
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
 
-- 
2.43.0


From 2c294152c673c1cf8166b7eb9bf50b59ab8288bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 036/107] fix: ZipEntry::isDirectory() was always false

---
 src/core/ZipFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index fa3b209..baeb223 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -276,5 +276,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.endsWith("/");
 }
-- 
2.43.0


From fc69babcffe1256bccf1e0b4ab3dd0e67f982a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 037/107] fix: ZipOutputFile::open() kept the directory of a
 longer archive that is replaced

---
 src/core/ZipOutputFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..63af372 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,8 +61,8 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
-   if(mFile->exists() == false)mFile->createNewFile();
-   mFile->open(FileMode::kReadWrite);
+   // An existing archive is replaced. Its remains must not follow the new directory.
+   if(mFile->open(FileMode::kWrite) != Status::eOK)throw jm::Exception(Tr("ZIP-File cannot be opened."));
 }
 
 void ZipOutputFile::close()
-- 
2.43.0


From 5a9eac21a18ecaa15d1fa2fdab1597cfd6108388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 038/107] fix: ZipOutputFile ignored errors while writing and
 reading

---
 src/core/ZipOutputFile.cpp | 47 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 63af372..8392baf 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -33,6 +33,12 @@
 
 using namespace jm;
 
+// Writes all bytes or throws
+static void writeFully(File* file, const uint8* data, int64 length)
+{
+   if(length > 0 && file->write(data, length) != length)throw Exception(Tr("Error while writing ZIP-File!"));
+}
+
 uint32 CRC32(const char* s, uint32 n)
 {
    uint32 crc = 0xFFFFFFFF;
@@ -98,10 +104,10 @@ void ZipOutputFile::close()
       jm::serializeLEInt32(cdfh, 38, 0);//External ShxFile Attributes. Zu 0 gesetzt
       jm::serializeLEInt32(cdfh, 42, entry->mHeaderOffset);//Relative offset to local ShxFile Header
 
-      mFile->write(cdfh, 46);
-      if(cname.size() > 0)mFile->write(reinterpret_cast<const uint8*>(cname.constData()), cname.size());
-      if(cextra.size() > 0)mFile->write(reinterpret_cast<const uint8*>(cextra.constData()), cextra.size());
-      if(ccomment.size() > 0)mFile->write(reinterpret_cast<const uint8*>(ccomment.constData()), ccomment.size());
+      writeFully(mFile, cdfh, 46);
+      writeFully(mFile, reinterpret_cast<const uint8*>(cname.constData()), cname.size());
+      writeFully(mFile, reinterpret_cast<const uint8*>(cextra.constData()), cextra.size());
+      writeFully(mFile, reinterpret_cast<const uint8*>(ccomment.constData()), ccomment.size());
 
    }
 
@@ -119,7 +125,7 @@ void ZipOutputFile::close()
    jm::serializeLEInt32(eof, 16, start);//Start of central directory relative to start of archive
    jm::serializeLEInt16(eof, 20, 0);//Comment Length.
 
-   mFile->write(eof, 22);
+   writeFully(mFile, eof, 22);
 
    mFile->close();
 }
@@ -131,7 +137,7 @@ void ZipOutputFile::closeEntry()
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   mTemp->Stream::readFully(buffer);
+   if(mTemp->Stream::readFully(buffer) != buffer.size())throw Exception(Tr("Error while writing ZIP-File!"));
    mTemp->close();
    mTemp->remove();
    delete mTemp;
@@ -143,7 +149,7 @@ void ZipOutputFile::closeEntry()
    //Schreibe unkomprimiert
    entry->mCompressedSize = entry->mUncompressedSize;
 
-   mFile->write(reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
+   writeFully(mFile, reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
    uint32 pos = static_cast<uint32>(mFile->position());
 
    //Aktualisiere Header
@@ -153,7 +159,7 @@ void ZipOutputFile::closeEntry()
    jm::serializeLEInt32(lfhfragment, 8, entry->mUncompressedSize);
 
    mFile->seek(entry->mHeaderOffset + 14);
-   mFile->write(lfhfragment, 12);
+   writeFully(mFile, lfhfragment, 12);
    mFile->seek(pos);
 }
 
@@ -162,10 +168,11 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
    entry->mUncompressedSize = static_cast<uint32>(file->size());
-   file->open(FileMode::kRead);
+   if(file->open(FileMode::kRead) != Status::eOK)throw Exception(Tr("Error while reading a file for the ZIP-File!"));
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   file->Stream::readFully(buffer);
+   int64 count = file->Stream::readFully(buffer);
    file->close();
+   if(count != buffer.size())throw Exception(Tr("Error while reading a file for the ZIP-File!"));
 
    mTemp->close();
    mTemp->remove();
@@ -178,7 +185,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    //Schreibe unkomprimiert
    entry->mCompressedSize = entry->mUncompressedSize;
 
-   mFile->write(reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
+   writeFully(mFile, reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
    uint32 pos = static_cast<uint32>(mFile->position());
 
    //Aktualisiere Header
@@ -188,7 +195,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    jm::serializeLEInt32(lfhfragment, 8, entry->mUncompressedSize);
 
    mFile->seek(entry->mHeaderOffset + 14);
-   mFile->write(lfhfragment, 12);
+   writeFully(mFile, lfhfragment, 12);
    mFile->seek(pos);
 }
 
@@ -213,20 +220,26 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    jm::serializeLEInt16(lfh, 26, cname.size());//File name Length
    jm::serializeLEInt16(lfh, 28, cextra.size());//Extra field length
 
-   mFile->write(lfh, 30);
-   if(cname.size() > 0)mFile->write(reinterpret_cast<const uint8*>(cname.constData()), cname.size());
-   if(cextra.size() > 0)mFile->write(reinterpret_cast<const uint8*>(cextra.constData()), cextra.size());
+   writeFully(mFile, lfh, 30);
+   writeFully(mFile, reinterpret_cast<const uint8*>(cname.constData()), cname.size());
+   writeFully(mFile, reinterpret_cast<const uint8*>(cextra.constData()), cextra.size());
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
    mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
    mTemp->createNewFile();
-   mTemp->open(FileMode::kReadWrite);
+   if(mTemp->open(FileMode::kReadWrite) != Status::eOK)
+   {
+      delete mTemp;
+      mTemp = nullptr;
+      throw Exception(Tr("Error while writing ZIP-File!"));
+   }
 
    mEntries.add(entry, nullptr);
 }
 
 void ZipOutputFile::write(uint8* data, int64 offset, int64 length)
 {
-   mTemp->write(&data[offset], length);
+   if(mTemp == nullptr)throw Exception(Tr("ZIP-File has no open entry."));
+   writeFully(mTemp, &data[offset], length);
 }
-- 
2.43.0


From 382f32536ef169f10976457f2c7f29d90eff34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 039/107] fix: ZipOutputFile mixed up the data of two archives
 written in the same directory

---
 src/core/ZipOutputFile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 8392baf..a0df27c 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -226,8 +226,17 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
-   mTemp->createNewFile();
+   // Use an own file. Another archive in the same directory may be in progress.
+   for(int64 a = 0; mTemp == nullptr; a++)
+   {
+      mTemp = new jm::File(mFile->parent(), "jmzipdata" + String::valueOf(a) + ".tmp");
+      if(mTemp->createNewFile())break;
+      bool retry = mTemp->exists();
+      delete mTemp;
+      mTemp = nullptr;
+      if(!retry)throw Exception(Tr("Error while writing ZIP-File!"));
+   }
+
    if(mTemp->open(FileMode::kReadWrite) != Status::eOK)
    {
       delete mTemp;
-- 
2.43.0


From f092dfabf3151de25c579b127b6656401f705569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 040/107] fix: ZipOutputFile lost the data of an entry that was
 not closed and crashed without entry

---
 src/core/ZipOutputFile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index a0df27c..b171889 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -73,6 +73,8 @@ void ZipOutputFile::open()
 
 void ZipOutputFile::close()
 {
+   if(mTemp != nullptr)closeEntry();
+
    uint32 start = static_cast<uint32>(mFile->position());
 
    //Schreibe Finales Verzeichnis
@@ -132,6 +134,7 @@ void ZipOutputFile::close()
 
 void ZipOutputFile::closeEntry()
 {
+   if(mTemp == nullptr)throw Exception(Tr("ZIP-File has no open entry."));
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
@@ -165,6 +168,7 @@ void ZipOutputFile::closeEntry()
 
 void ZipOutputFile::writeAndClose(jm::File* file)
 {
+   if(mTemp == nullptr)throw Exception(Tr("ZIP-File has no open entry."));
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
    entry->mUncompressedSize = static_cast<uint32>(file->size());
@@ -201,6 +205,9 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 
 void ZipOutputFile::putNextEntry(ZipEntry* entry)
 {
+   // Entries must not overlap
+   if(mTemp != nullptr)closeEntry();
+
    entry->mHeaderOffset = static_cast<uint32>(mFile->position());
 
    ByteArray cname = entry->mName.toCString();
-- 
2.43.0


From fd173778a50a1eb2e3e12ee3c69e2ca4af768f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 041/107] fix: ZipFile::open() listed all entries twice when
 the file is opened again

---
 src/core/ZipFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index baeb223..64628c7 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -57,6 +57,11 @@ void ZipFile::open()
 {
    if(mFile->open(FileMode::kRead) != Status::eOK)throw jm::Exception(Tr("ZIP-File cannot be opened."));
 
+   // Forget the entries of an earlier call
+   mEntries.rewind();
+   while(mEntries.hasNext())mEntries.next()->release();
+   mEntries.clear(nullptr);
+
    int64 length = mFile->size();
    int64 seek = length - 22;
 
-- 
2.43.0


From 17dc1629f351159c8d6c18aa6c76cc5715543266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 042/107] fix: ZipOutputFile left its temporary file behind
 after errors

---
 include/core/ZipFile.h     |  5 +++++
 src/core/ZipOutputFile.cpp | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..885e6c0 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -178,6 +178,11 @@ namespace jm
          */
          explicit ZipOutputFile(File* file);
 
+         /*!
+         \brief Destructor. Removes the temporary data of an entry that was not closed.
+         */
+         ~ZipOutputFile() override;
+
          /*!
          \brief Opens the file for writing.
          */
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index b171889..06d1352 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -65,6 +65,21 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
    mTemp = nullptr;
 }
 
+ZipOutputFile::~ZipOutputFile()
+{
+   if(mTemp == nullptr)return;
+   try
+   {
+      mTemp->close();
+   }
+   catch(const Exception&)
+   {
+      // The data are not needed anymore
+   }
+   mTemp->remove();
+   delete mTemp;
+}
+
 void ZipOutputFile::open()
 {
    // An existing archive is replaced. Its remains must not follow the new directory.
@@ -246,6 +261,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    if(mTemp->open(FileMode::kReadWrite) != Status::eOK)
    {
+      mTemp->remove();
       delete mTemp;
       mTemp = nullptr;
       throw Exception(Tr("Error while writing ZIP-File!"));
-- 
2.43.0


From b4451aea6a3cb952726769c3debea4bd76ef4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 043/107] fix: ZipFile::comment() was always empty

---
 include/core/ZipFile.h |  3 +++
 src/core/ZipFile.cpp   | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 885e6c0..6facfb5 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -158,6 +158,9 @@ namespace jm
          //! The file.
          Stream* mFile;
 
+         //! The comment of the archive
+         String mComment;
+
          //! The entries
          LinkedList mEntries;
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 64628c7..fcbb575 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -58,6 +58,7 @@ void ZipFile::open()
    if(mFile->open(FileMode::kRead) != Status::eOK)throw jm::Exception(Tr("ZIP-File cannot be opened."));
 
    // Forget the entries of an earlier call
+   mComment = kEmptyString;
    mEntries.rewind();
    while(mEntries.hasNext())mEntries.next()->release();
    mEntries.clear(nullptr);
@@ -101,6 +102,14 @@ void ZipFile::open()
 
    if(int64(dictOffset) + dictSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
 
+   uint16 archiveCommentLength = jm::deserializeLEUInt16((uint8*)eocd.constData(), 20);
+   ByteArray archiveComment = ByteArray(std::min(int64(archiveCommentLength), length - mFile->position()), 0);
+   if(mFile->Stream::readFully(archiveComment) != archiveComment.size())
+   {
+      throw jm::Exception(Tr("ZIP-File cannot be read."));
+   }
+   mComment = String(archiveComment);
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
    if(mFile->Stream::readFully(dict) != dict.size())throw jm::Exception(Tr("ZIP-File cannot be read."));
@@ -155,7 +164,7 @@ void ZipFile::close()
 
 jm::String ZipFile::comment()
 {
-   return kEmptyString;
+   return mComment;
 }
 
 ZipEntry* ZipFile::entry(const String& name)
-- 
2.43.0


From afa73bfe07374ff45868ae21cee9925fa659309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 044/107] fix: ZipFile::open() did not check the signature of
 its entries

---
 src/core/ZipFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index fcbb575..f437f3f 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -120,7 +120,8 @@ void ZipFile::open()
    while(count < recordCount)
    {
       if(index + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
-      //signature = jm::DeserializeLEInt32(dict, index);
+      signature = jm::deserializeLEInt32((uint8*)dict.constData(), index);
+      if(signature != 0x02014b50)throw jm::Exception(Tr("ZIP-File is invalid."));
       uint32 crc = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 16);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
-- 
2.43.0


From 74fff4ad5c611019da0c44ced4de29ee6f2df7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 045/107] fix: ZipOutputFile used wrong offsets if the position
 in the file is unknown

---
 src/core/ZipOutputFile.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 06d1352..937f2e2 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -39,6 +39,14 @@ static void writeFully(File* file, const uint8* data, int64 length)
    if(length > 0 && file->write(data, length) != length)throw Exception(Tr("Error while writing ZIP-File!"));
 }
 
+// Returns the position in the file or throws
+static uint32 currentPosition(File* file)
+{
+   int64 position = file->position();
+   if(position < 0)throw Exception(Tr("Error while writing ZIP-File!"));
+   return static_cast<uint32>(position);
+}
+
 uint32 CRC32(const char* s, uint32 n)
 {
    uint32 crc = 0xFFFFFFFF;
@@ -90,7 +98,7 @@ void ZipOutputFile::close()
 {
    if(mTemp != nullptr)closeEntry();
 
-   uint32 start = static_cast<uint32>(mFile->position());
+   uint32 start = currentPosition(mFile);
 
    //Schreibe Finales Verzeichnis
    mEntries.rewind();
@@ -128,7 +136,7 @@ void ZipOutputFile::close()
 
    }
 
-   uint32 end = static_cast<uint32>(mFile->position());
+   uint32 end = currentPosition(mFile);
 
    //Frilte End of Directory Record
    uint8 eof[22];
@@ -152,7 +160,7 @@ void ZipOutputFile::closeEntry()
    if(mTemp == nullptr)throw Exception(Tr("ZIP-File has no open entry."));
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
-   entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
+   entry->mUncompressedSize = currentPosition(mTemp);
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
    if(mTemp->Stream::readFully(buffer) != buffer.size())throw Exception(Tr("Error while writing ZIP-File!"));
@@ -168,7 +176,7 @@ void ZipOutputFile::closeEntry()
    entry->mCompressedSize = entry->mUncompressedSize;
 
    writeFully(mFile, reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
-   uint32 pos = static_cast<uint32>(mFile->position());
+   uint32 pos = currentPosition(mFile);
 
    //Aktualisiere Header
    uint8 lfhfragment[12];
@@ -205,7 +213,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    entry->mCompressedSize = entry->mUncompressedSize;
 
    writeFully(mFile, reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
-   uint32 pos = static_cast<uint32>(mFile->position());
+   uint32 pos = currentPosition(mFile);
 
    //Aktualisiere Header
    uint8 lfhfragment[12];
@@ -223,7 +231,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    // Entries must not overlap
    if(mTemp != nullptr)closeEntry();
 
-   entry->mHeaderOffset = static_cast<uint32>(mFile->position());
+   entry->mHeaderOffset = currentPosition(mFile);
 
    ByteArray cname = entry->mName.toCString();
    ByteArray cextra = entry->mExtra.toCString();
@@ -246,7 +254,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    writeFully(mFile, reinterpret_cast<const uint8*>(cname.constData()), cname.size());
    writeFully(mFile, reinterpret_cast<const uint8*>(cextra.constData()), cextra.size());
 
-   entry->mDataOffset = static_cast<uint32>(mFile->position());
+   entry->mDataOffset = currentPosition(mFile);
 
    // Use an own file. Another archive in the same directory may be in progress.
    for(int64 a = 0; mTemp == nullptr; a++)
-- 
2.43.0


From f0b524f68268103fd219512a7605e036b3a62dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 046/107] fix: ZipOutputFile::writeAndClose() stored an empty
 entry if the size of the file is unknown

---
 src/core/ZipOutputFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 937f2e2..4df7cae 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -198,8 +198,11 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    if(file->open(FileMode::kRead) != Status::eOK)throw Exception(Tr("Error while reading a file for the ZIP-File!"));
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
    int64 count = file->Stream::readFully(buffer);
+   // The size is 0 if it cannot be determined
+   uint8 more;
+   bool complete = count == buffer.size() && file->read(&more, 1) == 0;
    file->close();
-   if(count != buffer.size())throw Exception(Tr("Error while reading a file for the ZIP-File!"));
+   if(!complete)throw Exception(Tr("Error while reading a file for the ZIP-File!"));
 
    mTemp->close();
    mTemp->remove();
-- 
2.43.0


From e510d3c889993af9e6ec0fce4cf64b0c356ca676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 047/107] fix: ZipFile::open() showed an archive of unknown
 size as empty

---
 src/core/ZipFile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index f437f3f..1707182 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -67,7 +67,13 @@ void ZipFile::open()
    int64 seek = length - 22;
 
    // If the file is empty, then we are done
-   if(length == 0)return;
+   if(length == 0)
+   {
+      // The size is 0, too, if it cannot be determined
+      uint8 byte;
+      if(mFile->read(&byte, 1) > 0)throw jm::Exception(Tr("ZIP-File cannot be read."));
+      return;
+   }
    if(seek < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
 
    // We first read the file at the end, where the directory with the entries is located.
-- 
2.43.0


From 960e3c241c92e785dadc5eac365723824e63d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 048/107] fix: System::language() used memory that another
 thread may have freed

---
 src/core/System.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index b110e79..da5d195 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -58,6 +58,9 @@ jm::String jm::System::language()
    return osSystemLanguage();
    #else
 
+   // The result of setlocale() is valid only until the next call in any thread
+   gSystemMutex.lock();
+
    // Set the locale to the user's environment locale (if not already set)
    if(setlocale(LC_ALL, "") == nullptr)
    {
@@ -68,6 +71,8 @@ jm::String jm::System::language()
    const char* language = setlocale(LC_ALL, nullptr);
 
    jm::String lang = jm::String(language);
+   gSystemMutex.unlock();
+
    int64 index = lang.indexOf('.');
    if(index > 0)lang = lang.substring(0, index);
    std::cout << "LANG: " << lang << std::endl;
-- 
2.43.0


From ad1db2c04ee1f98db3baae1c9c99b9a8fe60542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 049/107] fix: the copy constructor of SAXAttributes used
 uninitialised pointers

---
 src/core/SAXAttributes.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..9b0ea70 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,16 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
-
-   for(uint32 a = 0; a < other.mNames->size(); a++)
-   {
-      mNames->push_back(other.mNames->at(a));
-      mValues->push_back(other.mValues->at(a));
-   }
+   mNames = new std::vector<String>(*other.mNames);
+   mValues = new std::vector<String>(*other.mValues);
 }
 
 SAXAttributes& SAXAttributes::operator=(const SAXAttributes& other)
-- 
2.43.0


From 6f530f32696105bab30b6fe991ac3836beabe46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 050/107] fix: SAXParser dropped the apostrophes that XMLWriter
 writes as &apos;

---
 src/core/SAXParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..36c9615 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -152,6 +152,7 @@ void SAXParser::parse(const String& xml)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
          else if(escape.equals("le;"))token.append(0x2264); //≤
          else if(escape.equals("ge;"))token.append(0x2265); //≥
          else if(escape.equals("leq;"))token.append(0x2264); //≤
@@ -267,6 +268,7 @@ void SAXParser::parseTagString(const String& xmlline)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
-- 
2.43.0


From 9e0824415e766e2323573d311e766557f7c7803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 051/107] fix: SAXParser delivered the content of files that
 could not be read completely

---
 src/core/SAXParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 36c9615..6ff9529 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -49,9 +49,13 @@ void SAXParser::parse(File& file)
    if(!file.canRead())return;
    int64 length = file.size();
    ByteArray buffer = ByteArray(length, 0);
-   file.open(jm::FileMode::kRead);
-   file.Stream::readFully(buffer);
+   if(file.open(jm::FileMode::kRead) != Status::eOK)throw Exception(Tr("XML file cannot be opened."));
+   int64 count = file.Stream::readFully(buffer);
+   // The size is 0, too, if it cannot be determined
+   uint8 byte;
+   if(count == 0 && file.read(&byte, 1) > 0)count++;
    file.close();
+   if(count != length)throw Exception(Tr("XML file cannot be read."));
    jm::String content = jm::String(buffer);
    parse(content);
 }
-- 
2.43.0


From ab7cec5d91441c3c06d5cda4d090cf0678231dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 052/107] fix: XMLWriter reported success for documents that
 were not written completely

---
 include/core/XMLWriter.h |  7 +++++
 src/core/XMLWriter.cpp   | 64 +++++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/include/core/XMLWriter.h b/include/core/XMLWriter.h
index 26f83f2..6394875 100644
--- a/include/core/XMLWriter.h
+++ b/include/core/XMLWriter.h
@@ -183,6 +183,9 @@ namespace jm
 
          bool mLastIndent;
 
+         //! At least one part of the document could not be written.
+         bool mFailed;
+
          struct ElementInfo
          {
             String name;
@@ -204,6 +207,10 @@ namespace jm
          String Encode(const String& input);
 
          void WriteIndent();
+
+         void Write(const String& text);
+
+         void Write(const uint8* data, int64 length);
    };
 
 }
diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 2520426..8f7791a 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -36,6 +36,9 @@ using namespace jm;
 XMLWriter::XMLWriter(jm::Stream* output)
 {
    mOutput = output;
+   mIndent = 0;
+   mLastIndent = false;
+   mFailed = false;
 
    mOpenElements = new Stack<ElementInfo>();
 }
@@ -49,16 +52,29 @@ bool XMLWriter::startDocument()
 {
    mIndent = 0;
    mLastIndent = false;
-   if(mOutput->isOpen() == false)mOutput->open(FileMode::kWrite);
+   mFailed = false;
+   if(mOutput->isOpen() == false && mOutput->open(FileMode::kWrite) != Status::eOK)mFailed = true;
 
-   mOutput->write("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
-   return true;
+   Write("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
+   return mFailed == false;
 }
 
 bool XMLWriter::endDocument()
 {
    mOutput->close();
-   return true;
+   return mFailed == false;
+}
+
+void XMLWriter::Write(const jm::String& text)
+{
+   ByteArray cstr = text.toCString();
+   Write((const uint8*)cstr.constData(), cstr.size());
+}
+
+void XMLWriter::Write(const uint8* data, int64 length)
+{
+   if(mFailed)return;
+   if(mOutput->write(data, length) != length)mFailed = true;
 }
 
 void XMLWriter::startIndent()
@@ -66,7 +82,7 @@ void XMLWriter::startIndent()
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOutput->write(">");
+      Write(">");
    }
    mIndent += 3;
    mLastIndent = true;
@@ -77,7 +93,7 @@ void XMLWriter::endIndent()
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOutput->write(">");
+      Write(">");
    }
    mLastIndent = false;
    mIndent -= 3;
@@ -89,7 +105,7 @@ void XMLWriter::startElement(const jm::String& name)
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOutput->write(">");
+      Write(">");
    }
 
    if(mLastIndent)
@@ -98,8 +114,8 @@ void XMLWriter::startElement(const jm::String& name)
    }
 
 
-   mOutput->write("<");
-   mOutput->write(name);
+   Write("<");
+   Write(name);
 
    ElementInfo info;
    info.name = name;
@@ -114,7 +130,7 @@ void XMLWriter::endElement()
    {
       if(mOpenElements->top().hasContent == false)
       {
-         mOutput->write("/>");
+         Write("/>");
       }
       else
       {
@@ -123,9 +139,9 @@ void XMLWriter::endElement()
             WriteIndent();
          }
 
-         mOutput->write("</");
-         mOutput->write(mOpenElements->top().name);
-         mOutput->write(">");
+         Write("</");
+         Write(mOpenElements->top().name);
+         Write(">");
       }
 
       mOpenElements->pop();
@@ -139,7 +155,7 @@ void XMLWriter::writeCData(const jm::String& cdata, bool xmlencode)
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOutput->write(">");
+      Write(">");
    }
 
    if(mOpenElements->size() > 0 && mOpenElements->top().hasCharacters == false)
@@ -153,11 +169,11 @@ void XMLWriter::writeCData(const jm::String& cdata, bool xmlencode)
       jm::String encoded = Encode(cdata);
 
 
-      mOutput->write(encoded);
+      Write(encoded);
    }
    else
    {
-      mOutput->write(cdata);
+      Write(cdata);
    }
    mLastIndent = false;
 }
@@ -187,12 +203,12 @@ void XMLWriter::WriteBase64(uint8* data, int64 length)
    {
       mOpenElements->topRef()->hasContent = true;
       mOpenElements->topRef()->hasCharacters = true;
-      mOutput->write(">");
+      Write(">");
    }
 
 
    uint8* encoded = jm::Base64::encode(data, length);
-   mOutput->write(encoded, length);
+   Write(encoded, length);
    delete[] encoded;
    mLastIndent = false;
 }
@@ -205,11 +221,11 @@ void XMLWriter::writeAttribute(const jm::String& name, const jm::String& content
       return;
    }
 
-   mOutput->write(" ");
-   mOutput->write(name);
-   mOutput->write("=\"");
-   mOutput->write(Encode(content));
-   mOutput->write("\"");
+   Write(" ");
+   Write(name);
+   Write("=\"");
+   Write(Encode(content));
+   Write("\"");
    mLastIndent = false;
 }
 
@@ -248,5 +264,5 @@ void XMLWriter::WriteIndent()
    str << '\n';
    for(int32 a = 0; a < mIndent; a++)str.append(' ');
    if(str.size() == 0)return;
-   mOutput->write(str);
+   Write(str);
 }
-- 
2.43.0


From 52cc4dd0b7c6d073f9c64e5ee7ddca885572dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 053/107] fix: I18nBundle::appendMo() read outside of damaged
 translation files

---
 src/core/I18nBundle.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..38a9537 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -71,6 +71,13 @@ void I18nBundle::appendMo(Stream* file)
    }
    uint8* buffer = (uint8*)buf.constData();
 
+   // The header has 5 numbers
+   if(length < 20)
+   {
+      System::log(Tr("Translation file damaged"), LogLevel::kError);
+      return;
+   }
+
    // Process content
    uint32 magic = jm::deserializeLEUInt32(buffer, 0);
    uint32 version = jm::deserializeLEUInt32(buffer, 4);
@@ -99,6 +106,15 @@ void I18nBundle::appendMo(Stream* file)
 
    std::vector<Record>records;
 
+   // Both tables must be part of the file
+   const uint64 fileSize = length;
+   const uint64 tableSize = uint64(stringCount) * 8;
+   if(origOffset + tableSize > fileSize || transOffset + tableSize > fileSize)
+   {
+      System::log(Tr("Translation file damaged"), LogLevel::kError);
+      return;
+   }
+
    // Read the string records
    uint32 offset = 0;
    for(uint32 a = 0; a < stringCount; a++)
@@ -109,6 +125,14 @@ void I18nBundle::appendMo(Stream* file)
       rec.transLength = jm::deserializeLEUInt32(buffer, transOffset + offset);
       rec.transOffset = jm::deserializeLEUInt32(buffer, transOffset + offset + 4);
 
+      // The strings must be part of the file
+      if(uint64(rec.origOffset) + rec.origLength > fileSize ||
+            uint64(rec.transOffset) + rec.transLength > fileSize)
+      {
+         System::log(Tr("Translation file damaged"), LogLevel::kError);
+         return;
+      }
+
       offset += 8;
 
       records.push_back(rec);
-- 
2.43.0


From 8c094543aedbe45a42f08bc2726dc993c95ebe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 054/107] fix: an unreadable translation file kept the library
 from starting

---
 src/core/I18nBundle.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 38a9537..1762448 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -167,7 +167,15 @@ void I18nBundle::initDefault()
    // Append Data only if bundle id is set
    if(jm::System::bundleId().size() == 0)return;
    Resource res = transFileByBundleId(jm::kEmptyString, gDefaultTranslation->mLanguage);
-   gDefaultTranslation->appendMo(&res);
+   try
+   {
+      gDefaultTranslation->appendMo(&res);
+   }
+   catch(Exception& e)
+   {
+      // The application can do without translation
+      System::log(e.errorMessage(), LogLevel::kError);
+   }
 }
 
 void I18nBundle::quitDefault()
-- 
2.43.0


From 8f821ec47cbe0abfcd5ed9fe44d621c106494843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 055/107] fix: LinkedList::swapData() did nothing without an
 undo manager

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From fffe02f975ddebcd479f80c2a61cb007f619d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 056/107] fix: the element of an undone LinkedList::add() was
 never freed

---
 src/core/LinkedList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 699ae69..504c93c 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -119,6 +119,7 @@ void LinkedList::clear(UndoManager* um)
 void LinkedList::add(Object* data, UndoManager* um)
 {
    LListElement* item = new LListElement();
+   if(um != nullptr)um->registerRetain(item);
    if(um != nullptr)um->registerChange(item, reinterpret_cast<Object * *>(&(item->data)));
    item->data = data;
    add(item, um);
@@ -170,6 +171,7 @@ void LinkedList::addBefore(Object* addBeforeThis, Object* itemToAdd, UndoManager
    if(before != nullptr)
    {
       LListElement* item = new LListElement();
+      if(um != nullptr)um->registerRetain(item);
       if(um != nullptr)um->registerChange(item, (Object* *) & (item->data));
       item->data = itemToAdd;
 
-- 
2.43.0


From 65a3eebafbd6e5ed0709aad64a11ac17dce52f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 057/107] fix: UndoManager leaked a transaction that was still
 open

---
 src/core/UndoManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..0b86a85 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -58,6 +58,7 @@ UndoManager::~UndoManager()
 {
    clearStacks();
    delete mCurrent;
+   delete mTransaction;
 }
 
 void UndoManager::setDocument(Document* document)
-- 
2.43.0


From d0d5065eedc350062d3e257409b61e468c7d48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 058/107] fix: Date gave a negative day of the week before 1970

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From 1e3a248e845d71e458e5ac166516f16a7e8cd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 059/107] fix: DateFormatter did not know the documented letter
 D

---
 src/core/DateFormatter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..26a75d6 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -161,6 +161,10 @@ DateFormatter::Pattern::Pattern(const String& value, bool isText)
             type = DateFormatter::PatternType::kDayInMonth;
             break;
 
+         case 'D':
+            type = DateFormatter::PatternType::kDayInYear;
+            break;
+
          case 'H':
             type = DateFormatter::PatternType::kHourInDay0;
             break;
-- 
2.43.0


From 22f7cd327895c339e6f3085bcd923c69b31b8e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 060/107] fix: DateFormatter printed the letters in front of a
 quoted text literally

---
 src/core/DateFormatter.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 26a75d6..7c34b2b 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,18 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            // The quoted text does not belong to what stands before it
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+            isText = true;
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
-- 
2.43.0


From 94133079918fd952769ea5e42115c117d22a3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 061/107] fix: DateFormatter misspelled September

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 7c34b2b..a01bb89 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -479,7 +479,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From e06666f540d7d5eb6faf63c0ef0927b7b40eaf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 062/107] fix: System::macAddress1() never found an address and
 crashed on interfaces without one

---
 src/core/System.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index da5d195..be49601 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -31,6 +31,10 @@
 
 #include "PrecompiledCore.hpp"
 
+#ifdef __linux__
+#include <net/if_arp.h>
+#endif
+
 jm::Mutex gSystemMutex;
 jm::String gSystemError;
 
@@ -307,10 +311,11 @@ jm::String jm::System::macAddress1()
 
    for(ifa = ifap; ifa != nullptr; ifa = ifa->ifa_next)
    {
+      if(ifa->ifa_addr == nullptr)continue;  // interface without address
       if(ifa->ifa_addr->sa_family == AF_PACKET)  // check for ethernet
       {
          sll = (struct sockaddr_ll*)ifa->ifa_addr;
-         if(sll->sll_protocol == htons(ETH_P_IP))
+         if(sll->sll_hatype == ARPHRD_ETHER)
          {
             unsigned char* mac = sll->sll_addr;
             snprintf(macAddress, sizeof(macAddress), "%02x:%02x:%02x:%02x:%02x:%02x",
-- 
2.43.0


From 2162f7952bf9d249f02b23432d6c775a405fbc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 063/107] fix: System::language() returned the list of all
 categories for mixed locales

---
 src/core/System.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index be49601..fbe03b3 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -72,7 +72,7 @@ jm::String jm::System::language()
    }
 
    // Use nl_langinfo to get the language
-   const char* language = setlocale(LC_ALL, nullptr);
+   const char* language = setlocale(LC_MESSAGES, nullptr);
 
    jm::String lang = jm::String(language);
    gSystemMutex.unlock();
-- 
2.43.0


From 2bc26de0f71d82f2910ccc52943193b4d90b69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 064/107] fix: ExecPath() cut off paths of more than 1023 bytes

---
 src/core/File.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 8408b3a..54eefea 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -944,11 +944,10 @@ String jm::ExecPath()
    String ret = String(path);
    return ret;
    #elif defined __linux__ //Linux
-   char buff[1024];
+   char buff[PATH_MAX + 1];
    ssize_t len = ::readlink("/proc/self/exe", buff, sizeof(buff) - 1);
    if(len > 0)
    {
-      if(len >= 1024)len = 1023;
       buff[len] = '\0';
       return String(buff);
    }
-- 
2.43.0


From ce639c083ee784f1b7f327ca8bc8129020acf6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 065/107] fix: currentDir() and TempDir() returned an
 uninitialised path when getcwd() failed

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 54eefea..f2e7a89 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -1179,7 +1179,7 @@ File jm::TempDir()
    return File(temp);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File();
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
@@ -1199,7 +1199,7 @@ File jm::currentDir()
    return File(cwd);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File();
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
-- 
2.43.0


From d278d44ee2170602d3c73838f774b69303ebef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 066/107] fix: ExecDir() threw for programs in the root
 directory or without known path

---
 src/core/File.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f2e7a89..a1fdf7a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -991,7 +991,9 @@ String jm::ExecDir()
 {
    String exec = ExecPath();
    int64 pos = exec.lastIndexOf(DIR_SEP);
-   if(exec.charAt(pos - 1) == '.' && exec.charAt(pos - 2) == DIR_SEP)pos -= 2;
+   if(pos < 0)return jm::kEmptyString;
+   if(pos > 1 && exec.charAt(pos - 1) == '.' && exec.charAt(pos - 2) == DIR_SEP)pos -= 2;
+   if(pos == 0)pos = 1;  // The root directory
    return exec.substring(0, pos);
 }
 
-- 
2.43.0


From 2895cb0cff8266e7832620fab86bbeb0b0136a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 067/107] fix: Windows-1252 mapped 0x88 to U+20C6 instead of
 the circumflex U+02C6

---
 src/core/Windows1252Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..aaca226 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
-- 
2.43.0


From bb94b18030fbe37d1141fe1c44033747171660fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 068/107] fix: MacRoman confused i with grave and acute accent
 and lost infinity and DEL

---
 src/core/MacRomanDecoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..ac53504 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,9 +47,9 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
@@ -327,7 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
-      //0x7f is DEL (invisible)
+      case 0x007F:
+         return 0x7F;//DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
       case 0x00C5:
-- 
2.43.0


From 41f76d7d48db0b49fcc33c5158acbcce79175ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 069/107] fix: UTF-16 texts ended at characters with a zero
 byte, UTF-16LE was written as UTF-16BE

---
 src/core/UTF16Decoder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..ff8ba72 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,8 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   // The string ends with a zero character, that are two zero bytes.
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
@@ -97,9 +98,11 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
+      uint8 high = (uint8)(character >> 8);
+      uint8 low = (uint8)character;
+      cstring[idx] = be ? high : low;
       idx++;
-      cstring[idx] = (int8)character;
+      cstring[idx] = be ? low : high;
       idx++;
    }
    return cstring;
-- 
2.43.0


From 2fe35a21dbaafa084ae0679a4d120794e5c7d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 070/107] fix: UTF-8 lost characters above U+FFFF

---
 src/core/UTF8Decoder.cpp | 68 ++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index 0bd3472..9d24348 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -52,6 +52,32 @@ static uint32 sequenceLength(const char* cstring)
    return length;
 }
 
+// Returns the code point of a sequence of four bytes.
+static uint32 codePoint(const char* cstring)
+{
+   return ((uint32)(cstring[0] & 0x07) << 18) |
+          ((uint32)(cstring[1] & 0x3F) << 12) |
+          ((uint32)(cstring[2] & 0x3F) << 6) |
+          (uint32)(cstring[3] & 0x3F);
+}
+
+// Characters above U+FFFF are represented by two characters (surrogates).
+static bool isSupplementary(const char* cstring, uint32 length)
+{
+   if(length != 4)return false;
+   uint32 c = codePoint(cstring);
+   return c >= 0x10000 && c <= 0x10FFFF;
+}
+
+// Returns true, if the characters at index and index + 1 represent one character above U+FFFF.
+static bool isSurrogatePair(const CharArray& string, int64 index)
+{
+   if(index + 1 >= string.length)return false;
+   uint16 high = string.buffer[index].unicode();
+   uint16 low = string.buffer[index + 1].unicode();
+   return high >= 0xD800 && high <= 0xDBFF && low >= 0xDC00 && low <= 0xDFFF;
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -92,14 +118,15 @@ CharArray UTF8Decoder::decode(const char* cstring)
       if(c == 0xFF && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; // ignored, see below
       else
       {
-         strLength++;
-         cntC += sequenceLength(&cstring[cntC]);
+         uint32 length = sequenceLength(&cstring[cntC]);
+         strLength += isSupplementary(&cstring[cntC], length) ? 2 : 1;
+         cntC += length;
       }
    }
    cntC = start;
 
    CharArray ret = CharArray(strLength);
-   uint16 d, e, f;
+   uint16 d, e;
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
@@ -130,12 +157,19 @@ CharArray UTF8Decoder::decode(const char* cstring)
       }
       else if(length == 4)     //4 Zeichen
       {
-         c = (c & 0x0007) << 18;
-         d = (cstring[cntC + 1] & 0x3F) << 12;
-         e = (cstring[cntC + 2] & 0x3F) << 6;
-         f = cstring[cntC + 3] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e | f);
-         cntV++;
+         uint32 cp = codePoint(&cstring[cntC]);
+         if(isSupplementary(&cstring[cntC], length))
+         {
+            cp -= 0x10000;
+            ret.buffer[cntV] = Char((uint16)(0xD800 | (cp >> 10)));
+            ret.buffer[cntV + 1] = Char((uint16)(0xDC00 | (cp & 0x3FF)));
+            cntV += 2;
+         }
+         else
+         {
+            ret.buffer[cntV] = Char((uint16)cp);
+            cntV++;
+         }
          cntC += 4;
       }
       else if(c == 0xFF
@@ -165,6 +199,11 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
       {
          cntC += 2;
       }
+      else if(isSurrogatePair(string, a))   //4 Zeichen
+      {
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cntC += 3;
@@ -187,6 +226,17 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
          cstring[cntC + 1] = (int8)(character & 0x3F) | 0x80;
          cntC += 2;
       }
+      else if(isSurrogatePair(string, a))   //4 Zeichen
+      {
+         uint32 cp = 0x10000 + ((uint32)(character & 0x3FF) << 10);
+         cp += string.buffer[a + 1].unicode() & 0x3FF;
+         cstring[cntC] = (uint8)((cp >> 18) & 0x07) | 0xF0;
+         cstring[cntC + 1] = (uint8)((cp >> 12) & 0x3F) | 0x80;
+         cstring[cntC + 2] = (uint8)((cp >> 6) & 0x3F) | 0x80;
+         cstring[cntC + 3] = (uint8)(cp & 0x3F) | 0x80;
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cstring[cntC] = (int8)((character >> 12) & 0x0F) | 0xE0;
-- 
2.43.0


From f259125d83360ed32beb70a2205f9e6a8b0e7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 071/107] fix: RAW and ASCII read bytes above 0x7F as
 characters of the range U+FF80 to U+FFFF

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..48fc87c 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char((uint8)cstring[a]);
    }
 
    return array;
-- 
2.43.0


From 9592cb572014ae389e91ac1db159beebf0e98329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 072/107] fix: Charset::guess() took every text for ASCII and
 read beyond short buffers

---
 src/core/Charset.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..790a0e8 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -182,15 +182,18 @@ String Charset::guess(const char* stream, int64 length)
 
 
    //UTF-16BE
-   if(stream[0] == static_cast<char>(0xFE) &&
+   if(length >= 2 &&
+         stream[0] == static_cast<char>(0xFE) &&
          stream[1] == static_cast<char>(0xFF))return "UTF-16BE";
 
    //UTF-16LE
-   else if(stream[0] == static_cast<char>(0xFF) &&
+   else if(length >= 2 &&
+           stream[0] == static_cast<char>(0xFF) &&
            stream[1] == static_cast<char>(0xFE))return "UTF-16LE";
 
    //UTF-8
-   else if(stream[0] == static_cast<char>(0xEF) &&
+   else if(length >= 3 &&
+           stream[0] == static_cast<char>(0xEF) &&
            stream[1] == static_cast<char>(0xBB) &&
            stream[2] == static_cast<char>(0xBF))return "UTF-8";
 
@@ -225,7 +228,7 @@ String Charset::guess(const char* stream, int64 length)
    {
       for(uint32 a = 0; a < length; a++)
       {
-         switch(stream[a])
+         switch(static_cast<uint8>(stream[a]))
          {
             case 0x81:
             case 0x8D:
@@ -247,7 +250,7 @@ String Charset::guess(const char* stream, int64 length)
    bool isASCII = true;
    for(uint32 a = 0; a < length; a++)
    {
-      if(stream[a] > 0x7F)
+      if(static_cast<uint8>(stream[a]) > 0x7F)
       {
          isASCII = false;
          break;
-- 
2.43.0


From a39889aff99a0c98cacd5383e071207c00795ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 073/107] fix: a text made of a null byte array or of UTF-16
 bytes read beyond the array

---
 src/core/String.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index a02c48e..e62e868 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
-   memcpy(cstring, buffer, size);
+   char* cstring = new char[size + 3];
+   if(size > 0)memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with an odd number of bytes required
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -131,11 +132,9 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
    copy(array);
 }
 
-String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
-   mHash(0)
+String::String(const ByteArray& buffer, Charset* charset) : String(buffer.constData(), buffer.size(),
+         charset)
 {
-   CharArray array = charset->decode(buffer.constData());
-   copy(array);
 }
 
 String::~String()
-- 
2.43.0


From e597ea108650998fc097e68fbbb1ac7c87c61a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 074/107] fix: Hashtable::isEmpty() and containsValue() were
 declared, but did not exist

---
 src/core/Hashtable.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index a1b7c86..32c92c4 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -109,6 +109,24 @@ bool Hashtable::containsKey(const String& key) const noexcept
    return get(key) != nullptr;
 }
 
+bool Hashtable::containsValue(void* value) const noexcept
+{
+   for(int64 index = 0; index < mArrLength; index++)
+   {
+      for(HashtableEntry* e = mData[index]; e != nullptr; e = e->next)
+      {
+         if(e->value == value)return true;
+      }
+   }
+
+   return false;
+}
+
+bool Hashtable::isEmpty() const noexcept
+{
+   return mDataLength == 0;
+}
+
 void* Hashtable::remove(const String& key) noexcept
 {
    int64 hash = key.constHashCode();
-- 
2.43.0


From a219a7b1ba932b2675815b9c71303ea28575e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 075/107] fix: String::insert() of a string into itself
 inserted wrong characters

---
 src/core/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e62e868..8bce3aa 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -552,6 +552,13 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   // If the string is inserted into itself, a copy is needed.
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From bee08fcbebf8c2843c83afbc5d3dc94caa914fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 076/107] fix: String::deleteCharRangeAt() removed characters
 in front of the section if it exceeded the string

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 8bce3aa..e9a149e 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -588,6 +588,10 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   // The section ends at the end of the string.
+   if(length < 0)length = 0;
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From bd858c4ed2087f9b7225ebd2dddfa3edd3fa4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 077/107] fix: String::replace() of an empty string did not end

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e9a149e..327710c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -446,6 +446,9 @@ String String::replace(Char oldChar, Char newChar) const
 
 String String::replace(const String& oldStr, const String& newStr)const
 {
+   // An empty string cannot be replaced.
+   if(oldStr.isEmpty())return *this;
+
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
    if(pos2 < 0)return *this;
-- 
2.43.0


From 80948f5f62df5c3c9f911015b287dc919fdfc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 078/107] fix: String::arg() put the argument in front of
 strings with '%' but without placeholder

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 327710c..ba551f6 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -822,7 +822,7 @@ bool String::argIndicies(int64& first, int64& second) const
       }
    }
 
-   return true;
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 9e38b16257f635748e14b10bf687cd7b52315e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 079/107] fix: String::arg() showed large unsigned numbers as
 negative

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index ba551f6..744cdf7 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -906,7 +906,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From 5ac7fe687572b3c45f890f91d27d00793bc10c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 080/107] fix: URLEncode() left characters above U+007F
 unencoded, URLDecode() lost them

---
 src/core/String.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 744cdf7..8e9723b 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1391,10 +1391,11 @@ String jm::URLEncode(const String& str)
    // A URL-encoded string contains only ASCII characters...
    //
    String ret;
+   const ByteArray buffer = str.toCString();
 
-   for(uint32 a = 0; a < str.size(); a++)
+   for(int64 a = 0; a < buffer.size(); a++)
    {
-      switch(str.charAt(a).unicode())
+      switch(buffer[a])
       {
          case ' ':
             ret.append('+');
@@ -1413,7 +1414,12 @@ String jm::URLEncode(const String& str)
             break;
 
          default:
-            ret.append(str.charAt(a));
+            if(buffer[a] < 0x80)ret.append(Char(buffer[a]));
+            else
+            {
+               ret.append('%');
+               ret.append(Integer::toHexString(buffer[a]));
+            }
             break;
       }
    }
-- 
2.43.0


From de7af5105545852068f2ce0ac0261663250c61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 081/107] fix: StringList::append() and remove() used elements
 of the list after they were moved

---
 src/core/StringList.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..3680475 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,15 +82,19 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   // The string could be an element of this list.
+   const jm::String item = string;
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
 {
+   // The string could be an element of this list.
+   const jm::String item = string;
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == item)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From 07e5c9151c2411759c0e87914a25aafdc4e47fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 082/107] fix: copies of null byte arrays were not null and had
 no terminator

---
 src/core/ByteArray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..e4b0638 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -91,6 +91,9 @@ ByteArray::ByteArray(const ByteArray& other) : Object()
 {
    mArrSize = other.mArrSize;
    mRawSize = other.mRawSize;
+   mData = nullptr;
+   if(other.mData == nullptr)return;
+
    mData = new uint8[mRawSize];
    for(int64 index = 0; index < mRawSize; index++)
    {
@@ -260,6 +263,9 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
 
       mArrSize = another.mArrSize;
       mRawSize = another.mRawSize;
+      mData = nullptr;
+      if(another.mData == nullptr)return *this;
+
       mData = new uint8[mRawSize];
       for(int64 a = 0; a < mRawSize; a++)
       {
-- 
2.43.0


From 924933ee7b782392f7f0606b29cbd2a65425bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 083/107] fix: ByteArray::replace() ignored the target offset
 and read beyond the source

---
 src/core/ByteArray.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index e4b0638..d12b7b6 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -200,11 +200,10 @@ void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffe
                         int64 length)
 {
    int64 range = std::min(length, mArrSize - tgtOffset);
+   range = std::min(range, buffer.mArrSize - srcOffset);
+   if(range <= 0)return;
 
-   for(int64 a = 0; a < range; a++)
-   {
-      mData[a] = buffer.mData[srcOffset + a];
-   }
+   memmove(mData + tgtOffset, buffer.mData + srcOffset, range);
 }
 
 void ByteArray::replace(uint8 oldValue, uint8 newValue)
-- 
2.43.0


From ef9f26361e6574d2b6fff96f63023dc8e3b1960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 084/107] fix: ByteArray::resize() showed excluded bytes again
 and deleted the array as a single byte

---
 src/core/ByteArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index d12b7b6..e49726c 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -219,6 +219,7 @@ void ByteArray::resize(int64 newSize)
 {
    if(newSize <= mRawSize - 1)
    {
+      for(int64 index = mArrSize; index < newSize; index++)mData[index] = 0;
       mArrSize = newSize;
       mData[mArrSize] = 0;
    }
@@ -235,7 +236,7 @@ void ByteArray::resize(int64 newSize)
       }
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From f7fb3af94acc4e59c081c2b0d089b894d0da559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 085/107] fix: Integer::toHexString() of negative numbers was
 empty

---
 src/core/Integer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..24d19e8 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -106,13 +106,14 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   uint64 rest = static_cast<uint64>(number);
+   uint64 base = 16;
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = rest % base;
+      rest = rest / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From f1e130626770bca93c7b8b6cfbe3ef23c6bfb2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 086/107] fix: Integer::digits() was wrong for the smallest
 number

---
 src/core/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 24d19e8..de592d8 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,15 +40,16 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
+   uint64 rest = static_cast<uint64>(number);
    if(number < 0)
    {
-      number *= -1;
+      rest = 0 - rest;
       i++;
    }
 
-   while(number > 9)
+   while(rest > 9)
    {
-      number = number / 10;
+      rest = rest / 10;
       i++;
    }
    return i;
-- 
2.43.0


From 3d184a37e97b4c7cd801186b09a35632754dcd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 087/107] fix: Integer::toLatinAlphabetString() was wrong for
 multiples of 26

---
 src/core/Integer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index de592d8..70c9bd4 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -151,12 +151,12 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      number--;
+      int16 rest = (int16)(number % 26);
 
       output.append('A' + rest);
 
-      number = div;
+      number = number / 26;
    }
 
    //Zahlen umkehren
-- 
2.43.0


From f784d9c92dd70f0919c1bf01462a42ea5dc5d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 088/107] fix: ByteArray::resize() did not terminate the
 enlarged array

---
 src/core/ByteArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index e49726c..b877e09 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -230,7 +230,7 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = mData[index];
       }
-      for(int64 index = mArrSize; index < newSize; index++)
+      for(int64 index = mArrSize; index <= newSize; index++)
       {
          tmp[index] = 0;
       }
-- 
2.43.0


From d7cbba78b1b6c37f74ea54081e11f24c7549f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 089/107] fix: Base64::decode() added a zero byte to padded
 data and read beyond incomplete groups

---
 src/core/Base64.cpp | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..7fe9ffc 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -129,43 +129,27 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
 
-   for(int32 i = 0; i < len; i = i + 4)
+   for(int32 i = 0; i + 1 < len; i = i + 4)
    {
+      // Characters behind the end count as fill characters. The first character that does not
+      // belong to the alphabet ends the data; it stands for no byte.
       c1 = gBase64rcvt[data[i]];
       c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c3 = i + 2 < len ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = i + 3 < len ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      if(c1 >= 64 || c2 >= 64)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
 
-
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 64)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 64)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
    length = index;
    return ret;
-- 
2.43.0


From 868673ddf899343593f941651a9010f30237398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 090/107] fix: Charset with alternative names sized the names
 by an uninitialised count

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 790a0e8..a99f39b 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,7 +112,7 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
+   mAlternatives = new String[altCount];
    mAltCount = altCount;
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
-- 
2.43.0


From 5a76e35eae3e6aab7219276c52e5e8bceb47d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 091/107] fix: Preferences::load() took files that cannot be
 examined for missing or empty ones

---
 src/core/Preferences.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 2df944f..6560b92 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -110,13 +110,21 @@ Preferences::~Preferences()
 
 void Preferences::load(File file)
 {
-   if(!file.exists())return;
+   if(!file.exists())
+   {
+      // Not every error means that there is no file
+      if(errno != ENOENT && errno != ENOTDIR)throw Exception(Tr("Cannot open property file: %1").arg(file.absolutePath()));
+      return;
+   }
 
    int64 l = file.size();
    ByteArray buffer = ByteArray(l, 0);
    Status status = file.open(FileMode::kRead);
    if(status != Status::eOK)throw Exception(Tr("Cannot open property file: %1").arg(file.absolutePath()));
    int64 check = file.Stream::readFully(buffer);
+   // The size is 0, too, if it cannot be determined
+   uint8 byte;
+   if(l == 0 && file.read(&byte, 1) > 0)check++;
    file.close();
    String data = String(buffer);
 
-- 
2.43.0


From 1de428d4e46a183790b57f4b174f81fa5f7703f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 092/107] fix: String lost memory if bytes are refused by their
 charset

---
 src/core/String.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 8e9723b..e2b637b 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -61,30 +61,26 @@ String::String(const String& another) noexcept: Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 1];
-   memcpy(cstring, buffer, size);
-   cstring[size] = 0;
+   // Not a plain array, because the decoder may throw an exception
+   ByteArray cstring = ByteArray(size + 1, 0);
+   if(size > 0)memcpy(cstring.data(), buffer, size);
 
    // Intentionally not used Charset::GetDefault, since this leads to problems with global strings.
    // (Initialization sequence not predictable)
    UTF8Decoder dec = UTF8Decoder();
-   CharArray array = dec.decode(cstring);
+   CharArray array = dec.decode(cstring.constData());
    copy(array);
-
-   delete[] cstring;
 }
 
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 3];
-   if(size > 0)memcpy(cstring, buffer, size);
-   cstring[size] = 0;
-   cstring[size + 1] = 0; //For UTF16 required
-   cstring[size + 2] = 0; //For UTF16 with an odd number of bytes required
-   CharArray array = charset->decode(cstring);
+   // Not a plain array, because the decoder may throw an exception.
+   // Zeros at the end: for UTF16 required, also with an odd number of bytes
+   ByteArray cstring = ByteArray(size + 3, 0);
+   if(size > 0)memcpy(cstring.data(), buffer, size);
+   CharArray array = charset->decode(cstring.constData());
    copy(array);
-   delete[] cstring;
 }
 
 String::String(const char* cstring): Object(), Comparable<String>(),
-- 
2.43.0


From 474bc3d46faafdf88b49bb248b8ab6f9f07f8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 093/107] fix: System::init() took preferences that cannot be
 examined for missing ones

---
 src/core/System.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index fbe03b3..9ceb37c 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -463,7 +463,7 @@ void jm::System::init(const jm::String& bundleId)
    jm::File propDir = jm::PropertyDir();
    gPreferences = new jm::Preferences();
    gPrefFile  = new jm::File(propDir, bundleId + ".properties");
-   if(gPrefFile->exists())gPreferences->load(*gPrefFile);
+   gPreferences->load(*gPrefFile); // does nothing, if there is no file
 }
 
 void jm::System::quit()
-- 
2.43.0


From b79c72b0d1b9eea8c5f38c743021ab532177db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 094/107] fix: copies of objects took over the reference count
 of the original

The implicit copy constructor and assignment of Object copied the reference
counter and the flag: a copy was never destroyed, or an object was destroyed
while references to it were held.
---
 include/core/Object.h | 12 ++++++++++++
 src/core/Object.cpp   | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..77b00d7 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,11 +54,23 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. A copy has its own references: its reference counter is 1.
+          \param other The object to copy.
+          */
+         Object(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
          virtual ~Object() noexcept;
 
+         /*!
+          \brief Assignment operator. The references to this object remain as they are.
+          \param other The object to assign.
+          */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Decreases the reference counter and releases the object immediately when the
           reference counter becomes 0.
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index 05f9364..fdde796 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,11 +41,24 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept:
+   mRefCount(1),
+   mPool(System::autoreleasePool())
+{
+   // The reference counter belongs to the other object and is not copied.
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
 }
 
+Object& Object::operator=(const Object&) noexcept
+{
+   // The reference counter belongs to the object and is not changed.
+   return *this;
+}
+
 void Object::release() noexcept
 {
    if(mPool == nullptr)return;
-- 
2.43.0


From 354f767833612aca6bdc5ddac4f4300c83d97131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 095/107] fix: throwing an Exception crashed if the names of
 the stack frames are not available

backtrace_symbols() returns NULL if there is not enough memory.
---
 src/core/Exception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Exception.cpp b/src/core/Exception.cpp
index bbab156..645ff02 100644
--- a/src/core/Exception.cpp
+++ b/src/core/Exception.cpp
@@ -34,6 +34,9 @@ Exception::Exception(const String& message): Object()
    char** symbols = nullptr;
    symbols = backtrace_symbols(taddrlist, addrlen);
 
+   // The names are not available if there is not enough memory for them.
+   if(symbols == nullptr)addrlen = 0;
+
    for(uint32 a = 0; a < addrlen; a++)
    {
       mSymbolList.append(String(symbols[a]));
-- 
2.43.0


From c3aa0fb85d37a4a20fbf364cda7176d82c573598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 096/107] fix: Thread::setName() crashed if the thread is not
 running

pthread_setname_np() must not be called without a thread. A name that is set
before the start, or between two starts, is given to the thread on start.
---
 include/core/Thread.h | 10 ++++++++++
 src/core/Thread.cpp   | 11 ++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index cd195c9..27864bf 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -40,6 +40,8 @@
 
 #include "Types.h"
 #include "Object.h"
+#include "Mutex.h"
+#include "String.h"
 
 #if defined __APPLE__ || defined __linux__
 extern "C" void* StartThread(void* arg);
@@ -91,6 +93,14 @@ namespace jm
           more, otherwise nobody would wake it up.
           */
          bool interrupted;
+
+         /*!
+          \brief The name of the thread. It is given to each native thread that is started.
+          */
+         String mName;
+
+         //! Protects the name. The thread may hold its own lock when it is named.
+         Mutex mNameMutex;
          #endif
 
          /*!
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 86d4c4d..574917b 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -112,6 +112,11 @@ void Thread::start()
       pthread_mutex_unlock(&criticalSection);
       throw Exception("Error on starting Thread");
    }
+   #if defined __linux__
+   mNameMutex.lock();
+   if(mName.size() > 0)pthread_setname_np(thread, mName.toCString().constData());
+   mNameMutex.unlock();
+   #endif
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
@@ -230,7 +235,11 @@ void Thread::setName(const jm::String& name)
    pthread_setname_np(name.toCString().constData());
    #elif defined __linux__
    ByteArray cstr = name.toCString();
-   pthread_setname_np(thread, cstr.constData());
+   mNameMutex.lock();
+   mName = name;
+   // Without a running thread the name is given on start
+   if(thread != 0)pthread_setname_np(thread, cstr.constData());
+   mNameMutex.unlock();
    #elif defined _WIN32
    uint16* cstr = name.toWString();
    SetThreadDescription(mHandle, (PCWSTR)cstr);
-- 
2.43.0


From 95b210451191e4232bbf8ce7b9f2c96ea31bd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 097/107] fix: relative paths were taken for absolute ones

---
 include/core/File.h |  2 +-
 src/core/File.cpp   | 16 ++++++++++++----
 src/core/System.cpp |  6 +++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/core/File.h b/include/core/File.h
index 896a08d..e179a40 100644
--- a/include/core/File.h
+++ b/include/core/File.h
@@ -172,7 +172,7 @@ namespace jm
           \brief Returns the absolute path of the file from the root of the file system.
           \return The absolute path of the file.
           */
-         const String& absolutePath() const;
+         String absolutePath() const;
 
          /*!
           \brief Returns the full path of this file. The path can be relative or absolute.
diff --git a/src/core/File.cpp b/src/core/File.cpp
index a1fdf7a..1cdadb1 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -58,7 +58,7 @@ File::File(String parent, String child): Stream(), Comparable<File>()
 File::File(const File& parent, String child): Stream(), Comparable<File>()
 {
    if(child.size() < 1)throw Exception(Tr("Child is empty."));
-   mPathname = resolve(parent.absolutePath(), normalize(child));
+   mPathname = resolve(parent.mPathname, normalize(child));
    setCString();
    mHandle = nullptr;
 }
@@ -547,9 +547,14 @@ int64 File::size() const
 }
 
 
-const String& File::absolutePath() const
+String File::absolutePath() const
 {
-   return mPathname;
+   if(isAbsolute() || mPathname.isEmpty())return mPathname;
+
+   // A relative path starts at the current directory
+   const File current = currentDir();
+   if(current.isNull())return mPathname;
+   return File(current, mPathname).mPathname;
 }
 
 String File::path() const
@@ -579,7 +584,10 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
-   return true;
+   #if defined _WIN32//Windows
+   if(mPathname.size() > 1 && mPathname.charAt(1) == ':')return true;
+   #endif
+   return mPathname.size() > 0 && mPathname.charAt(0) == DIR_SEP;
 }
 
 
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 9ceb37c..79d8fcc 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -356,7 +356,7 @@ void* jm::System::loadDynamicLibrary(jm::File* file)
 {
    #ifdef __APPLE__ //macOS and iOS
 
-   ByteArray cstr = file->absolutePath().toCString();
+   ByteArray cstr = file->path().toCString();
    void* libptr = dlopen(cstr.constData(), RTLD_LAZY);   //RTLD_LAZY is default
    if(libptr == nullptr) std::cout << "Loading dynamic library " << cstr.constData() << " failed!" <<
                                       std::endl << dlerror() << std::endl;
@@ -364,7 +364,7 @@ void* jm::System::loadDynamicLibrary(jm::File* file)
 
    #elif defined __linux__//Linux
 
-   ByteArray cstr = file->absolutePath().toCString();
+   ByteArray cstr = file->path().toCString();
    void* libptr = dlopen(cstr.constData(), RTLD_LAZY);   //RTLD_LAZY is default
    if(libptr == nullptr) std::cout << "Loading dynamic library " << cstr.constData() << " failed!" <<
                                       std::endl << dlerror() << std::endl;
@@ -372,7 +372,7 @@ void* jm::System::loadDynamicLibrary(jm::File* file)
 
    #elif defined _WIN32// Windows
 
-   uint16* wstr = file->absolutePath().toWString();
+   uint16* wstr = file->path().toWString();
    HMODULE libptr = LoadLibrary((LPCWSTR) wstr);
    delete[] wstr;
    if(libptr == nullptr) std::cout << "Loading dynamic library " << file->absolutePath() << " failed!"
-- 
2.43.0


From 607133a46687be9f65564ecd9cd36315b209671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 098/107] fix: File::parent() of a file in the root directory
 was empty

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 1cdadb1..6aea5ec 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -566,6 +566,8 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   // The root directory
+   if(idx == 0 && mPathname.size() > 1 && isAbsolute())idx = 1;
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From 47b1dd887f38cd0c443b135baa03e0e993b5deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 099/107] fix: the temporary file of an archive with a relative
 path was created in the root directory

---
 src/core/ZipOutputFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 4df7cae..fb46f1f 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -260,9 +260,11 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    entry->mDataOffset = currentPosition(mFile);
 
    // Use an own file. Another archive in the same directory may be in progress.
+   const String archive = mFile->path();
+   const String directory = archive.substring(0, archive.lastIndexOf(DIR_SEP) + 1);
    for(int64 a = 0; mTemp == nullptr; a++)
    {
-      mTemp = new jm::File(mFile->parent(), "jmzipdata" + String::valueOf(a) + ".tmp");
+      mTemp = new jm::File(directory + "jmzipdata" + String::valueOf(a) + ".tmp");
       if(mTemp->createNewFile())break;
       bool retry = mTemp->exists();
       delete mTemp;
-- 
2.43.0


From f4a8a3209e61e701ab489ef971def0d08fcd80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 100/107] fix: a rollback does not register the changes that
 objects make while they are regenerated

---
 src/core/UndoManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 0b86a85..86b9851 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -402,13 +402,15 @@ void UndoManager::rollback()
    {
       UndoStep* step = mTransaction;
 
-      // Undo all changes
+      // Undo all changes. Objects that react to that must not register changes.
+      mUndoing = true;
       UndoChange* change = step->recent;
       while(change != nullptr)
       {
          change->swap();
          change = change->mPrev;
       }
+      mUndoing = false;
 
       delete mTransaction;
       mTransaction = nullptr;
-- 
2.43.0


From 48e5d31aae012b88d33fc43d7f84782719f79ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 101/107] fix: random(lower, upper) crashed or left the range
 if the range had more values than an int32

---
 src/core/Math.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..028a1f5 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -168,9 +168,18 @@ double jm::random()
 
 int32 jm::random(int32 lower, int32 upper)
 {
-   int32 z = rand() % (upper + 1 - lower);
+   // The range may have more values than an int32, and more than one call of rand() can choose from
+   uint64 range = static_cast<uint64>(static_cast<int64>(upper) - lower) + 1;
+   uint64 values = static_cast<uint64>(RAND_MAX) + 1;
+   uint64 z = rand();
 
-   return z + lower;
+   while(values < range)
+   {
+      z = z * (static_cast<uint64>(RAND_MAX) + 1) + rand();
+      values *= static_cast<uint64>(RAND_MAX) + 1;
+   }
+
+   return static_cast<int32>(static_cast<int64>(z % range) + lower);
 }
 
 bool jm::probability(double percent)
-- 
2.43.0


From 414350aa48712fcacbcaed50f87a29763a42e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 102/107] fix: probability(0) was true once in 10001 calls

---
 src/core/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 028a1f5..fe04b49 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -184,9 +184,9 @@ int32 jm::random(int32 lower, int32 upper)
 
 bool jm::probability(double percent)
 {
-   int32 value = random(0, 10000);
+   int32 value = random(0, 9999);
    int32 threshold = (int32)(percent * 10000);
-   return value <= threshold;
+   return value < threshold;
 }
 
 float jm::interpolate(float begin, float end, float percent)
-- 
2.43.0


From db6140a3fcc29389f3e57e4c3a88251a41f1129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 103/107] fix: testEquals() took a negative number for equal to
 an unsigned one

---
 src/core/Test.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Test.cpp b/src/core/Test.cpp
index 653c7b1..5d83bcc 100644
--- a/src/core/Test.cpp
+++ b/src/core/Test.cpp
@@ -139,6 +139,15 @@ void Test::testEquals(void* actual, void* expected, const String& failmessage)
 
 void Test::testEquals(uint64 actual, int32 expected, const String& failmessage)
 {
+   // A negative number is equal to none of the unsigned ones
+   if(expected < 0)
+   {
+      String msg;
+      msg << failmessage << " '" << actual << "' '" << expected << "'";
+      testFail(msg);
+      return;
+   }
+
    testEquals(actual, (uint64)expected, failmessage);
 }
 
-- 
2.43.0


From 201f5df34e31b15ee994a442ac58e4eab0e434a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:58 +0000
Subject: [PATCH 104/107] fix: Preferences::setValue() stores string literals
 as "true"

---
 include/core/Preferences.h | 7 +++++++
 src/core/Preferences.cpp   | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 712cb67..e25f1b0 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -85,6 +85,13 @@ namespace jm
           */
          void setValue(const String& key, const String& value);
 
+         /*!
+          \brief Sets the property. Without this method string literals would be taken for bool values.
+          \param key The property key.
+          \param value The value.
+          */
+         void setValue(const String& key, const char* value);
+
          /*!
           \brief Sets the property. Essentially calls the Put() method of Hashtable, but ensures that strings are used.
           \param key The property key.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 6560b92..69a4e4d 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -208,6 +208,11 @@ void Preferences::setValue(const String& key, const String& value)
    if(old != nullptr)delete old;
 }
 
+void Preferences::setValue(const String& key, const char* value)
+{
+   setValue(key, String(value));
+}
+
 void Preferences::setValue(const String& key, int64 value)
 {
    setValue(key, String::valueOf(value));
-- 
2.43.0


From ac8dfbad3fd3dddef3096aba72c415101d16dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:07 +0000
Subject: [PATCH 105/107] fix: ZipOutputFile::writeAndClose() stored an empty
 entry for a file that could not be read

---
 src/core/ZipOutputFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index fb46f1f..710044f 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -194,8 +194,9 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    if(mTemp == nullptr)throw Exception(Tr("ZIP-File has no open entry."));
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   errno = 0;
    entry->mUncompressedSize = static_cast<uint32>(file->size());
-   if(file->open(FileMode::kRead) != Status::eOK)throw Exception(Tr("Error while reading a file for the ZIP-File!"));
+   if((entry->mUncompressedSize == 0 && errno != 0) || file->open(FileMode::kRead) != Status::eOK)throw Exception(Tr("Error while reading a file for the ZIP-File!"));
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
    int64 count = file->Stream::readFully(buffer);
    // The size is 0 if it cannot be determined
-- 
2.43.0


From 315947a8854f13d204fc05ab7748d8f1641674d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:07 +0000
Subject: [PATCH 106/107] fix: SAXParser took a file for empty that could not
 be read

---
 src/core/SAXParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 6ff9529..10609d8 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -47,7 +47,9 @@ void SAXParser::parse(File& file)
 {
    if(!file.exists())return;
    if(!file.canRead())return;
+   errno = 0;
    int64 length = file.size();
+   if(length == 0 && errno != 0)throw Exception(Tr("XML file cannot be read."));
    ByteArray buffer = ByteArray(length, 0);
    if(file.open(jm::FileMode::kRead) != Status::eOK)throw Exception(Tr("XML file cannot be opened."));
    int64 count = file.Stream::readFully(buffer);
-- 
2.43.0


From dd237ea5e6b02e193c92b16f36ae30ff7470913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:07 +0000
Subject: [PATCH 107/107] fix: Preferences::load() took a file for empty that
 could not be read

---
 src/core/Preferences.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 69a4e4d..35db43e 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -117,7 +117,9 @@ void Preferences::load(File file)
       return;
    }
 
+   errno = 0;
    int64 l = file.size();
+   if(l == 0 && errno != 0)throw Exception("Property file incomplete loaded.");
    ByteArray buffer = ByteArray(l, 0);
    Status status = file.open(FileMode::kRead);
    if(status != Status::eOK)throw Exception(Tr("Cannot open property file: %1").arg(file.absolutePath()));
-- 
2.43.0

