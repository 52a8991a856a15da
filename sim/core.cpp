// Scheduler, clock, checked heap, instrumentation callbacks and pthread seam.
#include "internal.h"
#include <atomic>
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <new>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unordered_map>

namespace sim
{
   Shared* sh = nullptr;
   bool g_on = false;
   int g_nth = 0;
   std::function<void()> onDeadlock;

   //==================================================================== real symbols
   void* realSym(const char* name)
   {
      void* p = dlsym(RTLD_NEXT, name);
      if(!p) { const char m[] = "simcheck: missing real symbol\n"; (void)!::syscall(SYS_write, 2, m, sizeof m - 1); ::syscall(SYS_write, 2, name, strlen(name)); _exit(3); }
      return p;
   }

   //==================================================================== hashing, choices
   static inline u64 mix64(u64 x)
   {
      x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x;
   }
   static inline u64 rnd(Stream s) { sh->rng[s] += 0x9e3779b97f4a7c15ULL; return mix64(sh->rng[s]); }
   void mixHash(u64 v) { sh->hash = mix64(sh->hash ^ (v + 0x9e3779b97f4a7c15ULL)) * 3 + 1; }
   void mixState(u64 h) { sh->stateHash = mix64(sh->stateHash ^ (h + 0x1234567)) * 5 + 1; }
   bool replaying() { return sh->replay != 0; }

   u32 drawRaw(Stream s, u32 generated)
   {
      u32 v;
      if(sh->replay) v = sh->pos[s] < sh->repLen[s] ? sh->rep[s][sh->pos[s]] : 0;
      else v = generated;
      sh->pos[s]++;
      if(sh->recLen[s] < CAPS) sh->rec[s][sh->recLen[s]++] = v; else sh->overflow = 1;
      mixHash(v * 4 + s);
      return v;
   }
   u32 draw(Stream s, u32 n)
   {
      if(n <= 1) return 0;
      u32 g = sh->replay ? 0 : (u32)((rnd(s) >> 11) % n);
      u32 v = drawRaw(s, g);
      if(v >= n) { v = n - 1; if(sh->recLen[s] > 0 && sh->recLen[s] <= CAPS) sh->rec[s][sh->recLen[s] - 1] = v; }
      return v;
   }
   static bool prob(Stream s, u32 num, u32 den)
   {
      u32 g = sh->replay ? 0 : (((rnd(s) >> 13) % den) < num ? 1 : 0);
      return drawRaw(s, g) != 0;
   }
   bool Wp(u32 num, u32 den) { return prob(SW, num, den); }
   bool Fp(u32 num, u32 den) { return prob(SF, num, den); }
   u32 Wlen(u32 max)
   {
      u32 g = 0;
      if(!sh->replay)
      {
         u64 r = rnd(SW);
         u32 m = max;
         switch(r & 7) { case 0: m = 0; break; case 1: case 2: m = m < 3 ? m : 3; break; case 3: case 4: m = m < 12 ? m : 12; break; default: break; }
         g = (u32)((r >> 8) % ((u64)m + 1));
      }
      u32 v = drawRaw(SW, g);
      return v > max ? max : v;
   }
   u64 W64()
   {
      u32 k = W(8);
      switch(k)
      {
         case 0: return W(16);
         case 1: return (u64)(i64) - (i64)W(16);
         case 2: return 1ull << W(64);
         case 3: return (1ull << W(64)) - 1;
         case 4: return W(0x10000);
         default: { u64 a = drawRaw(SW, sh->replay ? 0 : (u32)rnd(SW)); u64 b = drawRaw(SW, sh->replay ? 0 : (u32)rnd(SW)); return a << 32 | b; }
      }
   }
   u64 runIndex() { return sh->runIndex; }
   bool thorough() { return sh->thorough; }

   //==================================================================== log, counters, verdict
   static void count(Counter* c, const char* name, u64 add)
   {
      for(int i = 0; i < NPROBE; i++)
      {
         if(c[i].name[0] == 0) { strncpy(c[i].name, name, sizeof c[i].name - 1); c[i].n = add; return; }
         if(strncmp(c[i].name, name, sizeof c[i].name - 1) == 0) { c[i].n += add; return; }
      }
   }
   void probe(const char* name, u64 add) { count(sh->probes, name, add); }
   void fault(const char* name) { count(sh->faultc, name, 1); sh->injected++; sh->nontriv = 1; }
   void nontrivial() { sh->nontriv = 1; }
   u64 injected() { return sh->injected; }

   static void logLine(const char* s, size_t n)
   {
      u64 h = 1469598103934665603ULL;
      for(size_t i = 0; i < n; i++) h = (h ^ (u8)s[i]) * 1099511628211ULL;
      mixHash(h);
      mixState(h);
      if(sh->verbose && sh->logPos + n + 1 < LOGCAP)
      {
         memcpy(sh->logBuf + sh->logPos, s, n);
         sh->logPos += n;
         sh->logBuf[sh->logPos++] = '\n';
      }
   }
   void log(const char* fmt, ...)
   {
      char buf[1500];
      va_list ap; va_start(ap, fmt);
      int n = vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      if(n >= (int)sizeof buf) n = sizeof buf - 1;
      logLine(buf, n);
   }

   static void bail(int status)
   {
      sh->status = status;
      sh->simNs += 0;
      ::syscall(SYS_exit_group, 0);
      __builtin_unreachable();
   }
   void endRun(int status, const char* cls, const char* msg)
   {
      g_on = false;
      if(sh->status == ST_RUNNING)
      {
         strncpy(sh->cls, cls, sizeof sh->cls - 1);
         strncpy(sh->msg, msg, sizeof sh->msg - 1);
         for(const char* p = cls; *p; p++) mixHash(*p);
         for(const char* p = msg; *p; p++) mixHash(*p);
         sh->bootStatus = -1;
      }
      bail(status);
      __builtin_unreachable();
   }
   void fail(const char* cls, const char* fmt, ...)
   {
      g_on = false;
      char buf[5000];
      va_list ap; va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      endRun(ST_FAIL, cls, buf);
   }
   void skip(const char* why) { g_on = false; endRun(ST_SKIP, why, why); }

   //==================================================================== checked heap
   static const u64 ABASE = 0x200000000000ULL, ASIZE = 8ULL << 30, AUSE = 3ULL << 29, SBASE = 0x300000000000ULL;
   static u64 aTop = 0;
   static bool memOn = true;
   static u64 nLive = 0, bLive = 0, allocCap = 1ULL << 30;
   struct Hdr { u64 size; u32 magic; u32 stamp; };
   static inline bool inArena(u64 a) { return a - ABASE < ASIZE; }
   static inline u8* shadow(u64 a) { return (u8*)(SBASE + ((a - ABASE) >> 3)); }
   void memCheck(bool on) { memOn = on; }
   u64 liveBlocks() { return nLive; }
   u64 liveBytes() { return bLive; }
   void setAllocCap(u64 b) { allocCap = b; }

   static u32 allocSite();
   u64 heapMark() { return aTop; }
   static void* arenaAlloc(u64 n)
   {
      // Real programs run out of memory here; no run of a correct library comes near these limits.
      if(n > allocCap) { g_on = false; fail("memory-runaway", "an allocation of %llu bytes; %s", (unsigned long long)n, symbolizeStack().c_str()); }
      u64 user = (ABASE + aTop + sizeof(Hdr) + 15) & ~15ULL;
      u64 rounded = (n + 7) & ~7ULL;
      u64 end = ((user + rounded + 24) & ~15ULL) + 16;
      if(end - ABASE > AUSE) { g_on = false; fail("memory-runaway", "more than %llu bytes allocated, %llu of them live; %s", (unsigned long long)AUSE, (unsigned long long)bLive, symbolizeStack().c_str()); }
      if(end - ABASE > sh->heapTop) sh->heapTop = end - ABASE;
      aTop = end - ABASE;
      Hdr* h = (Hdr*)(user - sizeof(Hdr));
      h->size = n; h->magic = 0xA110CA7E; h->stamp = allocSite();
      u8* s = shadow(user);
      memset(s, 8, n >> 3);
      if(n & 7) s[n >> 3] = (u8)(n & 7);
      if(n <= (1 << 20)) memset((void*)user, (int)sh->fill, n);
      nLive++; bLive += n;
      return (void*)user;
   }
   static const char* access_kind(u64 a)
   {
      u8 v = *shadow(a);
      return v == 0xFD ? "use-after-free" : "out-of-bounds";
   }
   static void arenaFree(void* p)
   {
      Hdr* h = (Hdr*)((u64)p - sizeof(Hdr));
      if(h->magic == 0xF4EEF4EE) { if(g_on && memOn) fail("memory-error", "double free of a heap block of %llu bytes; %s", (unsigned long long)h->size, symbolizeStack().c_str()); return; }
      if(h->magic != 0xA110CA7E) { if(g_on && memOn) fail("memory-error", "free of a pointer that is not a heap block; %s", symbolizeStack().c_str()); return; }
      h->magic = 0xF4EEF4EE;
      u64 n = h->size;
      memset(shadow((u64)p), 0xFD, (n + 7) >> 3);
      // A freed block reads as junk for code that is not instrumented.
      if(n <= (1 << 20)) memset(p, 0xDD, n);
      nLive--; bLive -= n;
   }
   bool memAlive(const void* p) { return inArena((u64)p) && *shadow((u64)p) != 0 && *shadow((u64)p) != 0xFD; }

   static void badAccess(u64 a, u64 n, bool w) __attribute__((noinline));
   static void badAccess(u64 a, u64 n, bool w)
   {
      if(!g_on || !memOn) return;
      fail("memory-error", "%s %s of %llu bytes in the heap; %s", access_kind(a), w ? "write" : "read", (unsigned long long)n, symbolizeStack().c_str());
   }
   static inline void checkRange(u64 a, u64 n, bool w)
   {
      if(!inArena(a) || n == 0) return;
      u64 end = a + n;
      for(u64 g = a & ~7ULL; g < end; g += 8)
      {
         u8 v = *shadow(g);
         if(__builtin_expect(v == 8, 1)) continue;
         u64 last = (end < g + 8 ? end : g + 8) - 1;   // last byte touched in this granule
         if(v == 0 || v == 0xFD || (last & 7) >= v) { badAccess(g < a ? a : g, n, w); return; }
      }
   }

   //==================================================================== threads
   enum { RUN = 0, BLOCK = 1, DONE = 2 };
   enum { WK_NONE, WK_MUTEX, WK_COND, WK_JOIN, WK_SLEEP, WK_GUARD, WK_PRED, WK_RW };
   struct Th
   {
      int id = 0;
      std::string name;
      char sysName[16] = "";
      pthread_t h = 0;
      std::atomic<int> go{0};
      int st = RUN;
      int wk = WK_NONE;
      const void* wobj = nullptr;
      bool hasDl = false, dlReal = false, timedOut = false, signaled = false;
      i64 dl = 0;
      u64 lastRun = 0;
      const std::function<bool()>* pred = nullptr;
      u64 slo = 0, shi = 0;
      int np = 0;
      u32 prio = 0;
      void* (*start)(void*) = nullptr;
      void* arg = nullptr;
      void* ret = nullptr;
      bool detached = false, joined = false, sysThread = false;
      std::function<void()> fn;
      void* stk[300]; int depth = 0;
   };
   static std::vector<Th*>* ths;
   static Th* cur = nullptr;
   static thread_local Th* self = nullptr;
   // steps to the next scheduling decision; after FAIR steps without one another runnable thread gets its turn,
   // so that a thread that polls cannot keep the others from running for ever
   static const i64 FAIR = 30000;
   static i64 budget = INT64_MAX, gapLeft = INT64_MAX;
   static int schedMode = 0;
   static u32 gapMean = 100;
   static u64 stepCap = 300000000ULL;
   static u32 timeFaultPm = 0;
   static u32 createFailPm = 0;
   static int createFails = 0;
   static int pctChanges = 0;

   int threadCount() { return (int)ths->size(); }
   int curThread() { return cur->id; }
   const char* threadSysName(int id) { return (*ths)[id]->sysName; }
   const char* threadName(int id) { return (*ths)[id]->name.c_str(); }
   bool threadBlocked(int id) { return (*ths)[id]->st == BLOCK; }
   bool threadSleeping(int id) { return (*ths)[id]->st == BLOCK && ((*ths)[id]->wk == WK_COND); }
   bool threadDone(int id) { return (*ths)[id]->st == DONE; }
   int createFailures() { return createFails; }
   void failThreadCreate(u32 pm) { createFailPm = pm; }
   int threadByHandle(unsigned long h) { for(Th* t : *ths) if(t->h == (pthread_t)h) return t->id; return -1; }
   u64 steps() { return sh->steps; }
   u64 seq() { return ++sh->seq; }
   void setStepCap(u64 s) { stepCap = s; }
   static u64 clockGrain = 1;
   u64 nowMono() { u64 n = sh->mono + sh->steps * 5; return n - n % clockGrain; }
   void setClockGrain(u64 ns) { clockGrain = ns; }
   i64 nowReal() { return (i64)nowMono() + sh->realOff; }
   void setReal(i64 ns) { sh->realOff = ns - (i64)nowMono(); }
   void jumpReal(i64 d) { sh->realOff += d; log("clock jump %lld ms", (long long)(d / 1000000)); }
   void advance(u64 ns) { sh->mono += ns; }
   void enableTimeFaults(u32 pm) { timeFaultPm = pm; }

   static void futexWait(std::atomic<int>* a) { while(a->load(std::memory_order_acquire) == 0) ::syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0, std::memory_order_relaxed); }
   static void futexWake(std::atomic<int>* a) { a->store(1, std::memory_order_release); ::syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

   static u32 allocSite() { return cur && cur->depth > 0 ? (u32)((u64)cur->stk[std::min(cur->depth, 300) - 1] - (u64)&arenaAlloc) : 0; }
   // the blocks allocated since mark that are still alive
   std::string describeLive(u64 mark)
   {
      std::string s; int shown = 0;
      u64 end = aTop;
      for(u64 t = mark; t < end && shown < 6; )
      {
         u64 user = (ABASE + t + sizeof(Hdr) + 15) & ~15ULL;
         Hdr* h = (Hdr*)(user - sizeof(Hdr));
         if(h->magic == 0xA110CA7E)
         {
            Dl_info di; const char* n = nullptr; char* dm = nullptr; int st = 0;
            if(h->stamp && dladdr((void*)((u64)&arenaAlloc + (i64)(int)h->stamp), &di)) n = di.dli_sname;
            if(n) dm = abi::__cxa_demangle(n, nullptr, nullptr, &st);
            s += (shown++ ? ", " : "") + std::to_string(h->size) + " bytes from " + (dm ? dm : n ? n : "?");
            free(dm);
         }
         u64 rounded = (h->size + 7) & ~7ULL;
         t = (((user + rounded + 24) & ~15ULL) + 16) - ABASE;
      }
      return s;
   }
   std::string symbolizeStack()
   {
      std::string s = "in ";
      if(!cur) return s + "?";
      int shown = 0;
      const char* last = nullptr;
      for(int d = std::min(cur->depth, 300) - 1; d >= 0 && shown < 6; d--)
      {
         Dl_info di;
         // func_entry receives the caller's pc; the function itself is identified by the pc recorded below
         if(dladdr(cur->stk[d], &di) && di.dli_sname)
         {
            if(last == di.dli_sname) continue;
            last = di.dli_sname;
            int st = 0;
            char* dm = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
            std::string n = st == 0 && dm ? dm : di.dli_sname;
            size_t p = n.find('(');
            if(p != std::string::npos) n = n.substr(0, p);
            if(shown) s += " < ";
            s += n;
            shown++;
         }
      }
      return s;
   }

   static bool due(Th* t)
   {
      if(!t->hasDl) return false;
      return t->dlReal ? nowReal() >= t->dl : (i64)nowMono() >= t->dl;
   }
   static void fireTimers()
   {
      for(Th* t : *ths)
      {
         if(t->st != BLOCK) continue;
         if(t->hasDl && due(t)) { t->st = RUN; t->timedOut = true; t->hasDl = false; }
         else if(t->wk == WK_PRED) { NoPreempt np; if((*t->pred)()) t->st = RUN; }
      }
   }

   static void deadlock()
   {
      std::string s;
      for(Th* t : *ths)
      {
         if(t->st != BLOCK) continue;
         static const char* wn[] = {"?", "lock", "condition", "join", "timer", "guard", "predicate", "rwlock"};
         if(!s.empty()) s += "; ";
         s += "thread " + std::to_string(t->id) + " (" + t->name + ") waits for " + wn[t->wk];
      }
      if(onDeadlock) { auto f = onDeadlock; onDeadlock = nullptr; f(); }
      fail("deadlock", "no thread can run: %s", s.c_str());
   }

   static void drawGap()
   {
      u32 g = 0;
      if(!sh->replay)
      {
         if(schedMode == 0) g = 0;
         else if(schedMode == 1)
         {
            // geometric around the mean
            u64 r = rnd(SS);
            double u = ((r >> 11) + 1) * (1.0 / 9007199254740993.0);
            double x = -__builtin_log(u) * gapMean;
            g = (u32)(x < 1 ? 1 : (x > 4e9 ? 4e9 : x));
         }
         else
         {
            // PCT-like: few change points, uniformly placed
            if(pctChanges > 0) { pctChanges--; g = (u32)(1 + (rnd(SS) >> 17) % gapMean); }
            else g = 0;
         }
      }
      u32 v = drawRaw(SS, g);
      gapLeft = v == 0 ? INT64_MAX : (i64)v;
      budget = std::min(gapLeft, FAIR);
   }

   static void transfer(Th* n, bool wait)
   {
      Th* p = cur;
      if(n == p) return;
      cur = n;
      n->lastRun = sh->switches++;
      sh->schedHash = mix64(sh->schedHash ^ ((u64)p->id << 8 ^ n->id) ^ sh->steps << 16) + 7;
      mixHash(sh->schedHash);
      futexWake(&n->go);
      if(wait) futexWait(&p->go);
   }

   // Chooses the thread to run next and passes control to it.
   static void reschedule(bool preempt)
   {
      Th* p = cur;
      for(;;)
      {
         sh->mono += 1000;
         if(timeFaultPm && Fp(timeFaultPm, 1000))
         {
            u32 k = F(4);
            if(k <= 1) { static const u64 d[] = {1000000ull, 20000000ull, 300000000ull, 5000000000ull}; u64 a = d[F(4)]; sh->mono += a; fault("stall"); log("stall %llu ms", (unsigned long long)(a / 1000000)); }
            else { static const i64 d[] = {-3600000000000ll, -2000000000ll, 500000000ll, 86400000000000ll}; fault("clock_jump"); jumpReal(d[F(4)]); }
         }
         fireTimers();
         Th* cand[64]; int n = 0;
         if(p->st == RUN) cand[n++] = p;
         for(Th* t : *ths) if(t != p && t->st == RUN && n < 64) cand[n++] = t;
         if(n == 0)
         {
            Th* best = nullptr; i64 bt = 0;
            for(Th* t : *ths) if(t->st == BLOCK && t->hasDl)
            {
               i64 at = t->dlReal ? t->dl - sh->realOff : t->dl;   // in monotonic time
               if(!best || at < bt) { best = t; bt = at; }
            }
            if(!best) deadlock();
            i64 d = bt - (i64)nowMono();
            if(d > 0) sh->mono += d;
            continue;
         }
         u32 pick = 0;
         if(n > 1)
         {
            u32 g = 0;
            if(!sh->replay)
            {
               if(schedMode == 1) g = preempt && p->st == RUN ? 1 + (u32)(rnd(SS) >> 9) % (n - 1) : (u32)(rnd(SS) >> 9) % n;
               else if(schedMode == 2)
               {
                  if(preempt && p->st == RUN) p->prio = (u32)(rnd(SS) & 0xff);   // demote
                  for(int i = 1; i < n; i++) if(cand[i]->prio > cand[g]->prio) g = i;
               }
            }
            pick = drawRaw(SS, g);
            if(pick >= (u32)n) pick = n - 1;
         }
         if(preempt && p->st == RUN && cand[pick] != p) { sh->preempts++; sh->nontriv = 1; }
         if(cand[pick] != p) transfer(cand[pick], true);
         return;
      }
   }

   static void preemptNow()
   {
      if(gapLeft > FAIR)
      {
         if(gapLeft != INT64_MAX) gapLeft -= FAIR;
         budget = std::min(gapLeft, FAIR);
         fireTimers();
         Th* n = nullptr;
         for(Th* t : *ths) if(t != cur && t->st == RUN && (!n || t->lastRun < n->lastRun)) n = t;
         sh->mono += 1000;
         if(n) transfer(n, true);
         return;
      }
      drawGap();
      reschedule(true);
   }
   void schedPoint(u32 weight)
   {
      if(!g_on || self == nullptr || self->np || ths->size() < 2) return;
      sh->steps++;
      if((budget -= weight) <= 0) preemptNow();
   }
   void yield()
   {
      if(!g_on || ths->size() < 2) return;
      schedPoint(16);
   }
   static void block(int wk, const void* obj)
   {
      Th* t = cur;
      t->st = BLOCK; t->wk = wk; t->wobj = obj;
      reschedule(false);
      t->wk = WK_NONE; t->wobj = nullptr;
   }
   static void wakeObj(int wk, const void* obj)
   {
      for(Th* t : *ths) if(t->st == BLOCK && t->wk == wk && t->wobj == obj) t->st = RUN;
   }
   void waitUntil(const std::function<bool()>& c)
   {
      while(!c()) { cur->pred = &c; block(WK_PRED, nullptr); cur->pred = nullptr; }
   }

   NoPreempt::NoPreempt() { if(self) self->np++; }
   NoPreempt::~NoPreempt() { if(self) self->np--; }

   // scale: roughly the number of instrumented steps of the concurrent phase divided by 100
   void schedConfig(u32 scale)
   {
      if(scale == 0) scale = 1;
      schedMode = (int)drawRaw(SS, sh->replay ? 0 : (u32[]) {0, 1, 1, 1, 1, 2, 2, 2}[rnd(SS) & 7]);
      static const u32 means[] = {3, 6, 12, 25, 60, 150};
      u32 gi = drawRaw(SS, sh->replay ? 0 : (u32)((rnd(SS) >> 7) % 6)) % 6;
      gapMean = means[gi] * scale;
      if(schedMode == 2) { pctChanges = 1 + (int)gi; gapMean = scale * (60 + 40 * gi); }
      if(ths->size() >= 2) drawGap();
   }

   static void altStack()
   {
      stack_t ss; memset(&ss, 0, sizeof ss);
      ss.ss_size = 65536;
      ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      sigaltstack(&ss, nullptr);
   }
   static void stackBounds(Th* t)
   {
      pthread_attr_t a;
      void* lo = nullptr; size_t sz = 0;
      if(pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); }
      t->slo = (u64)lo; t->shi = (u64)lo + sz;
      if(t->id == 0) { t->slo = t->shi - (64ull << 20); }
   }

   struct Finisher
   {
      Th* t;
      ~Finisher()
      {
         if(!g_on) return;
         // the thread is over: hand control to somebody else and never come back
         t->st = DONE;
         g_nth--;
         wakeObj(WK_JOIN, t);
         self = nullptr;
         for(;;)
         {
            fireTimers();
            Th* cand[64]; int n = 0;
            for(Th* x : *ths) if(x->st == RUN && n < 64) cand[n++] = x;
            if(n == 0)
            {
               Th* best = nullptr; i64 bt = 0;
               for(Th* x : *ths) if(x->st == BLOCK && x->hasDl)
               {
                  i64 at = x->dlReal ? x->dl - sh->realOff : x->dl;
                  if(!best || at < bt) { best = x; bt = at; }
               }
               if(!best) deadlock();
               i64 d = bt - (i64)nowMono();
               sh->mono += d > 0 ? d : 1000;
               continue;
            }
            u32 g = 0;
            if(!sh->replay && n > 1)
            {
               if(schedMode == 1) g = (u32)(rnd(SS) >> 9) % n;
               else if(schedMode == 2) for(int i = 1; i < n; i++) if(cand[i]->prio > cand[g]->prio) g = i;
            }
            u32 pick = n > 1 ? drawRaw(SS, g) : 0;
            if(pick >= (u32)n) pick = n - 1;
            cur = t;
            transfer(cand[pick], false);
            return;
         }
      }
   };

   static void* trampoline(void* a)
   {
      Th* t = (Th*)a;
      self = t;
      altStack();
      stackBounds(t);
      futexWait(&t->go);
      Finisher f{t};
      if(t->start) t->ret = t->start(t->arg);
      else t->fn();
      return t->ret;
   }

   static Th* newThread(const char* name)
   {
      Th* t = new Th();
      t->id = (int)ths->size();
      t->name = name;
      t->prio = 256 + (sh->replay ? 0 : (u32)(rnd(SS) & 0xffff));
      return t;
   }
   static int launch(Th* t)
   {
      bool first = ths->size() == 1;
      ths->push_back(t);
      g_nth++;
      // While the real thread is being created only this one runs; the new one parks at once.
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
      int r = REAL(pthread_create)(&t->h, &at, trampoline, t);
      pthread_attr_destroy(&at);
      if(r) { g_on = false; endRun(ST_SKIP, "thread-resource", "real pthread_create failed"); }
      if(first) drawGap();
      return r;
   }
   void spawn(const char* name, std::function<void()> fn)
   {
      Th* t = newThread(name);
      t->fn = fn;
      launch(t);
   }
   static void simJoin(Th* t)
   {
      while(t->st != DONE) block(WK_JOIN, t);
      if(!t->joined) { t->joined = true; REAL(pthread_join)(t->h, nullptr); }
   }
   void joinAll()
   {
      for(size_t i = 1; i < ths->size(); i++) if((*ths)[i]->fn) simJoin((*ths)[i]);
   }

   //==================================================================== run life cycle
   static void onSignal(int s, siginfo_t*, void*)
   {
      g_on = false;
      const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGABRT";
      char c[64]; snprintf(c, sizeof c, "crash-%s", n);
      std::string st = symbolizeStack();
      endRun(ST_FAIL, c, ("the process died; " + st).c_str());
   }
   static void onTerminate()
   {
      g_on = false;
      const char* tn = "none";
      if(std::type_info* ti = abi::__cxa_current_exception_type()) tn = ti->name();
      endRun(ST_FAIL, "terminate", (std::string("std::terminate called, exception type ") + tn + "; " + symbolizeStack()).c_str());
   }

   void initProcess()
   {
      void* a = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      void* b = mmap((void*)SBASE, ASIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if(a != (void*)ABASE || b != (void*)SBASE) { perror("simcheck: mmap"); _exit(3); }
      madvise((void*)ABASE, ASIZE, MADV_NOHUGEPAGE);
      madvise((void*)SBASE, ASIZE >> 3, MADV_NOHUGEPAGE);
   }

   void childSetup()
   {
      altStack();
      struct sigaction sa; memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
      for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
      std::set_terminate(onTerminate);
      ths = new std::vector<Th*>();
      Th* t = new Th();
      t->id = 0; t->name = "main"; t->h = pthread_self();
      t->prio = 1000;
      ths->push_back(t);
      self = cur = t;
      g_nth = 1;
      stackBounds(t);
      budget = gapLeft = INT64_MAX;
   }

   void (*invoke)(const std::function<void()>&) = nullptr;   // catches and reports escaping exceptions
   void done()
   {
      g_on = false;
      endRun(ST_OK, "", "");
   }
   // processor time (independent of the load of the machine), and a generous real time limit
   static void armWatchdog(int cpu, int wall)
   {
      struct itimerval it; memset(&it, 0, sizeof it);
      it.it_value.tv_sec = cpu;
      setitimer(ITIMER_PROF, &it, nullptr);
      alarm(wall);
   }
   void runBody(void (*fn)())
   {
      childSetup();
      armWatchdog(20, 90);
      fsReset();
      static const u32 pat[] = {0x00, 0xFF, 0xA5, 0x41};
      sh->fill = pat[draw(SW, 4)];
      g_on = true;
      invoke(fn);
      done();
   }

   //==================================================================== reboots
   void journal(const std::string& s)
   {
      u32 n = (u32)s.size();
      if(sh->journalLen + n + 4 > JCAP) skip("journal-cap");
      memcpy(sh->journalBuf + sh->journalLen, &n, 4);
      memcpy(sh->journalBuf + sh->journalLen + 4, s.data(), n);
      sh->journalLen += 4 + n;
   }
   std::vector<std::string> journalRead()
   {
      std::vector<std::string> v;
      u32 p = 0;
      while(p < sh->journalLen) { u32 n; memcpy(&n, sh->journalBuf + p, 4); v.emplace_back(sh->journalBuf + p + 4, n); p += 4 + n; }
      return v;
   }
   void journalClear() { sh->journalLen = 0; }
   static void storeFs()
   {
      bool was = g_on; g_on = false;
      std::string s = fsSerialize();
      if(s.size() > FSCAP) endRun(ST_SKIP, "fs-cap", "simulated file system too large");
      memcpy(sh->fsBuf, s.data(), s.size());
      sh->fsLen = (u32)s.size();
      g_on = was;
   }
   static bool inBoot = false;
   void crashNow()
   {
      g_on = false;
      if(!inBoot) endRun(ST_SKIP, "crash-outside-boot", "crash outside boot");
      storeFs();
      sh->bootStatus = 2;
      ::syscall(SYS_exit_group, 0);
      __builtin_unreachable();
   }
   bool boot(const std::function<void()>& fn)
   {
      if(ths->size() != 1) skip("boot-with-threads");
      storeFs();
      sh->bootStatus = 0;
      sh->boots++;
      bool was = g_on;
      g_on = false;
      pid_t pid = fork();
      if(pid < 0) endRun(ST_SKIP, "fork", "fork failed");
      if(pid == 0)
      {
         inBoot = true;
         armWatchdog(15, 60);
         self = cur = (*ths)[0];
         g_on = was;
         invoke(fn);
         g_on = false;
         storeFs();
         sh->bootStatus = 1;
         ::syscall(SYS_exit_group, 0);
      }
      int st = 0;
      while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if(sh->status != ST_RUNNING) ::syscall(SYS_exit_group, 0);
      if(sh->bootStatus == 0)
      {
         if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) endRun(ST_FAIL, "hang", "a simulated process did not finish");
         endRun(ST_FAIL, "crash-unknown", "a simulated process died");
      }
      fsDeserialize(std::string(sh->fsBuf, sh->fsLen));
      g_on = was;
      return sh->bootStatus == 1;
   }

   //==================================================================== instrumentation
   static void stepLimit() __attribute__((noinline));
   static void stepLimit() { if(g_on) fail("livelock", "more than %llu steps without finishing; %s", (unsigned long long)stepCap, symbolizeStack().c_str()); }

   static inline __attribute__((always_inline)) void acc(u64 a, u64 n, bool w, bool ranged)
   {
      if(__builtin_expect(!g_on, 0)) return;
      if(++sh->steps > stepCap) stepLimit();
      if(inArena(a))
      {
         if(ranged || ((a & 7) + n) > 8) checkRange(a, n, w);
         else
         {
            u8 v = *shadow(a);
            if(__builtin_expect(v != 8, 0)) if(v == 0 || v == 0xFD || (a & 7) + n > v) badAccess(a, n, w);
         }
      }
      Th* t = self;
      if(t == nullptr) return;
      if(g_nth > 1)
      {
         if(a - t->slo < t->shi - t->slo) return;
         if(t->np) return;
         if(--budget <= 0) preemptNow();
      }
   }
   static inline void at(u64 a, u64 n, bool w)
   {
      if(!g_on) return;
      checkRange(a, n, w);
      schedPoint(4);
   }
}

using namespace sim;
typedef unsigned __int128 u128;

extern "C"
{
   void __tsan_init() {}
   void __tsan_func_entry(void* pc)
   {
      (void)pc;
      if(!g_on || !self) return;
      Th* t = self;
      if(t->depth < 300) t->stk[t->depth] = __builtin_return_address(0);
      t->depth++;
   }
   void __tsan_func_exit() { if(g_on && self && self->depth > 0) self->depth--; }
#define RW(n) \
   void __tsan_read##n(void* p) { acc((u64)p, n, false, false); } \
   void __tsan_write##n(void* p) { acc((u64)p, n, true, false); } \
   void __tsan_unaligned_read##n(void* p) { acc((u64)p, n, false, false); } \
   void __tsan_unaligned_write##n(void* p) { acc((u64)p, n, true, false); } \
   void __tsan_read_write##n(void* p) { acc((u64)p, n, true, false); } \
   void __tsan_unaligned_read_write##n(void* p) { acc((u64)p, n, true, false); } \
   void __tsan_volatile_read##n(void* p) { acc((u64)p, n, false, false); } \
   void __tsan_volatile_write##n(void* p) { acc((u64)p, n, true, false); } \
   void __tsan_unaligned_volatile_read##n(void* p) { acc((u64)p, n, false, false); } \
   void __tsan_unaligned_volatile_write##n(void* p) { acc((u64)p, n, true, false); }
   RW(1) RW(2) RW(4) RW(8) RW(16)
   void __tsan_vptr_update(void** p, void*) { acc((u64)p, 8, true, false); }
   void __tsan_vptr_read(void** p) { acc((u64)p, 8, false, false); }
   void __tsan_read_range(void* p, unsigned long n) { acc((u64)p, n, false, true); }
   void __tsan_write_range(void* p, unsigned long n) { acc((u64)p, n, true, true); }
   void __tsan_ignore_thread_begin() {}
   void __tsan_ignore_thread_end() {}
   void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if(n) { acc((u64)s, n, false, true); acc((u64)d, n, true, true); } return memmove(d, s, n); }
   void* __tsan_memmove(void* d, const void* s, unsigned long n) { if(n) { acc((u64)s, n, false, true); acc((u64)d, n, true, true); } return memmove(d, s, n); }
   void* __tsan_memset(void* d, int c, unsigned long n) { if(n) acc((u64)d, n, true, true); return memset(d, c, n); }
#define AT(N, T) \
   T __tsan_atomic##N##_load(const volatile T* a, int) { at((u64)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   void __tsan_atomic##N##_store(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { at((u64)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at((u64)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at((u64)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at((u64)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
   AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, unsigned long)
   void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
   void __tsan_atomic_signal_fence(int) {}
}

//======================================================================= operator new / delete
static void* newImpl(size_t n)
{
   if(g_on) return arenaAlloc(n);
   void* p = malloc(n ? n : 1);
   if(!p) throw std::bad_alloc();
   return p;
}
static void delImpl(void* p)
{
   if(!p) return;
   if(inArena((u64)p)) arenaFree(p); else free(p);
}
void* operator new(size_t n) { return newImpl(n); }
void* operator new[](size_t n) { return newImpl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n); }
void operator delete(void* p) noexcept { delImpl(p); }
void operator delete[](void* p) noexcept { delImpl(p); }
void operator delete(void* p, size_t) noexcept { delImpl(p); }
void operator delete[](void* p, size_t) noexcept { delImpl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delImpl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delImpl(p); }

// What the simulated system calls hand out is freed with free().
extern "C" void __libc_free(void*);
extern "C" void free(void* p) { if(p && inArena((u64)p)) arenaFree(p); else __libc_free(p); }

//======================================================================= pthread seam
namespace
{
   struct MSt { Th* owner = nullptr; int count = 0; int kind = 0; bool known = false; };
   struct CSt { std::vector<Th*> q; clockid_t clock = CLOCK_REALTIME; };
   struct RSt { int readers = 0; Th* writer = nullptr; };
   std::unordered_map<const void*, MSt>* mtab;
   std::unordered_map<const void*, CSt>* ctab;
   std::unordered_map<const void*, RSt>* rtab;
   // Tables live outside the checked heap.
   struct Off { bool was; Off(): was(g_on) { g_on = false; } ~Off() { g_on = was; } };
   // A mutex or condition on the heap that was not initialised contains the heap's fill pattern.
   void needInit(const void* p, size_t n, const char* what)
   {
      if(!inArena((u64)p)) return;
      size_t nz = 0; for(size_t i = 0; i < n; i++) nz += ((const u8*)p)[i] != 0;
      if(nz > 8) fail("uninitialised-lock", "%s that was not initialised is used", what);
   }
   MSt& ms(pthread_mutex_t* m)
   {
      if(!mtab || !mtab->count(m)) needInit(m, sizeof *m, "a mutex");
      Off o;
      if(!mtab) mtab = new std::unordered_map<const void*, MSt>();
      MSt& s = (*mtab)[m];
      if(!s.known) { s.known = true; s.kind = m->__data.__kind & 3; s.owner = nullptr; }
      return s;
   }
   CSt& cs(const void* c) { Off o; if(!ctab) ctab = new std::unordered_map<const void*, CSt>(); return (*ctab)[c]; }
   RSt& rs(const void* c) { Off o; if(!rtab) rtab = new std::unordered_map<const void*, RSt>(); return (*rtab)[c]; }
   void dropDone(CSt& c, Th* t) { Off o; c.q.erase(std::remove(c.q.begin(), c.q.end(), t), c.q.end()); }
   bool sw() { return g_on && self != nullptr; }

   int lockSim(pthread_mutex_t* m)
   {
      checkRange((u64)m, sizeof *m, true);
      schedPoint(6);
      for(;;)
      {
         MSt& s = ms(m);
         if(s.owner == nullptr) { s.owner = self; s.count = 1; return 0; }
         if(s.owner == self)
         {
            if(s.kind == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; }
            if(s.kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            log("thread %d locks a mutex it already holds", self->id);
         }
         probe("lock_contended");
         block(WK_MUTEX, m);
      }
   }
   void unlockSim(pthread_mutex_t* m)
   {
      MSt& s = ms(m);
      if(--s.count > 0) return;
      s.owner = nullptr; s.count = 0;
      wakeObj(WK_MUTEX, m);
   }
   int condWait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs, clockid_t clk)
   {
      checkRange((u64)c, sizeof *c, true);
      if(!ctab || !ctab->count(c)) needInit(c, sizeof *c, "a condition");
      if(abs && (abs->tv_nsec < 0 || abs->tv_nsec >= 1000000000L)) return EINVAL;
      schedPoint(4);
      Th* t = self;
      { Off o; cs(c).q.push_back(t); }
      t->signaled = false; t->timedOut = false;
      t->hasDl = abs != nullptr;
      if(abs)
      {
         t->dlReal = clk == CLOCK_REALTIME;
         __int128 d = (__int128)abs->tv_sec * 1000000000 + abs->tv_nsec;
         t->dl = d > INT64_MAX / 2 ? INT64_MAX / 2 : (i64)d;
      }
      unlockSim(m);
      block(WK_COND, c);
      t->hasDl = false;
      bool to = t->timedOut && !t->signaled;
      dropDone(cs(c), t);
      lockSim(m);
      return to ? ETIMEDOUT : 0;
   }
}

extern "C"
{
   int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
   {
      int r = REAL(pthread_mutex_init)(m, a);
      if(sw() && r == 0) { Off o; if(!mtab) mtab = new std::unordered_map<const void*, MSt>(); MSt& s = (*mtab)[m]; s = MSt(); s.known = true; s.kind = m->__data.__kind & 3; }
      return r;
   }
   int pthread_mutex_destroy(pthread_mutex_t* m)
   {
      if(!sw()) return REAL(pthread_mutex_destroy)(m);
      if(ms(m).owner) return EBUSY;
      Off o; mtab->erase(m); return 0;
   }
   int pthread_mutex_lock(pthread_mutex_t* m) { return sw() ? lockSim(m) : REAL(pthread_mutex_lock)(m); }
   int pthread_mutex_trylock(pthread_mutex_t* m)
   {
      if(!sw()) return REAL(pthread_mutex_trylock)(m);
      schedPoint(6);
      MSt& s = ms(m);
      if(s.owner == nullptr) { s.owner = self; s.count = 1; return 0; }
      if(s.owner == self && s.kind == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; }
      return EBUSY;
   }
   int pthread_mutex_unlock(pthread_mutex_t* m)
   {
      if(!sw()) return REAL(pthread_mutex_unlock)(m);
      checkRange((u64)m, sizeof *m, true);
      MSt& s = ms(m);
      if(s.kind == PTHREAD_MUTEX_ERRORCHECK && s.owner != self) return EPERM;
      if(s.owner != self) fail("unlock-not-owner", "thread %d unlocks a mutex that %s", self->id, s.owner ? "another thread has locked" : "nobody has locked");
      unlockSim(m);
      schedPoint(6);
      return 0;
   }
   int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
   {
      int r = REAL(pthread_cond_init)(c, a);
      if(sw())
      {
         Off o;
         CSt& s = cs(c); s.q.clear(); s.clock = CLOCK_REALTIME;
         if(a) { clockid_t k; if(pthread_condattr_getclock(a, &k) == 0) s.clock = k; }
      }
      return r;
   }
   int pthread_cond_destroy(pthread_cond_t* c)
   {
      if(!sw()) return REAL(pthread_cond_destroy)(c);
      Off o; if(ctab) ctab->erase(c); return 0;
   }
   int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
   {
      if(!sw()) return REAL(pthread_cond_wait)(c, m);
      return condWait(c, m, nullptr, 0);
   }
   int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
   {
      if(!sw()) return REAL(pthread_cond_timedwait)(c, m, t);
      return condWait(c, m, t, cs(c).clock);
   }
   int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
   {
      if(!sw()) return REAL(pthread_cond_clockwait)(c, m, k, t);
      return condWait(c, m, t, k);
   }
   int pthread_cond_signal(pthread_cond_t* c)
   {
      if(!sw()) return REAL(pthread_cond_signal)(c);
      checkRange((u64)c, sizeof *c, true);
      schedPoint(6);
      CSt& s = cs(c);
      std::vector<Th*> w;
      { Off o; for(Th* t : s.q) if(t->st == BLOCK && t->wk == WK_COND && t->wobj == c) w.push_back(t); }
      if(w.empty()) { probe("signal_without_waiter"); }
      else
      {
         u32 k = draw(SS, (u32)w.size());
         w[k]->signaled = true; w[k]->st = RUN;
         dropDone(s, w[k]);
      }
      { Off o; std::vector<Th*>().swap(w); }
      return 0;
   }
   int pthread_cond_broadcast(pthread_cond_t* c)
   {
      if(!sw()) return REAL(pthread_cond_broadcast)(c);
      schedPoint(6);
      CSt& s = cs(c);
      for(Th* t : s.q) if(t->st == BLOCK && t->wk == WK_COND && t->wobj == c) { t->signaled = true; t->st = RUN; }
      { Off o; s.q.clear(); }
      return 0;
   }
   int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*start)(void*), void* arg)
   {
      if(!sw()) return REAL(pthread_create)(h, a, start, arg);
      schedPoint(6);
      if(createFailPm && Fp(createFailPm, 1000)) { createFails++; fault("thread_create_EAGAIN"); log("pthread_create fails"); return EAGAIN; }
      Off o;
      Th* t = newThread("lib-thread");
      t->start = start; t->arg = arg; t->sysThread = true;
      launch(t);
      *h = t->h;
      g_on = true;
      schedPoint(6);
      return 0;
   }
   int pthread_join(pthread_t h, void** ret)
   {
      if(!sw()) return REAL(pthread_join)(h, ret);
      schedPoint(6);
      Th* t = nullptr;
      for(Th* x : *ths) if(x->id != 0 && x->h == h && !x->joined) t = x;
      if(!t) fail("bad-join", "pthread_join on a thread that does not exist or was joined before; %s", symbolizeStack().c_str());
      if(t == self) return EDEADLK;
      simJoin(t);
      if(ret) *ret = t->ret;
      return 0;
   }
   int pthread_detach(pthread_t h)
   {
      if(!sw()) return REAL(pthread_detach)(h);
      for(Th* x : *ths) if(x->h == h) x->detached = true;
      return 0;
   }
   int pthread_setname_np(pthread_t h, const char* n)
   {
      if(!sw()) return REAL(pthread_setname_np)(h, n);
      Th* t = nullptr;
      for(Th* x : *ths) if(x->h == h && !x->joined) t = x;
      if(!t) fail("bad-thread-handle", "pthread_setname_np is given a thread that does not exist or was joined");
      if(strlen(n) > 15) { fault("thread_name_refused"); return ERANGE; }
      strcpy(t->sysName, n);
      return 0;
   }
   int pthread_rwlock_rdlock(pthread_rwlock_t* l)
   {
      if(!sw()) return REAL(pthread_rwlock_rdlock)(l);
      schedPoint(6);
      while(rs(l).writer) block(WK_RW, l);
      rs(l).readers++; return 0;
   }
   int pthread_rwlock_wrlock(pthread_rwlock_t* l)
   {
      if(!sw()) return REAL(pthread_rwlock_wrlock)(l);
      schedPoint(6);
      while(rs(l).writer || rs(l).readers) block(WK_RW, l);
      rs(l).writer = self; return 0;
   }
   int pthread_rwlock_unlock(pthread_rwlock_t* l)
   {
      if(!sw()) return REAL(pthread_rwlock_unlock)(l);
      RSt& s = rs(l);
      if(s.writer) s.writer = nullptr; else if(s.readers) s.readers--;
      wakeObj(WK_RW, l);
      schedPoint(6);
      return 0;
   }
   int sched_yield() { if(!sw()) return REAL(sched_yield)(); schedPoint(16); return 0; }

   // function-local statics: real guards would block the parked threads
   int __cxa_guard_acquire(__cxxabiv1::__guard* g)
   {
      u8* b = (u8*)g;
      if(__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
      if(!sw()) { b[1] = 1; return 1; }
      schedPoint(2);
      while(b[1]) { if(b[0]) return 0; block(WK_GUARD, g); }
      if(b[0]) return 0;
      b[1] = 1;
      return 1;
   }
   void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { u8* b = (u8*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if(sw()) wakeObj(WK_GUARD, g); }
   void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { u8* b = (u8*)g; b[1] = 0; if(sw()) wakeObj(WK_GUARD, g); }

   //==================================================================== clocks and sleeps
   int gettimeofday(struct timeval* tv, void* tz)
   {
      if(!sw()) { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if(tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } (void)tz; return 0; }
      schedPoint(2);
      i64 n = nowReal();
      i64 s = n / 1000000000, r = n % 1000000000;
      if(r < 0) { r += 1000000000; s--; }
      if(tv) { tv->tv_sec = s; tv->tv_usec = r / 1000; }
      return 0;
   }
   int clock_gettime(clockid_t c, struct timespec* ts)
   {
      if(!sw()) return (int)::syscall(SYS_clock_gettime, c, ts);
      schedPoint(2);
      i64 n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? nowReal() : (i64)nowMono();
      i64 s = n / 1000000000, r = n % 1000000000;
      if(r < 0) { r += 1000000000; s--; }
      ts->tv_sec = s; ts->tv_nsec = r;
      return 0;
   }
   time_t time(time_t* t)
   {
      timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
      if(t) *t = ts.tv_sec;
      return ts.tv_sec;
   }
   clock_t clock() { return sw() ? (clock_t)(nowMono() / 1000) : REAL(clock)(); }
   static void simSleep(u64 ns)
   {
      Th* t = self;
      t->hasDl = true; t->dlReal = false; t->dl = (i64)(nowMono() + ns); t->timedOut = false;
      block(WK_SLEEP, nullptr);
      t->hasDl = false;
   }
   int nanosleep(const struct timespec* a, struct timespec* b)
   {
      if(!sw()) return REAL(nanosleep)(a, b);
      if(a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
      simSleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec);
      if(b) { b->tv_sec = 0; b->tv_nsec = 0; }
      return 0;
   }
   int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b)
   {
      if(!sw()) return REAL(clock_nanosleep)(c, fl, a, b);
      if(a->tv_nsec < 0 || a->tv_nsec > 999999999) return EINVAL;
      if(fl & TIMER_ABSTIME)
      {
         Th* t = self;
         t->hasDl = true; t->dlReal = c == CLOCK_REALTIME; t->dl = a->tv_sec * 1000000000ll + a->tv_nsec; t->timedOut = false;
         block(WK_SLEEP, nullptr);
         t->hasDl = false;
         return 0;
      }
      return nanosleep(a, b);
   }
   int usleep(useconds_t u) { if(!sw()) return REAL(usleep)(u); simSleep((u64)u * 1000); return 0; }
   unsigned sleep(unsigned s) { if(!sw()) return REAL(sleep)(s); simSleep((u64)s * 1000000000ull); return 0; }

   // stack traces contain addresses, which differ from process to process
   int backtrace(void** b, int n)
   {
      if(!g_on) return REAL(backtrace)(b, n);
      int t = curThread();
      if(t < 0 || t >= 64 || !bt[t].on) return 0;
      if(n > bt[t].depth) n = bt[t].depth;
      for(int i = 0; i < n; i++) b[i] = (void*)(uintptr_t)(((u64)bt[t].tag << 16) | (u64)i);
      return n;
   }
   char** backtrace_symbols(void* const* b, int n)
   {
      if(!g_on) return REAL(backtrace_symbols)(b, n);
      int t = curThread();
      if(t < 0 || t >= 64 || !bt[t].on) return (char**)newImpl(8);
      if(bt[t].noNames) { fault("backtrace_symbols_error"); errno = ENOMEM; return nullptr; }
      char** r = (char**)newImpl((size_t)n * 72 + 8);
      char* p = (char*)(r + n);
      for(int i = 0; i < n; i++)
      {
         u64 a = (u64)(uintptr_t)b[i];
         r[i] = p; p += snprintf(p, 64, "/usr/bin/prog(frame<%u/%u>+0x%x) [%llx]", (u32)(a >> 16), (u32)(a & 0xffff), i * 4 + 1, (unsigned long long)a & 0xffffffff) + 1;
      }
      return r;
   }
}
