// C03: Mutex.  C04: Thread lifecycle.  C05: Thread::sleep(ms).  C06: System::log.
#include "common.h"
using namespace jm;

namespace
{
   //------------------------------------------------------------------ C03
   struct MxState { jm::Mutex* mx; int inside = 0; u64 wakeups = 0, woke = 0; u64 data = 0, entered = 0; };

   void critical(MxState& st, int len)
   {
      st.mx->lock();
      { NoPreempt np; if(st.inside != 0) fail("exclusion", "two threads hold the mutex at once"); st.inside++; log("t%d in", curThread()); }
      u64 v = st.data;
      for(int i = 0; i < len; i++) yield();
      st.data = v + 1;
      { NoPreempt np; st.inside--; st.entered++; log("t%d out", curThread()); }
      st.mx->unlock();
   }

   void runMutex()
   {
      initLib();
      static MxState st;
      st.mx = new Mutex;
      u32 nLock = W(4), nSleep = W(4), nWaker = 1 + W(2);
      if(nLock + nSleep == 0) nLock = 2;
      u32 rounds = 1 + W(4);
      bool heldWake = W(2);
      schedConfig(1);
      if(W(3) == 2) enableTimeFaults(30);
      std::vector<int> sleepers;
      for(u32 t = 0; t < nLock; t++)
      {
         u32 len = W(4);
         char nm[16]; snprintf(nm, sizeof nm, "locker%u", t);
         spawn(nm, [=] { for(u32 r = 0; r < rounds; r++) critical(st, (int)len); });
      }
      u32 sleepRounds = 1 + W(3);
      static int sleepersLeft; sleepersLeft = (int)nSleep;
      for(u32 t = 0; t < nSleep; t++)
      {
         char nm[16]; snprintf(nm, sizeof nm, "sleeper%u", t);
         u32 lockAfter = W(2);
         spawn(nm, [=] {
            for(u32 r = 0; r < sleepRounds; r++)
            {
               { NoPreempt np; log("t%d sleeps", curThread()); }
               st.mx->sleep();
               { NoPreempt np; st.woke++; log("t%d woke", curThread()); if(st.woke > st.wakeups) fail("woke-without-wakeup", "%llu threads continued from sleep() after %llu wakeUp() calls", (unsigned long long)st.woke, (unsigned long long)st.wakeups); }
               if(lockAfter) critical(st, 1);
            }
            NoPreempt np; sleepersLeft--;
         });
         sleepers.push_back(threadCount() - 1);
      }
      if(nSleep)
      {
         bool single = nWaker == 1;
         for(u32 w = 0; w < nWaker; w++)
         {
            char nm[16]; snprintf(nm, sizeof nm, "waker%u", w);
            bool held = heldWake && w == 0;
            spawn(nm, [=] {
               while(true)
               {
                  waitUntil([&] { if(sleepersLeft == 0) return true; for(int s : sleepers) if(threadSleeping(s)) return true; return false; });
                  if(sleepersLeft == 0) break;
                  if(held) { st.mx->lock(); NoPreempt np; if(st.inside) fail("exclusion", "two threads hold the mutex at once"); st.inside++; }
                  u64 before; int asleep = 0;
                  { NoPreempt np; before = st.woke; for(int s : sleepers) asleep += threadSleeping(s); st.wakeups++; log("wakeUp, %d asleep", asleep); }
                  st.mx->wakeUp();
                  if(held) { { NoPreempt np; st.inside--; } st.mx->unlock(); probe("wakeup_while_holding"); }
                  if(asleep > 1) probe("wakeup_with_several_asleep");
                  if(single && asleep)
                  {
                     // the wake-up must let one of them continue; if it does not, everything comes to a halt
                     waitUntil([&] { return st.woke > before; });
                     probe("single_wakeup");
                  }
                  else yield();
               }
            });
         }
         onDeadlock = [] { int a = 0; for(int i = 0; i < threadCount(); i++) a += threadSleeping(i); if(a) fail("lost-wakeup", "%d threads stay asleep on the mutex although wakeUp() was called while they slept", a); };
      }
      joinAll();
      if(st.data != st.entered) fail("exclusion", "%llu critical sections ran but the protected counter shows %llu", (unsigned long long)st.entered, (unsigned long long)st.data);
      // free at the end
      critical(st, 0);
      delete st.mx;
   }

   //------------------------------------------------------------------ C04
   struct Worker: public Thread
   {
      int kind = 0; int len = 0; int selfThread = -1;
      int runs = 0, finished = 0; bool startedByUs = false, interrupting = false; u64 beats = 0;
      int inside = 0; int wakes = 0; int sleepsDone = 0;
      bool inSleep = false;
      bool badAlive = false;
      void run() override
      {
         { NoPreempt np; runs++; selfThread = curThread(); log("t%d run() of a worker of kind %d", curThread(), kind); if(!startedByUs) fail("run-without-start", "run() was called although start() was not"); if(runs > 1) fail("run-twice", "run() was called %d times for one start()", runs); }
         if(Thread::isMainThread()) fail("main-thread", "isMainThread() is true in another thread");
         if(kind == 3 && len == 1) rename();
         switch(kind)
         {
            case 0: for(int i = 0; i < len; i++) yield(); break;
            case 1: while(loop()) { beat(); napMs(1 + len * 700); } break;
            case 2: while(loop()) { beat(); nap(); } break;
            case 3: while(loop()) { section(); yield(); } break;
            case 4: nap(); nap(); break;
            default: napMs(len * 1000); beat(); break;
         }
         { NoPreempt np; finished++; log("t%d run() ends", curThread()); }
      }
      // names are given by the controlling thread, or by the thread itself if its kind is 3
      std::string given, before; bool naming = false;
      void rename()
      {
         static const char* ns[] = {"worker", "a", "", "exactly 15 char", "a name that is much too long"};
         const char* n = ns[W(5)];
         { NoPreempt np; naming = true; log("t%d names the worker %s", curThread(), n); }
         setName(J(n));
         NoPreempt np;
         naming = false; before = given; given = n; probe("named");
      }
      void checkName(const char* when)
      {
         if(naming || !startedByUs || !runs || finished || interrupting || given.size() > 15 || before.size() > 15 || (kind == 3 && len == 1)) return;
         if(given != threadSysName(selfThread)) fail("name", "%s: the thread is called %s instead of %s", when, threadSysName(selfThread), given.c_str());
      }
      void beat() { NoPreempt np; beats++; }
      bool loop()
      {
         bool a = isAlive();
         NoPreempt np;
         if(!a && !interrupting) fail("not-alive", "isAlive() is false in run() of a thread nobody interrupted");
         return a;
      }
      void nap() { { NoPreempt np; inSleep = true; log("t%d sleep()", curThread()); } sleep(); NoPreempt np; inSleep = false; sleepsDone++; log("t%d slept", curThread()); if(sleepsDone > wakes && !interrupting) fail("woke-without-wakeup", "sleep() returned although neither wakeUp() nor interrupt() was called"); }
      void napMs(i64 ms) { { NoPreempt np; log("t%d sleep(%lld)", curThread(), (long long)ms); } sleep(ms); NoPreempt np; log("t%d slept", curThread()); }
      void section()
      {
         lock();
         { NoPreempt np; if(inside) fail("exclusion", "lock() let two threads in"); inside = 1; }
         yield();
         { NoPreempt np; inside = 0; beats++; }
         unlock();
      }
   };

   void runLifecycle()
   {
      initLib();
      u32 n = 1 + W(3);
      bool createFaults = W(3) == 2;
      schedConfig(1);
      if(W(3) == 2) enableTimeFaults(20);
      std::vector<Worker*> ws;
      for(u32 i = 0; i < n; i++)
      {
         Worker* w = new Worker;
         w->kind = (int)W(6); w->len = (int)W(4);
         if(w->isAlive()) fail("alive-before-start", "a thread that was never started is alive");
         ws.push_back(w);
      }
      static std::vector<Worker*>* all; all = &ws;
      // other threads may sleep on a thread object, too
      static int fellowsLeft; fellowsLeft = 0;
      u32 fellows = W(3) == 2 ? 1 + W(2) : 0;
      std::vector<int> fellowOf(n, 0);
      for(u32 i = 0; i < fellows; i++)
      {
         u32 k = W(n); Worker* w = ws[k]; fellowOf[k]++;
         u32 rounds = 1 + W(2); i64 ms = W(3) == 2 ? 1 + W(3000) : -1;
         fellowsLeft++;
         spawn("fellow", [=] {
            for(u32 r = 0; r < rounds; r++)
            {
               { NoPreempt np; log("t%d sleeps on the thread object (%lld ms)", curThread(), (long long)ms); }
               if(ms >= 0) w->sleep(ms); else w->sleep();
               NoPreempt np; log("t%d slept", curThread());
            }
            NoPreempt np; fellowsLeft--; probe("fellow_slept");
         });
      }
      onDeadlock = [] { bool all1 = true; for(Worker* w : *all) all1 = all1 && w->interrupting; if(all1 && fellowsLeft) fail("interrupt-wakes", "a thread that sleeps on an interrupted thread object is not woken up"); for(Worker* w : *all) if(w->interrupting && w->startedByUs && !w->finished) fail("interrupt-blocks", "interrupt() never returns: the thread it waits for is not woken up"); };
      u32 ops = 2 + Wlen(12);
      auto stop = [&](Worker* w) {
         { NoPreempt np; w->interrupting = true; log("interrupt worker of kind %d", w->kind); if(w->startedByUs && !w->finished) probe("interrupt_running"); if(w->inSleep) probe("interrupt_sleeping"); if(w->startedByUs && !w->runs) probe("interrupt_before_run"); }
         w->interrupt();
         NoPreempt np;
         if(w->startedByUs && w->runs != 1) fail("not-run", "run() was called %d times by the end of interrupt()", w->runs);
         if(w->startedByUs && !w->finished) fail("interrupt-early", "interrupt() returned while run() was still executing");
         if(w->startedByUs && w->selfThread == curThread()) fail("same-thread", "run() was executed by the thread that called start()");
      };
      auto start = [&](Worker* w) {
         int f0 = createFailures();
         { NoPreempt np; w->startedByUs = true; w->interrupting = false; w->runs = w->finished = 0; w->wakes = w->sleepsDone = 0; log("start worker of kind %d", w->kind); }
         bool t = threw([&] { w->start(); });
         NoPreempt np;
         bool inj = createFailures() != f0;
         if(t && !inj) fail("start-failed", "start() reported an error although the thread could be created");
         if(!t && inj) fail("start-error-hidden", "start() reported success although no thread could be created");
         if(t) { probe("start_failed"); w->startedByUs = false; if(w->runs) fail("run-without-start", "run() was called although start() failed"); return; }
         probe("started");
         w->checkName("after start()");
      };
      for(u32 o = 0; o < ops; o++)
      {
         Worker* w = ws[W(n)];
         switch(W(8))
         {
            case 7:
               if(w->kind == 3 && w->len == 1) { yield(); break; }
               w->rename();
               { NoPreempt np; w->checkName("after setName()"); }
               if(!Thread::isMainThread()) fail("main-thread", "isMainThread() is false in the main thread");
               break;
            case 0: case 1:
               if(!w->startedByUs)
               {
                  if(createFaults) failThreadCreate(400);
                  start(w);
                  failThreadCreate(0);
               }
               break;
            case 2:
               { NoPreempt np; w->wakes++; }
               w->wakeUp();
               break;
            case 3: if(w->startedByUs) { bool a = w->isAlive(); NoPreempt np; if(!a && !w->finished) fail("not-alive", "isAlive() is false although the thread was started, runs and was not interrupted"); } else if(w->isAlive()) fail("alive-before-start", "a thread that is not running is alive"); break;
            case 4: for(u32 i = 0; i < 3; i++) yield(); break;
            case 5:
               if(w->startedByUs)
               {
                  stop(w);
                  if(w->isAlive()) fail("alive-after-interrupt", "isAlive() is true after interrupt()");
                  { NoPreempt np; w->startedByUs = false; }
                  probe("restartable");
               }
               else { w->interrupt(); }
               break;
            default:
               if(w->startedByUs && w->kind == 4 && !fellowOf[std::find(ws.begin(), ws.end(), w) - ws.begin()] && w->inSleep && threadSleeping(w->selfThread))
               {
                  // a sleeping thread is woken by wakeUp()
                  int s0;
                  { NoPreempt np; w->wakes++; s0 = w->sleepsDone; }
                  w->wakeUp();
                  waitUntil([&] { return w->sleepsDone > s0; });
                  probe("woken");
               }
               else yield();
               break;
         }
      }
      for(Worker* w : ws) { stop(w); if(w->isAlive()) fail("alive-after-interrupt", "isAlive() is true after interrupt()"); }
      joinAll();
      for(Worker* w : ws) w->release();
   }

   //------------------------------------------------------------------ C05
   struct Napper: public Thread
   {
      std::vector<i64> ms;
      bool early = false;            // wakeUp() or interrupt() may have ended the current sleep
      bool asleepNow = false; int done = 0; int tid = -1; i64 cur = 0; u64 sinceNs = 0; bool ended = false, stalls = false; bool interrupted = false;
      bool waking = false;            // a wakeUp() call is in progress
      void run() override
      {
         tid = curThread();
         for(i64 m : ms)
         {
            u64 t0;
            { NoPreempt np; t0 = nowMono(); early = waking; cur = m; sinceNs = t0; log("sleep(%lld) at %llu", (long long)m, (unsigned long long)t0); }
            { NoPreempt np; asleepNow = true; }
            sleep(m);
            NoPreempt np;
            asleepNow = false;
            if(m < 0) m = 0;      // no time at all
            u64 dt = nowMono() - t0;
            log("slept %llu ns", (unsigned long long)dt);
            if(dt < (u64)m * 1000000ull && !early && !interrupted) fail("sleep-too-short", "sleep(%lld) returned after %llu ns although nobody woke the thread up", (long long)m, (unsigned long long)dt);
            if(!stalls && dt > (u64)m * 1000000ull + 50000000ull) fail("sleep-too-long", "sleep(%lld) took %llu ns", (long long)m, (unsigned long long)dt);
            done++;
         }
         ended = true;
      }
   };

   void runTimedSleep()
   {
      initLib();
      Napper* n = new Napper;
      u32 k = 1 + W(4);
      static const i64 durs[] = {0, 1, -1, -60000, INT64_MIN, 5, 250, 999, 1000, 1001, 2500, 59999, 4294, 4295, 9000, 3600000, 86400000, 2592000000ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 100};
      for(u32 i = 0; i < k; i++) n->ms.push_back(W(3) == 2 ? (i64)W(20000) : durs[W(23)]);
      // the sub-second part of the clocks decides about carries
      setReal(1600000000ll * 1000000000ll + (i64)W(1000) * 1000000 + W(1000) * 1000);
      if(W(2)) advance((u64)W(1000) * 1000000ull + 999);
      // clocks that tick once in a millisecond, as on systems without a finer timer
      if(W(3) == 2)
      {
         setClockGrain(1000000); fault("coarse_clock");
         if(W(2)) advance(500000000ull - nowMono() % 500000000ull);
         if(W(2)) n->ms[0] = (i64)W(4) * 1000 + 1000 - (i64)(nowMono() / 1000000 % 1000);
      }
      schedConfig(1);
      n->stalls = W(3) == 2;
      if(n->stalls) enableTimeFaults(40);
      bool wake = W(3) == 1, jumps = W(2);
      n->start();
      u32 ops = Wlen(8);
      static const i64 js[] = {-1000000000ll, 3600000000000ll, -3600000000000ll, 500000000ll, -86400000000000ll * 365, 86400000000000ll * 365};
      for(u32 o = 0; o < ops && !n->ended; o++)
      {
         if(jumps && W(2)) { i64 j = js[F(6)]; jumpReal(j); fault("clock_jump"); log("clock jumps by %lld ms", (long long)(j / 1000000)); if(n->asleepNow) probe("jump_while_asleep"); }
         if(wake && W(2))
         {
            bool asleep; int d0; u64 t0;
            { NoPreempt np; asleep = n->tid >= 0 && threadSleeping(n->tid); d0 = n->done; n->early = n->waking = true; t0 = nowMono(); log("wakeUp, asleep: %d", asleep); }
            n->wakeUp();
            { NoPreempt np; n->waking = false; }
            if(asleep)
            {
               probe("woken_early");
               waitUntil([&] { return n->done > d0; });
               NoPreempt np;
               u64 dt = nowMono() - t0;
               if(!n->stalls && dt > 50000000ull) fail("wakeup-ignored", "a thread in sleep(ms) continued only %llu ns after wakeUp()", (unsigned long long)dt);
            }
         }
         yield();
      }
      waitUntil([&] { return n->ended; });
      { NoPreempt np; n->interrupted = true; }
      n->interrupt();
      n->release();
   }

   //------------------------------------------------------------------ C06
   struct LogRec { int tid, n; LogLevel lv; std::string text; bool done = false; u64 inv = 0, ret = 0; };

   void runLog()
   {
      initLib();
      // own sink, so that the output can be inspected
      static CoutSink* out; out = new CoutSink();
      bool date = W(2);
      static const LogLevel levels[] = {LogLevel::kDebug, LogLevel::kInformation, LogLevel::kWarning, LogLevel::kError};
      LogLevel lab = levels[W(4)];
      System::logEnableDate(date);
      System::logEnableLabel(lab);
      u32 nThr = 1 + W(4), per = 1 + Wlen(5);
      static std::vector<LogRec> recs; recs.clear(); recs.resize(nThr * per);
      static u64 lastSettled; lastSettled = 0;
      static std::string base; base = S(String(System::lastErrorMessage()));
      schedConfig(1);
      u32 q = W(3);
      bool reader = q != 0;
      auto checkErr = [](const std::string& got, u64 inv, u64 ret) {
         // linearizable register: the value of an error overlapping the read, or of a latest error that completed before it
         bool ok = false, any = false;
         u64 maxInvDone = 0;
         for(LogRec& r : recs) if(r.inv && r.lv == LogLevel::kError && r.ret && r.ret < inv) { any = true; if(r.inv > maxInvDone) maxInvDone = r.inv; }
         for(LogRec& r : recs)
         {
            if(!r.inv || r.lv != LogLevel::kError || r.inv > ret) continue;
            if(r.text != got) continue;
            // not overwritten for sure: no other error began after this one ended and ended before the read began
            bool over = false;
            for(LogRec& o : recs) if(&o != &r && o.lv == LogLevel::kError && o.inv && o.ret && r.ret && o.inv > r.ret && o.ret < inv) over = true;
            if(!over) ok = true;
         }
         if(!any && got == base) ok = true;
         if(!ok) fail("last-error", "lastErrorMessage() is %s, which is not the text of the latest logged error", show(got).c_str());
      };
      static std::function<void(const std::string&, u64, u64)> chk; chk = checkErr;
      for(u32 t = 0; t < nThr; t++)
      {
         char nm[16]; snprintf(nm, sizeof nm, "logger%u", t);
         for(u32 i = 0; i < per; i++)
         {
            LogRec& r = recs[t * per + i];
            r.tid = (int)t; r.n = (int)i; r.lv = levels[W(4)];
            char b[64]; snprintf(b, sizeof b, "m%u.%u:", t, i);
            r.text = b;
            u32 len = W(5) * 7;
            for(u32 k = 0; k < len; k++) r.text += (char)('a' + (t * 7 + i * 3 + k) % 26);
         }
         spawn(nm, [=] {
            for(u32 i = 0; i < per; i++)
            {
               LogRec& r = recs[t * per + i];
               String m;
               { NoPreempt np; r.inv = seq(); m = J(r.text); log("t%d logs %s level %d", curThread(), r.text.c_str(), (int)r.lv); }
               System::log(m, r.lv);
               NoPreempt np;
               r.ret = seq(); r.done = true;
               // nothing that comes later may take the message away
               size_t at = out->buf.find(r.text.substr(0, r.text.find(':') + 1));
               if(at != std::string::npos && out->buf.find('\n', at) >= out->flushed) fail("log-unwritten", "log() returned before the message %s was written", show(r.text).c_str());
            }
         });
      }
      if(reader) spawn("reader", [=] {
         for(u32 i = 0; i < q + 1; i++)
         {
            u64 inv; { NoPreempt np; inv = seq(); }
            String s(System::lastErrorMessage());
            NoPreempt np;
            u64 ret = seq();
            std::string got = S(s);
            log("reader sees %s", show(got).c_str());
            chk(got, inv, ret);
            probe("error_read");
         }
      });
      // somebody changes the settings meanwhile
      static std::vector<LogLevel> labs; labs.assign(1, lab);
      static bool dates[2]; dates[date] = true; dates[!date] = false;
      if(W(3) == 0)
      {
         u32 k = 1 + W(4);
         std::vector<u32> todo; for(u32 i = 0; i < k; i++) { u32 x = W(2) ? 16 + W(2) : W(4); todo.push_back(x); if(x >= 16) dates[x - 16] = true; else labs.push_back(levels[x]); }
         spawn("setter", [todo] { for(u32 x : todo) { if(x >= 16) System::logEnableDate(x - 16); else System::logEnableLabel(levels[x]); } });
         probe("settings_change");
      }
      joinAll();
      { u64 inv = seq(); String s(System::lastErrorMessage()); u64 ret = seq(); chk(S(s), inv, ret); }
      if(W(8) == 7)
      {
         // an empty message is a message
         size_t n0 = out->buf.size();
         System::log(String(), LogLevel::kError);
         if(System::lastErrorMessage().size()) fail("last-error", "lastErrorMessage() is %s after an empty error message was logged", show(S(System::lastErrorMessage())).c_str());
         if(out->buf.size() <= n0 || out->buf.back() != '\n') fail("log-lost", "an empty error message was not written");
         out->buf.resize(n0);
         probe("empty_message");
      }
      // the console output is a sequence of complete lines
      std::vector<std::string> lines; std::string cur;
      for(char c : out->buf) { if(c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
      if(!cur.empty()) fail("log-torn", "the output ends with an incomplete line %s", show(cur).c_str());
      std::vector<int> next(nThr, 0);
      size_t matched = 0;
      for(std::string l : lines)
      {
         std::string orig = l;
         size_t p = l.find(":");
         size_t mpos = l.find("m", 0);
         LogRec* hit = nullptr;
         for(LogRec& r : recs)
         {
            size_t at = l.find(r.text.substr(0, r.text.find(':') + 1));
            if(at == std::string::npos) continue;
            // expected decoration
            std::string body = l;
            bool dated = !body.empty() && body[0] == '[';
            if(!dates[dated]) fail("log-torn", "the line %s %s", show(orig, 200).c_str(), dated ? "starts with a time stamp" : "does not start with a time stamp");
            if(dated)
            {
               size_t e = body.find("] ");
               if(e == std::string::npos) fail("log-torn", "the line %s does not start with a time stamp", show(orig, 200).c_str());
               body = body.substr(e + 2);
            }
            std::string pre, post; bool fits = false;
            for(LogLevel lab : labs)
            {
            pre = post = "";
            if(r.lv == LogLevel::kError) { pre = "\033[1m\033[31m"; if(r.lv >= lab) pre += "ERROR: "; post = "\033[0m"; }
            else if(r.lv == LogLevel::kWarning) { pre = "\033[1m\033[33m"; if(r.lv >= lab) pre += "WARNING: "; post = "\033[0m"; }
            else if(r.lv == LogLevel::kInformation && r.lv >= lab) pre = "INFO: ";
            if(body == pre + r.text + post) { fits = true; break; }
            }
            if(!fits) fail("log-torn", "the line %s is not the message %s", show(orig, 200).c_str(), show(pre + r.text + post, 200).c_str());
            hit = &r;
            break;
         }
         (void)p; (void)mpos;
         if(!hit) fail("log-torn", "the line %s belongs to no message", show(orig, 200).c_str());
         if(hit->lv == LogLevel::kDebug) fail("log-level", "a debug message was written to the console");
         // order within one thread
         for(int i = next[hit->tid]; i < hit->n; i++) if(recs[hit->tid * per + i].lv != LogLevel::kDebug) fail("log-order", "message %s was written before message %d of the same thread", hit->text.c_str(), i);
         if(hit->n < next[hit->tid]) fail("log-order", "message %s was written twice or out of order", hit->text.c_str());
         next[hit->tid] = hit->n + 1;
         matched++;
      }
      size_t want = 0; for(LogRec& r : recs) want += r.lv != LogLevel::kDebug;
      if(matched != want) fail("log-lost", "%zu of %zu messages were written", matched, want);
   }

   const char* SW_MEASURE = "distinct sequences of context switches (from thread, to thread, instrumented memory access at which it happened)";
   const char* STUB = "thread scheduler, pthread mutex/condition/create/join, clocks, heap, console";
   Registrar r3({"C03", runMutex, 60000, 1500000,
      "0-3 threads enter critical sections of one mutex, 0-3 sleep on it, 1-2 wake them (with and without holding it), under random schedules and stalls. Non-trivial: at least one forced preemption.", SW_MEASURE, "Mutex (instrumented build)", STUB});
   Registrar r4({"C04", runLifecycle, 60000, 1500000,
      "1-3 threads with bodies that end, poll isAlive(), sleep with and without a limit or lock; the owner starts, wakes, queries and interrupts them in random order; thread creation fails on demand. Non-trivial: at least one forced preemption.", SW_MEASURE, "Thread, Exception (instrumented build)", STUB});
   Registrar r5({"C05", runTimedSleep, 60000, 1500000,
      "one thread performs 1-4 timed sleeps of 0 ms to 50 days while the wall clock jumps by up to a year in either direction, the thread is stalled, and another thread wakes it up. Non-trivial: at least one forced preemption or clock jump.", SW_MEASURE, "Thread (instrumented build)", STUB});
   Registrar r6({"C06", runLog, 40000, 800000,
      "1-4 threads log 1-6 messages of random levels with random label and time stamp settings while another reads the last error. Non-trivial: at least one forced preemption.", SW_MEASURE, "System::log, Date, DateFormatter, String, I18nBundle, Mutex (instrumented build)", STUB});
}
