// C30: a run of tests counts every check and every failure.
#include "common.h"
#include <climits>
#include <cmath>
using namespace jm;

namespace
{
   struct Want { i64 tests = 0, errors = 0; std::vector<std::string> failed, passed; std::string thrown; };
   u32 serial = 0;
   bool gQuiet = false;         // the doTest() of a warm up does nothing special

   struct Case: public Test
   {
      std::vector<u32> script;    // kinds of steps
      Want w;                     // what this execution must amount to
      int calls = 0;
      std::string text;

      String msg(bool pass) { char b[32]; snprintf(b, sizeof b, "m%u;", ++serial); (pass ? w.passed : w.failed).push_back(b); w.tests++; w.errors += !pass; return J(b); }
      static i64 ed() { static const i64 e[] = {0, 1, -1, INT_MAX, INT_MIN, (i64)UINT_MAX, LLONG_MAX, LLONG_MIN, 255, 1 << 16, 7, -7}; return e[W(12)]; }
      template<class A, class B> void ints(bool same)
      {
         A a = (A)ed(); B b = same ? (B)a : (B)ed();
         bool eq = (__int128)a == (__int128)b;
         log("compare %lld %lld: %d", (long long)a, (long long)b, eq);
         testEquals(a, b, msg(eq));
      }
      static String word(u32 k) { static const char16_t* w[] = {u"", u"a", u"A", u"b", u"ab", u"AB", u"\u00e4\u00f6", u"\u00c4\u00d6", u"m", u"%1"}; return JU(w[k]); }
      void step(u32 k)
      {
         bool same = W(2);
         switch(k)
         {
            case 0: ints<int64, int64>(same); break;
            case 1: ints<int64, int32>(same); break;
            case 2: ints<uint64, uint64>(same); break;
            case 3: ints<uint64, int32>(same); break;
            case 4: ints<uint64, uint32>(same); break;
            case 5: ints<int32, int32>(same); break;
            case 6: ints<uint32, uint32>(same); break;
            case 7: ints<uint32, int32>(same); break;
            case 8: ints<int32, uint32>(same); break;
            case 9:
            {
               static const double d[] = {0, 1, -1, 0.001, 1e9, 12345.678, NAN, INFINITY};
               u32 a = W(8), b = same ? a : W(8); if(a == 7 && b == 7) b = 0;
               double x = d[a], y = d[b];
               testEquals(x, y, msg(x == y));
               break;
            }
            case 10: { void* a = W(3) ? (void*)(0x1000 + 8ul * W(2)) : nullptr; void* b = same ? a : W(3) ? (void*)(0x1000 + 8ul * W(2)) : nullptr; testEquals(a, b, msg(a == b)); break; }
            case 11: { u32 a = W(10), b = same ? a : W(10); testEquals(word(a), word(b), msg(a == b)); break; }
            case 12: { static const int cls[] = {0, 1, 1, 2, 3, 3, 4, 4, 5, 6}; u32 a = W(10), b = same ? a : W(10); testEqualsIgnoreCase(word(a), word(b), msg(cls[a] == cls[b])); break; }
            case 13: testNull(same ? nullptr : this, msg(same)); break;
            case 14: testNotNull(same ? this : nullptr, msg(same)); break;
            case 15: testTrue(same, msg(same)); break;
            case 16: testFalse(!same, msg(same)); break;
            case 17: testFail(msg(false)); break;
            case 18: setErrorCode(word(W(10))); break;
            case 19: { try { throw Exception(String("inner")); } catch(const Exception&) { testUnexpectedException(msg(false)); } break; }
            case 20:   // input and output that may fail
            {
               File f(J("/tmp/t")); std::string d = genBytes(1 + W(40), 2, 1);
               bool open = false;
               try
               {
                  f.open(FileMode::kWrite); open = f.isOpen();
                  if(!open) throw Exception(String("not opened"));
                  int64 n = f.write((const uint8*)d.data(), (int64)d.size());
                  testEquals((int64)n, (int64)d.size(), msg(n == (int64)d.size()));
                  f.close(); open = false;
               }
               catch(const Exception&) { if(open) { FaultCfg c = faults; faults = FaultCfg(); threw([&] { f.close(); }); faults = c; } probe("stopped_by_io_error"); throw; }
               break;
            }
            default: { String m = msg(false); w.thrown = w.failed.back(); probe("exception_in_a_test"); throw Exception(m); }
         }
      }
      void doTest() override
      {
         calls++;
         w = Want();
         bool io = false;
         try { for(u32 k : script) { io = k == 20; step(k); } }
         catch(const Exception&) { if(io) { w.tests++; w.errors++; } throw; }
      }
   };

   i64 number(const std::string& out, const char* what, size_t from)
   {
      size_t p = out.find(what, from);
      if(p == std::string::npos) fail("report", "the report does not say \"%s\"", what);
      p += strlen(what);
      while(p < out.size() && out[p] == ' ') p++;
      return atoll(out.c_str() + p);
   }

   struct Vec
   {
      TestVector* v; std::vector<Case*> c; int single = -1;
      explicit Vec(const char* arg)
      {
         const char* argv[] = {"tests", arg, "more", nullptr};
         v = arg ? new TestVector(W(2) ? 2 : 3, argv) : new TestVector((int)W(2), argv);
      }
      ~Vec() { delete v; }
      void add(Case* t) { v->addTest(t); c.push_back(t); }
   };

   void execute(Vec& x, CoutSink* sink)
   {
      for(Case* t : x.c) if(t) t->calls = 0;
      sink->buf.clear();
      i64 r = x.v->execute();
      std::string out = sink->buf;
      for(size_t p = 0, q; p < out.size(); p = q + 1) { q = out.find('\n', p); if(q == std::string::npos) q = out.size(); if(out.compare(p, 9, "Duration:")) log("> %s", show(out.substr(p, q - p), 120).c_str()); }
      Want all;
      size_t at = 0;
      for(size_t i = 0; i < x.c.size(); i++)
      {
         Case* t = x.c[i];
         if(!t) continue;
         bool due = x.single < 0 || (int)i == x.single;
         if(t->calls != due) fail("executed", "test %zu was executed %d times instead of %d", i, t->calls, due);
         if(!due) continue;
         all.tests += t->w.tests; all.errors += t->w.errors;
         // the report of this test
         size_t end = out.find("Test finished!", at);
         if(end == std::string::npos) fail("report", "the end of test %zu is not reported", i);
         std::string part = out.substr(at, end - at);
         if(part.find(S(t->name())) == std::string::npos) fail("report", "the start of test %zu (%s) is not reported", i, show(S(t->name())).c_str());
         for(auto& m : t->w.failed) { size_t p = part.find(m); if(p == std::string::npos) fail("report", "failure %s is not reported", m.c_str()); if(m != t->w.thrown && part.find(m, p + 1) != std::string::npos) fail("report", "failure %s is reported twice", m.c_str()); }
         for(auto& m : t->w.passed) if(part.find(m) != std::string::npos) fail("report", "%s is reported, but it has not failed", m.c_str());
         i64 n = number(out, "Test finished!", end), e = -1;
         size_t c = out.find(',', end); if(c != std::string::npos) e = atoll(out.c_str() + c + 1);
         if(n != t->w.tests || e != t->w.errors) fail("count", "test %zu reports %lld checks and %lld errors instead of %lld and %lld", i, (long long)n, (long long)e, (long long)t->w.tests, (long long)t->w.errors);
         at = out.find('\n', end);
         if(at == std::string::npos) at = out.size();
      }
      log("execute: %lld errors, %lld checks", (long long)r, (long long)all.tests);
      if(r != all.errors) fail("count", "execute() returns %lld instead of %lld errors", (long long)r, (long long)all.errors);
      if(gTotalTestCount != all.tests || gTotalErrorCount != all.errors) fail("count", "the totals are %lld and %lld instead of %lld and %lld", (long long)gTotalTestCount, (long long)gTotalErrorCount, (long long)all.tests, (long long)all.errors);
      i64 n = number(out, "Tests:", at), e = number(out, "Errors:", at);
      if(n != all.tests || e != all.errors) fail("count", "the report says %lld checks and %lld errors instead of %lld and %lld", (long long)n, (long long)e, (long long)all.tests, (long long)all.errors);
   }

   void run()
   {
      setStepCap(50000000);
      fsMkdirs("/tmp");
      initLib();
      static CoutSink* sink = new CoutSink();
      static CoutSink* err = nullptr; { std::streambuf* o = std::cout.rdbuf(); err = new CoutSink(); std::cout.rdbuf(o); std::cerr.rdbuf(err); }
      sink->buf.reserve(100000); err->buf.reserve(100000);
      // the first errors and messages set up what the library keeps
      {
         Vec x(nullptr); Case* t = new Case; t->setName(String("warm up")); t->script = {0, 9, 11, 17, 19, 20, 21}; x.add(t);
         x.v->execute();
      }
      System::logEnableDate(W(3) == 2); 
      u32 rounds = 1 + W(3);
      nontrivial();
      for(u32 k = 0; k < rounds; k++)
      {
         u32 n = Wlen(5);
         static const char* args[] = {nullptr, nullptr, "0", "1", "2", "7", "all", "1x", ""};
         u32 a = W(9);
         u64 mark = heapMark(), b0 = liveBlocks();
         { String m("x"); System::log(m, LogLevel::kError); b0 = liveBlocks(); }
         {
            Vec x(args[a]);
            x.single = a == 2 ? 0 : a == 3 ? 1 : a == 4 ? 2 : a == 5 ? 7 : -1;
            for(u32 i = 0; i < n; i++)
            {
               if(W(12) == 11) { x.add(nullptr); continue; }
               Case* t = new Case; char b[24]; snprintf(b, sizeof b, "Case <%u.%u>", k, i); t->setName(J(b));
               u32 l = Wlen(8); for(u32 j = 0; j < l; j++) t->script.push_back(W(22));
               x.add(t);
            }
            if(W(2)) { faults.mask = FK_OPEN_ERR | FK_WRITE_ERR | FK_CLOSE_ERR | FK_ENOSPC | FK_SHORT_WRITE; faults.perMille = 50 + W(400); }
            execute(x, sink);
            if(W(3) == 2) { probe("executed_again"); execute(x, sink); }
            faults = FaultCfg();
         }
         { String m("x"); System::log(m, LogLevel::kError); }
         if(fsOpenHandles()) fail("leak", "a file was left open");
         if(liveBlocks() > b0) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - b0), describeLive(mark).c_str());
      }
   }

   Registrar r30({"C30", run, 30000, 400000,
      "1-3 runs of 0-5 tests with 0-8 steps each: every kind of check with equal, different and edge values, failures reported by hand, exceptions, and input and output that fails under injected disk errors; all tests or one chosen on the command line, executed once or twice. Every execution is compared with a count of its own: number of calls, checks, failures, messages and totals.",
      "distinct executions (hash over workload, faults and outcomes)",
      "Test, TestVector, System (log), Exception, File, String (instrumented build)", "file system, console, heap, clock"});
}
