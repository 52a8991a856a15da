// C28: exceptions reach whoever catches them, with everything they were thrown with.
#include "common.h"
#include <exception>
#include <memory>
#include <pthread.h>
using namespace jm;

namespace
{
   // what an exception was thrown with
   struct Thrown { std::u16string msg; u32 tag = 0; int depth = 0; bool noNames = false; std::string tid; };
   std::string tidText() { std::ostringstream o; o << pthread_self(); return o.str(); }
   u32 nextTag;
   std::u16string makeMsg(u32 a)
   {
      static const char16_t al[] = u"abc XYZ 0189.:%\u00e4\u00df\u20ac\u03b1\"\\";
      std::u16string u; u32 n = a % 40, x = a * 2654435761u + 7;
      for(u32 i = 0; i < n; i++) { x = x * 1103515245 + 12345; u += al[(x >> 16) % (sizeof al / 2 - 1)]; }
      return u;
   }
   std::string u8(const std::u16string& u) { return S(JU(u)); }

   // frames of the next exception of this thread
   void place(Thrown& t)
   {
      t.tag = ++nextTag; t.depth = (int)(W(3) ? W(8) : W(40)); t.noNames = Fp(1, 8); t.tid = tidText();
      BtCfg& b = bt[curThread()]; b.on = true; b.tag = t.tag; b.depth = t.depth; b.noNames = t.noNames;
   }

   void checkTrace(const char* what, const std::string& tr, const Thrown& t, const std::string& m)
   {
      if(!m.empty() && tr.find(m) == std::string::npos) fail("trace", "%s does not contain the message %s: %s", what, show(m).c_str(), show(tr, 200).c_str());
      int next = -1; size_t p = 0, n = 0;
      while((p = tr.find("frame<", p)) != std::string::npos)
      {
         unsigned tag, i; size_t e = tr.find('>', p);
         if(e == std::string::npos || sscanf(tr.c_str() + p, "frame<%u/%u>", &tag, &i) != 2) fail("trace", "%s is garbage: %s", what, show(tr, 200).c_str());
         if(tag != t.tag) fail("trace", "%s contains a frame of another exception", what);
         if(next >= 0 ? (int)i != next : i > 1) fail("trace", "%s: frame %u follows frame %d", what, i, next - 1);
         next = (int)i + 1; p = e; n++;
      }
      int want = t.noNames ? 0 : std::min(t.depth - 1, 4);
      if((int)n < want || (int)n > t.depth) fail("trace", "%s has %zu frames, the exception was thrown with %d", what, n, t.depth);
   }

   void check(const Exception& e, const Thrown& t, const char* how)
   {
      std::u16string m = U(e.errorMessage());
      std::string tr = S(e.GetStrackTrace());
      NoPreempt np;
      log("t%d %s: %s", curThread(), how, show(m).c_str());
      if(m != t.msg) fail("message", "%s: the message is %s instead of %s", how, show(m).c_str(), show(t.msg).c_str());
      checkTrace("the stack trace", tr, t, u8(t.msg));
      std::stringstream o; std::streambuf* old = std::cerr.rdbuf(o.rdbuf());
      e.printStackTrace();
      std::cerr.rdbuf(old);
      if(!std::cerr.good()) fail("trace", "the error stream has failed");
      std::string pr = o.str();
      size_t q = pr.find("thread \"");
      if(q == std::string::npos || pr.compare(q + 8, t.tid.size() + 1, t.tid + "\"")) fail("trace", "%s: the printed stack trace does not name the thread that threw it", how);
      pr.replace(q + 8, t.tid.size(), "id");      // differs from process to process
      std::ostringstream shown; shown << JU(t.msg);      // in the charset of streams
      checkTrace("the printed stack trace", pr, t, shown.str());
   }

   struct Guard { int& n; explicit Guard(int& x): n(x) { n++; } ~Guard() { n--; } };
   [[noreturn]] void throwIt(const Thrown& t) { throw Exception(JU(t.msg)); }
   int deep(u32 level, u32 again, const Thrown& t, int& live)
   {
      Guard g(live);
      String local(JU(t.msg)); ByteArray bytes((int64)5, (uint8)level);
      if(level == 0) throwIt(t);
      if(level == again)
      {
         try { return deep(level - 1, again, t, live) + (int)local.size(); }
         catch(const Exception& e) { check(e, t, "halfway"); throw; }
      }
      return deep(level - 1, again, t, live) + (int)bytes.size();
   }

   // errors of the library itself; the message is that of the same error in a single thread
   const u32 kLib = 8;
   std::u16string libMsg[kLib];
   void libThrow(u32 k)
   {
      switch(k)
      {
         case 0: { String s("abc"); s.charAt(7); break; }
         case 1: { String s("12x"); s.toInt(); break; }
         case 2: { StringTokenizer t("a", " ", false); t.next(); t.next(); break; }
         case 3: { Array<int64> a(3); a.get(5); break; }
         case 4: { File f("/home/u"); f.open(FileMode::kWrite); break; }
         case 5: { StringList l; l.append("x"); l.get(4); break; }
         case 6: { Stack<int64> s; s.pop(); break; }
         default: { uint8 b[4] = {7, 0x34, 0x56, 0x78}; uint8* o = nullptr; int64 n = 0; Inflater i(true); i.SetInput(b, 4); i.Inflate(o, n); break; }
      }
   }
   bool libKnown[kLib];

   struct Slot { std::exception_ptr p; Thrown t; };
   std::vector<std::unique_ptr<Slot>> slots;

   void client(u32 nops, bool shared)
   {
      for(u32 n = 0; n < nops; n++)
      {
         Thrown t; t.msg = makeMsg(W(4) ? W(200) : 0);
         u32 op = W(7);
         { NoPreempt np; place(t); }
         int live = 0; bool caught = false;
         switch(op)
         {
            case 0: { u32 lv = W(5); try { deep(lv, W(6), t, live); } catch(const Exception& e) { caught = true; check(e, t, "caught"); } break; }
            case 1:
            {
               std::unique_ptr<Exception> c;
               try { throwIt(t); } catch(const Exception& e) { caught = true; c.reset(new Exception(e)); }
               if(W(2)) { Thrown o; o.msg = u"other"; { NoPreempt np; place(o); } try { throwIt(o); } catch(Exception& e) { check(e, o, "another"); } }
               check(*c, t, "copied"); break;
            }
            case 2:
            {
               Thrown o; o.msg = u"first one"; { NoPreempt np; place(o); }
               Exception a(JU(o.msg));
               { NoPreempt np; place(t); }
               try { throwIt(t); } catch(const Exception& e) { caught = true; check(a, o, "before"); a = e; }
               check(a, t, "assigned"); break;
            }
            case 3:
            {
               try { throwIt(t); }
               catch(...) { caught = true; std::exception_ptr p = std::current_exception(); if(shared) { NoPreempt np; slots.emplace_back(new Slot{p, t}); } else { try { std::rethrow_exception(p); } catch(const Exception& e) { check(e, t, "kept"); } } }
               break;
            }
            case 4:
            {
               caught = true;
               std::exception_ptr p; Thrown w;
               { NoPreempt np; if(slots.size()) { u32 i = W((u32)slots.size()); p = slots[i]->p; w = slots[i]->t; if(W(2)) slots.erase(slots.begin() + i); } }
               if(!p) { yield(); break; }
               try { std::rethrow_exception(p); } catch(const Exception& e) { check(e, w, "thrown elsewhere"); Exception c(e); check(c, w, "copied elsewhere"); if(W(2)) { Exception d(JU(u"another")); d = e; check(d, w, "assigned elsewhere"); } probe("elsewhere"); }
               break;
            }
            case 5:
            {
               u32 k = W(kLib);
               if(!libKnown[k]) { caught = true; break; }
               t.msg = libMsg[k];
               try { libThrow(k); } catch(const Exception& e) { caught = true; check(e, t, "of the library"); probe("library_error"); }
               break;
            }
            default:
            {
               Thrown o; o.msg = makeMsg(W(100));
               try { throwIt(t); }
               catch(const Exception& e)
               {
                  caught = true;
                  { NoPreempt np; place(o); }
                  try { throwIt(o); } catch(const Exception& i) { check(i, o, "inner"); }
                  check(e, t, "outer");
               }
            }
         }
         if(!caught) fail("lost", "an exception was thrown, but nothing was caught");
         if(live) fail("unwinding", "%d frames were not unwound", live);
      }
   }

   void run()
   {
      initLib();
      memset(bt, 0, sizeof bt);
      nextTag = 0;
      static std::streambuf* sunk = new CoutSink(); std::cerr.rdbuf(sunk);
      for(u32 k = 0; k < kLib; k++)
      {
         libKnown[k] = false;
         try { libThrow(k); } catch(const Exception& e) { libKnown[k] = true; libMsg[k] = U(e.errorMessage()); }
         if(!libKnown[k]) fail("lost", "error %u of the library is not reported", k);
         if(libMsg[k].empty()) fail("message", "error %u of the library has no message", k);
      }
      u32 nt = W(4) + 1;
      nontrivial();
      if(nt == 1)
      {
         auto reset = [] { Thrown t; t.msg = u"."; place(t); try { throwIt(t); } catch(const Exception& e) { check(e, t, "caught"); } };
         u32 n = 1 + W(8);
         slots.reserve(100);
         reset(); reset();
         u64 mark = heapMark(), b0 = liveBlocks();
         client(n, false);
         reset();
         if(liveBlocks() > b0) fail("leak", "%llu memory blocks were lost: %s", (unsigned long long)(liveBlocks() - b0), describeLive(mark).c_str());
         return;
      }
      schedConfig(W(2) ? 10 : 3);
      for(u32 i = 0; i < nt; i++) { char nm[16]; snprintf(nm, sizeof nm, "thrower%u", i); u32 n = 1 + W(5); spawn(nm, [=] { client(n, true); }); }
      joinAll();
      for(auto& s : slots) { try { std::rethrow_exception(s->p); } catch(const Exception& e) { check(e, s->t, "thrown after the end of its thread"); } }
      slots.clear();
   }

   Registrar r28({"C28", run, 60000, 500000,
      "1-4 threads that throw 1-8 exceptions each: caught after unwinding several frames, rethrown halfway, copied, assigned, thrown while another one is handled, kept and thrown again by other threads or after the thrower has ended, and those of the library itself; stack traces of every length, also ones whose names are not available.",
      "distinct interleavings (hash over the sequence of context switches and outcomes)",
      "Exception, String, StringList, System (log), StringTokenizer, Array, Stack, Inflater, File (instrumented build)",
      "thread scheduler, stack of the thread (backtrace), file system, heap"});
}
