// C01: reference counted lifetime.  C02: deferred release.
#include "common.h"
using namespace jm;

namespace
{
   struct Model;
   struct Tok { int own = 0; };
   struct Cell
   {
      Object* obj = nullptr;
      int tokens = 0;          // references held by threads
      int pooled = 0;          // autorelease() calls not yet matched by a drain (upper bound)
      int destroyed = 0;
      int inflight = 0;        // release() calls being executed
      int onDestroy = 0;       // 0 nothing, 1 release child, 2 autorelease child, 3 retain+release child, 4 drain
      int child = -1;
      u64 lastPoolInv = 0, lastPoolRet = 0;
      bool mark = false, markKnown = true; int marking = 0; u64 markVer = 0;
   };
   struct DrainRec { u64 inv, ret; };
   struct Model
   {
      std::vector<Cell> c;
      std::vector<DrainRec> drains;
      size_t used = 0;                // cells with an object; the others are for copies
      int drainsOpen = 0;
      std::vector<int> order;         // destruction order
      u64 lastDrainInv = 0, lastDrainRet = 0;
   };
   Model* M;

   class Probe: public Object
   {
      public:
         int id;
         uint64 canary = 0x5151515151515151ull;
         Probe(int i): id(i) {}
         Probe(const Probe& o, int i): Object(o), id(i) {}
         void assign(const Probe& o) { Object::operator=(o); }
         ~Probe() override;
   };
   Probe::~Probe()
   {
      int doit, child;
      {
         NoPreempt np;
         Cell& c = M->c[id];
         log("t%d destroys object %d", curThread(), id);
         if(canary != 0x5151515151515151ull) fail("object-corrupt", "object %d destroyed with corrupt contents", id);
         canary = 0;
         c.destroyed++;
         M->order.push_back(id);
         if(c.destroyed > 1) fail("double-destroy", "object %d was destroyed twice", id);
         if(c.tokens > 0) fail("early-destroy", "object %d was destroyed while %d references to it are held", id, c.tokens);
         doit = c.onDestroy; child = c.child;
         if(child >= 0 && (doit == 1 || doit == 2)) M->c[child].tokens--;
         if(child >= 0 && doit == 2) { M->c[child].pooled++; M->c[child].inflight++; M->c[child].lastPoolInv = seq(); }
      }
      if(child >= 0)
      {
         Object* o = M->c[child].obj;
         if(doit == 1) { M->c[child].inflight++; o->release(); NoPreempt np; M->c[child].inflight--; }
         else if(doit == 2) { o->autorelease(); NoPreempt np; M->c[child].lastPoolRet = seq(); M->c[child].inflight--; probe("autorelease_in_destructor"); if(M->drainsOpen) probe("autorelease_in_destructor_during_drain"); }
         else if(doit == 3) { o->retain(); o->release(); }
      }
   }

   struct Client
   {
      std::vector<int> tok;       // references this thread holds, per object
   };

   void opRelease(Client& k, int i) { Object* o; { NoPreempt np; k.tok[i]--; M->c[i].tokens--; M->c[i].inflight++; o = M->c[i].obj; log("t%d release %d", curThread(), i); } o->release(); NoPreempt np; M->c[i].inflight--; }
   void opRetain(Client& k, int i)
   {
      Object* o = M->c[i].obj;
      Object* r = o->retain();
      NoPreempt np;
      if(r != o) fail("retain-result", "retain() returned another object");
      k.tok[i]++; M->c[i].tokens++;
      log("t%d retained %d", curThread(), i);
   }
   void opAuto(Client& k, int i)
   {
      Object* o;
      { NoPreempt np; k.tok[i]--; M->c[i].tokens--; M->c[i].pooled++; M->c[i].inflight++; M->c[i].lastPoolInv = seq(); o = M->c[i].obj; log("t%d autorelease %d", curThread(), i); }
      Object* r = o->autorelease();
      NoPreempt np;
      if(r != o) fail("autorelease-result", "autorelease() returned another object");
      M->c[i].lastPoolRet = seq(); M->c[i].inflight--;
   }
   void opDrain()
   {
      u64 inv; bool overlap;
      std::vector<int> must;
      {
         NoPreempt np;
         inv = seq(); overlap = M->drainsOpen > 0; M->drainsOpen++; M->lastDrainInv = inv;
         log("t%d drain", curThread());
         // objects only the pool still refers to, and whose autorelease() calls have all returned
         for(size_t i = 0; i < M->c.size(); i++) { Cell& c = M->c[i]; if(!c.destroyed && c.tokens == 0 && c.pooled > 0 && c.inflight == 0) must.push_back((int)i); }
      }
      System::autoreleasePool()->drain();
      NoPreempt np;
      M->drainsOpen--;
      // another drain that started meanwhile may have taken entries over and still be working on them
      if(M->lastDrainInv != inv) overlap = true;
      M->lastDrainRet = seq();
      log("t%d drained", curThread());
      if(!overlap) for(int i : must) if(!M->c[i].destroyed) fail("not-released-by-drain", "object %d was autoreleased before a drain began, nothing else refers to it, and it still exists after the drain", i);
      if(!overlap) probe("drain_alone");
   }

   void clientOps(Client& k, int nops, bool allowHigh, bool allowDrain, bool allowCopy)
   {
      for(int n = 0; n < nops; n++)
      {
         int i = (int)W((u32)k.tok.size());
         u32 op = W(allowCopy ? 10 : 8);
         if(k.tok[i] == 0) { if(op == 7 && allowDrain) opDrain(); else yield(); continue; }
         switch(op)
         {
            case 0: case 1: opRetain(k, i); break;
            case 2: case 3: opRelease(k, i); break;
            case 4: opAuto(k, i); break;
            case 5:
            {
               Object* o = M->c[i].obj;
               int32 rc = o->referenceCount();
               NoPreempt np;
               if(rc < k.tok[i]) fail("count-too-small", "reference count of object %d is %d while one thread alone holds %d references", i, rc, k.tok[i]);
               if(rc > 1000) fail("count-garbage", "reference count of object %d is %d", i, rc);
               break;
            }
            case 6:
               if(allowHigh)
               {
                  Cell& c = M->c[i];
                  if(W(3) == 0)
                  {
                     bool cmp; u64 ver; { NoPreempt np; cmp = c.markKnown && !c.marking; ver = c.markVer; }
                     bool b = c.obj->highBit();
                     NoPreempt np;
                     log("t%d marked %d %d", curThread(), i, b);
                     if(cmp && ver == c.markVer && b != c.mark) fail("mark", "object %d is %s although nobody has changed that", i, b ? "marked" : "not marked");
                     break;
                  }
                  bool b = W(2), alone; u64 ver;
                  { NoPreempt np; alone = c.marking++ == 0; ver = ++c.markVer; c.markKnown = false; }
                  c.obj->setHighBit(b);
                  NoPreempt np;
                  c.marking--;
                  if(alone && ver == c.markVer) { c.mark = b; c.markKnown = true; }
                  log("t%d mark %d %d", curThread(), i, b);
                  probe("mark");
               }
               else yield();
               break;
            case 8:
            {
               int n; { NoPreempt np; n = M->used < M->c.size() ? (int)M->used++ : -1; }
               if(n < 0) { yield(); break; }
               Probe* p = new Probe(*(Probe*)M->c[i].obj, n);
               NoPreempt np;
               M->c[n].obj = p; M->c[n].tokens = 1; k.tok[n] = 1;
               log("t%d copies object %d to %d", curThread(), i, n);
               probe("copy");
               if(p->referenceCount() != 1) fail("count-wrong", "a copy of object %d has count %d, one reference is held", i, p->referenceCount());
               if(p->highBit()) fail("mark", "a copy of object %d is marked although nobody has marked it", i);
               break;
            }
            case 9:
            {
               int o = (int)W((u32)k.tok.size());
               if(k.tok[o] == 0) { yield(); break; }
               bool cmp; u64 ver; { NoPreempt np; Cell& c = M->c[i]; cmp = c.markKnown && !c.marking; ver = c.markVer; }
               ((Probe*)M->c[i].obj)->assign(*(Probe*)M->c[o].obj);
               bool b = M->c[i].obj->highBit();
               NoPreempt np;
               log("t%d assigns object %d to %d", curThread(), o, i);
               if(cmp && ver == M->c[i].markVer && b != M->c[i].mark) fail("mark", "object %d is %s after another one was assigned to it", i, b ? "marked" : "not marked");
               probe("assign");
               break;
            }
            default: if(allowDrain) opDrain(); else yield(); break;
         }
      }
      for(size_t i = 0; i < k.tok.size(); i++) while(k.tok[i] > 0) { if(W(3) == 2) opAuto(k, (int)i); else opRelease(k, (int)i); }
   }

   void finish(const char* what)
   {
      // quiescent: count conservation
      for(size_t i = 0; i < M->c.size(); i++)
      {
         Cell& c = M->c[i];
         if(c.destroyed || !c.obj) continue;
         if(c.markKnown && !c.marking && c.obj->highBit() != c.mark) fail("mark", "object %zu is %s although it was %s last", i, c.mark ? "not marked" : "marked", c.mark ? "marked" : "unmarked");
         int32 rc = c.obj->referenceCount();
         log("object %zu refs %d tokens %d", i, rc, c.tokens);
         if(c.tokens == 0 && c.pooled == 0) fail("leak", "object %zu still exists (%s) although every reference was given up; count %d", i, what, rc);
         if(M->drains.empty() && M->lastDrainInv == 0 && rc != c.tokens + c.pooled) fail("count-wrong", "object %zu has count %d, %d references are outstanding", i, rc, c.tokens + c.pooled);
         if(rc < c.tokens || rc > c.tokens + c.pooled) fail("count-wrong", "object %zu has count %d, between %d and %d references are outstanding", i, rc, c.tokens, c.tokens + c.pooled);
      }
      // deferred: nothing autoreleased after the last drain may be gone
      for(size_t i = 0; i < M->c.size(); i++)
      {
         Cell& c = M->c[i];
         if(c.destroyed && c.lastPoolInv > M->lastDrainRet && c.lastPoolInv && M->drainsOpen == 0)
            fail("released-before-drain", "object %zu was autoreleased after the last drain and is already gone", i);
      }
      // the end of the library drains the pool for the last time
      bool held = false;
      for(size_t i = 0; i < M->c.size(); i++)
      {
         Cell& c = M->c[i];
         if(!c.obj || c.destroyed) continue;
         int owned = 0;
         for(Cell& p : M->c) if(p.obj && !p.destroyed && p.child == (int)i && (p.onDestroy == 1 || p.onDestroy == 2)) owned++;
         held |= c.tokens > owned;
      }
      bool end = !held && W(4) == 1;
      if(end) { M->drainsOpen++; System::quit(); M->drainsOpen--; log("the library has ended"); probe("end"); }
      for(int r = 0; r < 12 && !end; r++)
      {
         bool left = false;
         for(Cell& c : M->c) left |= c.obj && !c.destroyed && c.tokens == 0;
         if(!left && r) break;
         opDrain();
      }
      for(size_t i = 0; i < M->c.size(); i++)
      {
         Cell& c = M->c[i];
         if(c.obj && c.destroyed != 1 && c.tokens == 0) fail("leak", "object %zu was destroyed %d times after all references were given up and the pool was drained", i, c.destroyed);
      }
   }

   void runLifetime(bool poolFocus)
   {
      initLib();
      M = new Model();
      int nObj = 1 + W(poolFocus ? 4 : 3), nThr = 1 + W(4), nops = 1 + (int)Wlen(8);
      bool high = !poolFocus && W(3) == 1;
      bool drain = poolFocus || W(2);
      bool copies = !poolFocus && W(3) == 0;
      int nAll = nObj + (copies ? 4 : 0);
      M->c.resize(nAll); M->used = nObj;
      for(int i = 0; i < nObj; i++) M->c[i].obj = new Probe(i), M->c[i].tokens = 1;
      for(int i = 0; i < nObj; i++)
      {
         if(M->c[i].obj->referenceCount() != M->c[i].tokens) fail("count-wrong", "object has count %d, %d references are held", M->c[i].obj->referenceCount(), M->c[i].tokens);
         // children have larger indices, so ownership is acyclic
         if(i + 1 < nObj && W(poolFocus ? 2 : 4) == 1)
         {
            M->c[i].child = i + 1 + (int)W((u32)(nObj - i - 1));
            M->c[i].onDestroy = 1 + (int)W(2);
            M->c[M->c[i].child].obj->retain(); M->c[M->c[i].child].tokens++;
         }
      }
      std::vector<Client> ks(nThr);
      for(auto& k : ks)
      {
         k.tok.assign(nAll, 0);
         for(int i = 0; i < nObj; i++) if(W(4) < 3) { M->c[i].obj->retain(); k.tok[i]++; M->c[i].tokens++; }
      }
      // main gives its own references up before, during or after the clients' work
      u32 when = W(3);
      Client me; me.tok.assign(nObj, 1);
      if(when == 0) for(int i = 0; i < nObj; i++) { if(W(2)) opAuto(me, i); else opRelease(me, i); }
      schedConfig(1);
      for(int t = 0; t < nThr; t++) { Client* k = &ks[t]; char nm[16]; snprintf(nm, sizeof nm, "client%d", t); spawn(nm, [=] { clientOps(*k, nops, high, drain, copies); }); }
      if(when == 1) { for(int i = 0; i < nObj; i++) { if(W(2)) opAuto(me, i); else opRelease(me, i); } }
      joinAll();
      if(when == 2) for(int i = 0; i < nObj; i++) { if(W(2)) opAuto(me, i); else opRelease(me, i); }
      finish("quiescent");
      // references held through destroyed parents are all gone as well
      for(int i = 0; i < nAll; i++) if(M->c[i].obj && M->c[i].destroyed != 1) fail("leak", "object %d destroyed %d times", i, M->c[i].destroyed);
   }

   // order and exactly-once of deferred releases, one producer per group, drains racing
   void runDeferred()
   {
      if(W(2)) { runLifetime(true); return; }
      initLib();
      M = new Model();
      int nThr = 1 + W(3), per = 1 + (int)Wlen(6);
      bool drainer = W(2);
      int total = nThr * per;
      M->c.resize(total);
      schedConfig(1);
      for(int i = 0; i < total; i++) { M->c[i].obj = new Probe(i); M->c[i].tokens = 1; }
      u32 extra = W(3);
      for(int t = 0; t < nThr; t++)
      {
         char nm[16]; snprintf(nm, sizeof nm, "producer%d", t);
         spawn(nm, [=] {
            Client k; k.tok.assign(total, 0);
            for(int i = t * per; i < (t + 1) * per; i++)
            {
               k.tok[i] = 1;
               // several autoreleases of one object must each count
               for(u32 e = 0; e < extra; e++) { opRetain(k, i); }
               for(u32 e = 0; e < extra; e++) { opAuto(k, i); }
               opAuto(k, i);
               if(W(5) == 4) opDrain();
            }
         });
      }
      if(drainer) spawn("drainer", [=] { for(int i = 0; i < 3; i++) { opDrain(); yield(); } });
      joinAll();
      finish("quiescent");
      // within one thread: first autoreleased, first released
      std::vector<int> pos(total, -1);
      for(size_t i = 0; i < M->order.size(); i++) pos[M->order[i]] = (int)i;
      if(!drainer && nThr == 1)
         for(int i = 1; i < per; i++) if(pos[i] < pos[i - 1]) fail("release-order", "object %d was autoreleased after object %d but released before it", i, i - 1);
   }

   Registrar r1({"C01", [] { runLifetime(false); }, 60000, 1500000,
      "1-3 reference counted objects (some owning others), 1-4 client threads plus main; each thread retains, releases, autoreleases, marks and drains references it holds, or copies and assigns the objects; every memory access and lock operation of the library is a preemption point. Non-trivial: at least one forced preemption happened.",
      "distinct sequences of context switches (from thread, to thread, instrumented memory access at which it happened)",
      "Object, AutoreleasePool, Mutex, System, String, Exception (instrumented build of /repo/src/core)",
      "thread scheduler, pthread mutex/condition/create/join, clock, heap"});
   Registrar r2({"C02", runDeferred, 60000, 1500000,
      "producers autorelease objects (several times each) while other threads drain; destructors release or autorelease owned objects, also while a drain runs. Non-trivial: at least one forced preemption happened.",
      "distinct sequences of context switches (from thread, to thread, instrumented memory access at which it happened)",
      "Object, AutoreleasePool, Mutex, System (instrumented build of /repo/src/core)",
      "thread scheduler, pthread mutex/condition/create/join, clock, heap"});
}
