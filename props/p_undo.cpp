// C21: undo, redo and transactions against a model of snapshots.
#include "common.h"
#include <algorithm>
using namespace jm;

namespace
{
   int gAlive;
   struct Obj: public EditableObject
   {
      int id;
      int8 i8 = 0; uint8 u8_ = 0; int16 i16 = 0; uint16 u16_ = 0; int32 i32 = 0; uint32 u32_ = 0; int64 i64_ = 0; uint64 u64_ = 0;
      float f = 0; double d = 0; bool b = false; String s; Date date = Date((int64)0); Color c; Vertex2 v2; Vertex3 v3;
      Obj* ref = nullptr;
      bool derives = false; int64 derived = 0;      // calculated from i32 whenever the object is regenerated
      Obj(Document* doc, int n): EditableObject(doc), id(n) { gAlive++; }
      void regenerate() override { EditableObject::regenerate(); if(derives) setMember(&derived, (int64)i32 * 3); }
      ~Obj() override { gAlive--; }
      String displayName() const override { return "Obj"; }
   };
   const int kMembers = 17;

   struct Doc: public Document
   {
      bool saveDocument() override { return true; }
      bool loadDocument() override { return true; }
      Status initNewDocument(Preferences*) override { return Status::eOK; }
   };

   template<class T> std::string raw(const T& v) { return std::string((const char*)&v, sizeof(T)); }
   std::string member(Obj* o, int m)
   {
      switch(m)
      {
         case 0: return raw(o->i8); case 1: return raw(o->u8_); case 2: return raw(o->i16); case 3: return raw(o->u16_);
         case 4: return raw(o->i32); case 5: return raw(o->u32_); case 6: return raw(o->i64_); case 7: return raw(o->u64_);
         case 8: return raw(o->f); case 9: return raw(o->d); case 10: return raw(o->b); case 11: return S(o->s);
         case 12: return std::to_string(o->date.time());
         case 13: return std::to_string((int)o->c.red()) + "," + std::to_string((int)o->c.green()) + "," + std::to_string((int)o->c.blue()) + "," + std::to_string((int)o->c.alpha()) + "," + std::to_string((int)o->c.mode());
         case 14: return raw(o->v2.x) + raw(o->v2.y);
         case 16: return raw(o->derived);
         default: return raw(o->v3.x) + raw(o->v3.y) + raw(o->v3.z);
      }
   }

   struct State
   {
      std::map<int, std::vector<std::string>> val;      // objects that exist (owned) and their members
      std::map<int, int> ref;                           // -1: none
      std::vector<int> list[2];
      bool operator==(const State& o) const { return val == o.val && ref == o.ref && list[0] == o.list[0] && list[1] == o.list[1]; }
   };
   struct Step { State before, after; std::set<int> mentioned, marked; u32 changes = 0; };

   struct World
   {
      Doc* doc = nullptr; UndoManager* um = nullptr; LinkedList* list[2];
      std::map<int, Obj*> obj;
      int nextId = 0;
      State cur;
      std::vector<Step> undo, redo; Step open, txn; int level = 0; Status txnStatus = Status::eOK;
      std::vector<Step> gone;
   };
   World* w;

   Obj* O(int id) { return w->obj.at(id); }
   // a change of `id` is registered (the caller told the undo manager)
   void reg(std::initializer_list<int> ids)
   {
      if(!w->um) return;
      Step& t = w->level ? w->txn : w->open;
      if(!w->level) { if(!t.changes) t.before = w->cur; w->redo.clear(); }
      t.changes++;
      for(int i : ids) t.mentioned.insert(i);
   }
   void upd(int id, int m) { w->cur.val[id][(size_t)m] = member(O(id), m); }

   double genDouble() { switch(W(6)) { case 0: return 0; case 1: return -0.0; case 2: return 1e300; case 3: return -1.5 * W(100); default: return (double)W(1000) / 7; } }

   bool contains(int l, int id) { auto& v = w->cur.list[l]; return std::find(v.begin(), v.end(), id) != v.end(); }
   std::vector<int> owned() { std::vector<int> v; for(auto& x : w->cur.val) v.push_back(x.first); return v; }

   void create()
   {
      int id = w->nextId++;
      Obj* o = new Obj(w->doc, id);
      o->derives = W(2);
      w->obj[id] = o;
      reg({id});
      if(w->um) w->um->registerRetain(o);
      std::vector<std::string> v; for(int m = 0; m < kMembers; m++) v.push_back(member(o, m));
      w->cur.val[id] = v; w->cur.ref[id] = -1;
      log("create %d", id);
   }

   void setRef(int id, int to)
   {
      Obj* o = O(id); Obj* n = to < 0 ? nullptr : O(to);
      int old = w->cur.ref[id];
      reg({id}); if(old >= 0) reg({old}); if(to >= 0) reg({to});
      if(w->um) w->um->registerChange(o, (Object**)&o->ref);
      if(o->ref) { if(w->um) w->um->registerRelease(o->ref); o->ref->release(); }
      o->ref = n;
      if(n) { if(w->um) w->um->registerRetain(n); n->retain(); }
      w->cur.ref[id] = to;
   }

   void listOp(int l, u32 op, int a, int b)
   {
      LinkedList* L = w->list[l]; auto& v = w->cur.list[l];
      switch(op)
      {
         case 0: reg({a}); L->add(O(a), w->um); v.push_back(a); log("list%d add %d", l, a); break;
         case 1:
         {
            auto i = std::find(v.begin(), v.end(), b);
            if(i != v.end()) reg({a, b});
            L->addBefore(O(b), O(a), w->um);
            if(i != v.end()) v.insert(i, a);
            log("list%d add %d before %d", l, a, b); break;
         }
         case 2:
         {
            auto i = std::find(v.begin(), v.end(), a);
            bool has = i != v.end();
            if(has) reg({a});
            Status s = L->remove(O(a), w->um);
            if(s != (has ? Status::eOK : Status::eNotFound)) fail("list", "remove() of an object that is %sin the list returned %d", has ? "" : "not ", (int)s);
            if(has) v.erase(i);
            log("list%d remove %d", l, a); break;
         }
         case 3:
         {
            if(a == b || std::count(v.begin(), v.end(), a) > 1 || std::count(v.begin(), v.end(), b) > 1) break;
            bool has = contains(l, a) && contains(l, b);
            if(has) reg({a, b});
            L->swapData(O(a), O(b), w->um);
            if(has) for(auto& x : v) x = x == a ? b : x == b ? a : x;
            log("list%d swap %d %d", l, a, b); break;
         }
         default:
            if(!v.empty()) for(int x : v) reg({x});
            L->clear(w->um); v.clear();
            log("list%d clear", l); break;
      }
   }

   void destroy(int id)
   {
      for(int l = 0; l < 2; l++) while(contains(l, id)) listOp(l, 2, id, 0);
      for(int h : owned()) if(w->cur.ref[h] == id) setRef(h, -1);
      if(w->cur.ref[id] >= 0) setRef(id, -1);
      Obj* o = O(id);
      reg({id});
      w->cur.val.erase(id); w->cur.ref.erase(id);
      if(w->um) w->um->registerRelease(o);
      o->release();
      log("destroy %d", id);
   }

   // a member is changed directly
   void direct(int id, int m)
   {
      Obj* o = O(id); UndoManager* um = w->um;
      reg({id});
      switch(m)
      {
         case 0: if(um) um->registerChange(o, &o->i8); o->i8 = (int8)W(256); break;
         case 1: if(um) um->registerChange(o, &o->u8_); o->u8_ = (uint8)W(256); break;
         case 2: if(um) um->registerChange(o, &o->i16); o->i16 = (int16)W64(); break;
         case 3: if(um) um->registerChange(o, &o->u16_); o->u16_ = (uint16_t)W64(); break;
         case 4:
         {
            if(um) um->registerChange(o, &o->i32);
            o->i32 = (int32)W64();
            if(o->derives && o->derived != (int64)o->i32 * 3) { reg({id}); o->regenerate(); upd(id, 16); probe("derived_member"); }
            break;
         }
         case 5: if(um) um->registerChange(o, &o->u32_); o->u32_ = (uint32)W64(); break;
         case 6: if(um) um->registerChange(o, &o->i64_); o->i64_ = (int64)W64(); break;
         case 7: if(um) um->registerChange(o, &o->u64_); o->u64_ = (uint64)W64(); break;
         case 8: if(um) um->registerChange(o, &o->f); o->f = (float)genDouble(); break;
         case 9: if(um) um->registerChange(o, &o->d); o->d = genDouble(); break;
         case 10: if(um) um->registerChange(o, &o->b); o->b = !o->b; break;
         case 11: if(um) um->registerChange(o, &o->s); o->s = J(std::string(Wlen(40), (char)('a' + W(26)))); break;
         case 12: if(um) um->registerChange(o, &o->date); o->date = Date((int64)W64() % 4000000000000LL); break;
         case 13: if(um) um->registerChange(o, &o->c); o->c = W(2) ? Color::fromRgb((uint8)W(256), (uint8)W(256), (uint8)W(256), (uint8)W(256)) : Color::fromCmyk((uint8)W(256), (uint8)W(256), (uint8)W(256), (uint8)W(256), (uint8)W(256)); break;
         case 14: if(um) um->registerChange(o, &o->v2); o->v2 = Vertex2(genDouble(), genDouble()); break;
         default: if(um) um->registerChange(o, &o->v3); o->v3 = Vertex3(genDouble(), genDouble(), genDouble()); break;
      }
      upd(id, m);
      log("object %d member %d", id, m);
   }

   // a member is changed by setMember(), which refuses invalid values and ignores equal ones
   void viaSet(int id)
   {
      Obj* o = O(id);
      Status st = Status::eOK, want = Status::eOK; int m; bool same = W(4) == 0;
      UndoManager* um = w->um;
      // what will be registered has to be known before
      switch(W(7))
      {
         case 0: { m = 11; String v = same ? o->s : J(std::string(Wlen(20), (char)('a' + W(26)))); want = v.equals(o->s) ? Status::eNotChanged : Status::eOK; if(want == Status::eOK) reg({id}); st = o->setMember(&o->s, v); if(want == Status::eOK && !o->s.equals(v)) fail("set-member", "setMember() did not set the text"); break; }
         case 1:
         {
            m = 6; i64 lo = W(2) ? INT64_MIN : -10, hi = W(2) ? INT64_MAX : 1000; i64 v = same ? o->i64_ : W(3) ? (i64)W(2000) - 500 : (i64)W64();
            want = v == o->i64_ ? Status::eNotChanged : v < lo || v > hi ? Status::eInvalidInput : Status::eOK;
            if(want == Status::eOK) reg({id});
            if(want == Status::eInvalidInput && um) w->txnStatus = want;
            st = lo == INT64_MIN && hi == INT64_MAX && W(2) ? o->setMember(&o->i64_, v) : o->setMember(&o->i64_, v, lo, hi);
            i64 now = o->i64_; if(want == Status::eOK && now != v) fail("set-member", "setMember() did not set the number");
            break;
         }
         case 2: { m = 9; double v = same ? o->d : W(6) ? genDouble() : NAN; want = v != v ? Status::eInvalidInput : v == o->d ? Status::eNotChanged : Status::eOK; if(want == Status::eOK) reg({id}); st = o->setMember(&o->d, v); if(want == Status::eOK && o->d != v) fail("set-member", "setMember() did not set the number"); break; }
         case 3: { m = 10; bool v = W(2); want = v == o->b ? Status::eNotChanged : Status::eOK; if(want == Status::eOK) reg({id}); st = o->setMember(&o->b, v); if(o->b != v) fail("set-member", "setMember() did not set the truth value"); break; }
         case 4: { m = 1; uint8 v = same ? o->u8_ : (uint8)W(256); want = v == o->u8_ ? Status::eNotChanged : Status::eOK; if(want == Status::eOK) reg({id}); st = o->setMember(&o->u8_, v); if(o->u8_ != v) fail("set-member", "setMember() did not set the number"); break; }
         case 5: { m = 2; int16 v = same ? o->i16 : (int16)W64(); want = v == o->i16 ? Status::eNotChanged : Status::eOK; if(want == Status::eOK) reg({id}); st = o->setMember(&o->i16, v); if(o->i16 != v) fail("set-member", "setMember() did not set the number"); break; }
         default:
         {
            m = 15; Vertex3 v = same ? o->v3 : Vertex3(W(20), W(20), W(20));
            want = v.x == o->v3.x && v.y == o->v3.y && v.z == o->v3.z ? Status::eNotChanged : Status::eOK; if(want == Status::eOK && v == o->v3) return;  // equality of vertices is tolerant
            if(want == Status::eOK) reg({id}); st = o->setMember(&o->v3, v); if(want == Status::eOK && !(o->v3.x == v.x && o->v3.y == v.y && o->v3.z == v.z)) fail("set-member", "setMember() did not set the vertex"); break;
         }
      }
      log("object %d setMember %d -> %d", id, m, (int)st);
      if(st != want) fail("set-member", "setMember() of member %d returned %d instead of %d", m, (int)st, (int)want);
      std::string now = member(o, m);
      if(st != Status::eOK && now != w->cur.val[id][(size_t)m]) fail("set-member", "setMember() returned %d but member %d changed", (int)st, m);
      if(st != Status::eOK) probe("change_refused");
      upd(id, m);
   }

   void checkList(int l)
   {
      LinkedList* L = w->list[l]; auto& v = w->cur.list[l];
      std::vector<int> got, got2; size_t guard = v.size() + 5;
      LinkedListIterator it = L->iterator();
      while(it.hasNext() && got.size() < guard) { Object* s = it.seek(); Object* n = it.next(); if(s != n) fail("list", "seek() and next() of an iterator differ"); if(!n || !memAlive(n)) fail("list", "list %d contains an object that does not exist", l); got.push_back(static_cast<Obj*>(n)->id); }
      {
         // a copy and an assigned iterator go on where the first one is
         LinkedListIterator i1 = L->iterator(), i3 = L->iterator(); u32 k = W((u32)v.size() + 1); for(u32 q = 0; q < k; q++) i1.next();
         LinkedListIterator i2(i1); i3 = i1; i3 = i3;
         for(size_t q = k; q < v.size(); q++) if(!i2.hasNext() || i2.next() != i3.next()) fail("list", "a copied and an assigned iterator of list %d differ", l); else if(i1.next() != O(v[q])) fail("list", "an iterator of list %d was moved by its copy", l);
         if(i1.hasNext() || i2.hasNext() || i3.hasNext()) fail("list", "an iterator of list %d does not end", l);
      }
      L->rewind();
      while(L->hasNext() && got2.size() < guard) { Object* n = L->next(); if(!n || !memAlive(n)) fail("list", "list %d contains an object that does not exist", l); got2.push_back(static_cast<Obj*>(n)->id); }
      auto str = [](const std::vector<int>& x) { std::string s; for(int i : x) s += " " + std::to_string(i); return s; };
      if(got != v) fail("list", "list %d is%s instead of%s", l, str(got).c_str(), str(v).c_str());
      if(got2 != v) fail("list", "list %d is iterated as%s instead of%s", l, str(got2).c_str(), str(v).c_str());
      if(L->size() != v.size()) fail("list", "size() of list %d is %u instead of %zu", l, L->size(), v.size());
      Object* f = L->first(); Object* e = L->last();
      if(v.empty() ? f || e : !f || !e || static_cast<Obj*>(f)->id != v.front() || static_cast<Obj*>(e)->id != v.back()) fail("list", "first() or last() of list %d is wrong", l);
   }

   bool mentionedAnywhere(int id)
   {
      for(auto& s : w->undo) if(s.mentioned.count(id)) return true;
      for(auto& s : w->redo) if(s.mentioned.count(id)) return true;
      return (w->open.changes && w->open.mentioned.count(id)) || (w->level && w->txn.mentioned.count(id));
   }

   void check(const char* after)
   {
      for(auto& x : w->cur.val)
      {
         Obj* o = O(x.first);
         if(!memAlive(o)) fail("lifetime", "object %d was destroyed although it is part of the document (after %s)", x.first, after);
         for(int m = 0; m < kMembers; m++) if(member(o, m) != x.second[(size_t)m]) fail("state", "member %d of object %d is wrong after %s", m, x.first, after);
         int r = w->cur.ref[x.first];
         if((r < 0) != (o->ref == nullptr) || (r >= 0 && o->ref != O(r))) fail("state", "the reference of object %d is wrong after %s", x.first, after);
      }
      for(int l = 0; l < 2; l++) checkList(l);
      for(auto& x : w->obj)
      {
         bool m = mentionedAnywhere(x.first), own = w->cur.val.count(x.first) != 0;
         if(m && !memAlive(x.second)) fail("lifetime", "object %d was destroyed although a step can restore it (after %s)", x.first, after);
      }
      int must = 0, may = 0;
      for(auto& x : w->obj) { if(w->cur.val.count(x.first)) must++; else if(mentionedAnywhere(x.first)) may++; }
      if(gAlive != must + may) fail("lifetime", "%d objects exist instead of %d (after %s)", gAlive, must + may, after);
      for(auto i = w->obj.begin(); i != w->obj.end(); ) if(!w->cur.val.count(i->first) && !mentionedAnywhere(i->first)) i = w->obj.erase(i); else ++i;
      if(!w->um) return;
      if(w->um->undoCount() != w->undo.size() || w->um->redoCount() != w->redo.size()) fail("count", "undoCount %u redoCount %u instead of %zu %zu after %s", w->um->undoCount(), w->um->redoCount(), w->undo.size(), w->redo.size(), after);
      if(w->um->hasOpenUndoStep() != (w->open.changes > 0)) fail("open-step", "hasOpenUndoStep() is %d after %s", w->um->hasOpenUndoStep(), after);
      if(w->um->hasOpenTransaction() != (w->level > 0)) fail("open-transaction", "hasOpenTransaction() is %d after %s", w->um->hasOpenTransaction(), after);
   }

   void closeStep()
   {
      if(!w->um) return;
      bool had = w->open.changes;
      if(W(2)) w->doc->setDocumentChanged(false); else had = had && true;
      if(W(2)) w->doc->closeUndoStep(); else w->um->close();
      if(had)
      {
         // what a transaction changed so far belongs to the step after it
         if(w->level) probe("closed_in_transaction");
         w->open.after = w->level ? w->txn.before : w->cur; w->undo.push_back(w->open); w->open = Step();
         if(!w->doc->isDocumentChanged()) fail("changed", "the document does not count as changed after a step was closed");
      }
      log("close step");
   }

   void undoRedo(bool un)
   {
      if(!w->um || w->level) return;
      auto& from = un ? w->undo : w->redo; auto& to = un ? w->redo : w->undo;
      bool can = !w->open.changes && !from.empty();
      w->doc->setDocumentChanged(false);
      for(auto& x : w->cur.val) O(x.first)->regenerationDone();
      bool r = un ? w->um->undo() : w->um->redo();
      log("%s -> %d", un ? "undo" : "redo", r);
      if(r != can) fail("undo-refused", "%s() returned %d with %zu steps and %sopen step", un ? "undo" : "redo", r, from.size(), w->open.changes ? "an " : "no ");
      if(!can) return;
      Step s = from.back(); from.pop_back(); to.push_back(s);
      State old = w->cur;
      w->cur = un ? s.before : s.after;
      if(!w->doc->isDocumentChanged()) fail("changed", "the document does not count as changed after %s", un ? "undo" : "redo");
      for(auto& x : w->cur.val)
      {
         auto o = old.val.find(x.first);
         if(o != old.val.end() && (o->second != x.second || old.ref[x.first] != w->cur.ref[x.first]) && !O(x.first)->shouldRegenerate()) fail("regenerate", "object %d was changed by %s but need not be drawn again", x.first, un ? "undo" : "redo");
      }
      for(int id : s.marked) if(memAlive(O(id)) && !O(id)->shouldRegenerate()) fail("regenerate", "object %d was marked in the step but need not be drawn again after %s", id, un ? "undo" : "redo");
      if(!(s.before == s.after)) nontrivial();
      probe(un ? "undone" : "redone");
   }

   void transaction(u32 what)
   {
      UndoManager* um = w->um;
      if(!um) return;
      if(what == 0)
      {
         bool viaObj = !w->cur.val.empty() && W(2);
         if(viaObj) O(owned()[0])->openTransaction(); else um->openTransaction();
         if(w->level++ == 0) { w->txn = Step(); w->txn.before = w->cur; w->txnStatus = Status::eOK; }
         log("open transaction (level %d)", w->level);
         if(w->level > 1) probe("nested_transaction");
         return;
      }
      if(!w->level) return;
      static const Status bad[] = {Status::eInvalidInput, Status::eError, Status::eNotAllowed, Status::eNotImplemented, Status::eNullPointer, Status::eIndexOutOfBounds, Status::eNotFound, Status::eTimeout, Status::eNoDirectory};
      if(what == 1) { Status s = W(3) ? (W(2) ? Status::eOK : Status::eNotChanged) : bad[W(sizeof bad / sizeof *bad)]; um->registerTransactionStatus(s); if(s != Status::eOK && s != Status::eNotChanged) w->txnStatus = s; log("status %d", (int)s); if(um->transactionStatus() != w->txnStatus) fail("transaction-status", "transactionStatus() is %d", (int)um->transactionStatus()); return; }
      bool commit;
      if(what == 2)
      {
         commit = w->txnStatus == Status::eOK;
         Status exp = w->txnStatus;
         bool viaObj = !w->cur.val.empty() && W(2);
         Status r = viaObj ? O(owned()[0])->closeTransaction() : um->closeTransaction();
         if(r != exp) fail("transaction-status", "closeTransaction() returned %d instead of %d", (int)r, (int)exp);
      }
      else { commit = what == 3; if(commit) um->commit(); else um->rollback(); }
      w->level--;
      log("%s (level %d)", commit ? "commit" : "rollback", w->level);
      if(w->level) return;
      if(commit)
      {
         if(w->txn.changes)
         {
            if(!w->open.changes) w->open.before = w->txn.before;
            w->open.changes += w->txn.changes; w->open.mentioned.insert(w->txn.mentioned.begin(), w->txn.mentioned.end()); w->open.marked.insert(w->txn.marked.begin(), w->txn.marked.end());
            w->redo.clear();
         }
         probe("committed");
      }
      else { w->cur = w->txn.before; if(w->txn.changes) { probe("rolled_back"); nontrivial(); } }
      w->txn = Step(); w->txnStatus = Status::eOK;
   }

   void history()
   {
      gAlive = 0;
      World world; w = &world;
      w->doc = new Doc; w->um = w->doc->undoManager();
      for(auto& l : w->list) l = new LinkedList(w->doc);
      u32 ops = 2 + W(W(4) ? 30 : 160);
      for(u32 i = 0; i < ops; i++)
      {
         std::vector<int> own = owned();
         u32 k = W(24);
         if(own.empty() || ((k == 0 || (own.size() < 3 && W(3) == 0)) && own.size() < 6)) { create(); check("creating an object"); continue; }
         int a = own[W((u32)own.size())], b = own[W((u32)own.size())];
         const char* what = "";
         switch(k)
         {
            case 1: destroy(a); what = "destroying an object"; break;
            case 2: case 3: case 4: direct(a, (int)W(16)); what = "changing a member"; break;
            case 5: case 6: viaSet(a); what = "setMember()"; break;
            case 7: setRef(a, W(3) ? b : -1); what = "changing a reference"; log("object %d refers to %d", a, w->cur.ref[a]); break;
            case 8: case 9: case 10: case 11: { u32 op = W(12); listOp((int)W(2), op < 5 ? 0 : op < 7 ? 1 : op < 9 ? 2 : op < 11 ? 3 : 4, a, b); what = "a list operation"; break; }
            case 12: case 13: closeStep(); what = "close()"; break;
            case 14: case 15: undoRedo(true); what = "undo()"; break;
            case 16: undoRedo(false); what = "redo()"; break;
            case 17: transaction(0); what = "openTransaction()"; break;
            case 18: transaction(1 + W(2)); what = "a transaction"; break;
            case 19: transaction(2 + W(3)); what = "a transaction"; break;
            case 20:
               if(W(3)) { if(w->um && !w->level && W(4) == 0) { w->um->setActive(false); if(w->um->isActive()) fail("count", "isActive() after setActive(false)"); w->um->registerChange(O(a), &O(a)->i32); w->um->setActive(true); what = "an ignored change"; } break; }
               if(!w->um) break;
               switch(W(3))
               {
                  case 0: w->um->clearUndoStack(); w->undo.clear(); what = "clearUndoStack()"; break;
                  case 1: w->um->clearRedoStack(); w->redo.clear(); what = "clearRedoStack()"; break;
                  default: w->um->clearStacks(); w->undo.clear(); w->redo.clear(); w->open = Step(); what = "clearStacks()"; break;
               }
               log("%s", what);
               break;
            case 22:
               // an object that has to be drawn again when the step is undone or redone
               if(!w->um) break;
               reg({a}); (w->level ? w->txn : w->open).marked.insert(a);
               w->um->registerRegenerationMarker(O(a));
               log("object %d is marked", a); probe("marked"); what = "registerRegenerationMarker()";
               break;
            case 23:
               switch(W(3))
               {
                  case 0: { bool r = W(2); w->doc->regenerationDone(); if(r) w->doc->regenerate(); if(w->doc->shouldRegenerate() != r) fail("regenerate", "shouldRegenerate() of the document is %d", !r); break; }
                  case 1: { std::string n = "/tmp/d" + std::to_string(W(1000)); w->doc->setFile(File(J(n))); if(S(w->doc->file().name()) != n.substr(5) || w->doc->fileRef() != &w->doc->file()) fail("file", "the file of the document is %s instead of %s", S(w->doc->file().name()).c_str(), n.c_str()); break; }
                  default: { bool c = W(2); bool o = w->doc->isDocumentChanged(); w->doc->setDocumentChanged(c); if(w->doc->isDocumentChanged() != c || O(a)->document() != w->doc) fail("changed", "isDocumentChanged() is %d", !c); w->doc->setDocumentChanged(o); break; }
               }
               what = "a property of the document";
               break;
            default:
               if(w->level || W(5)) break;
               // without undo manager changes are made but not recorded
               w->doc->setUndoManager(w->um == nullptr);
               w->um = w->doc->undoManager();
               if(w->doc->hasUndoManager() != (w->um != nullptr)) fail("count", "hasUndoManager() is wrong");
               w->undo.clear(); w->redo.clear(); w->open = Step();
               what = "setUndoManager()"; log("undo manager %d", w->um != nullptr);
               break;
         }
         check(what);
      }
      // everything backwards and forwards again
      if(w->level && W(2) == 0)   // the undo manager goes while a transaction is open; the changes stay
      {
         w->doc->setUndoManager(false); w->um = nullptr; w->level = 0;
         w->undo.clear(); w->redo.clear(); w->open = Step(); w->txn = Step();
         probe("gone_in_transaction"); check("setUndoManager(false) in a transaction");
      }
      while(w->level) { transaction(W(2) ? 2 : 4); check("the end of a transaction"); }
      if(w->um)
      {
         closeStep(); check("close()");
         size_t n = w->undo.size();
         for(size_t i = 0; i < n; i++) { undoRedo(true); check("undo()"); }
         undoRedo(true);
         u32 up = W((u32)n + 1);
         for(u32 i = 0; i < up; i++) { undoRedo(false); check("redo()"); }
         if(W(2)) { w->um->clearStacks(); w->undo.clear(); w->redo.clear(); w->open = Step(); check("clearStacks()"); }
         else { w->doc->setUndoManager(false); w->um = nullptr; w->undo.clear(); w->redo.clear(); w->open = Step(); check("setUndoManager(false)"); }
      }
      // without steps that hold them the objects go with their last owner
      for(int l = 0; l < 2; l++) { w->list[l]->clear(nullptr); w->cur.list[l].clear(); }
      if(w->um) { w->doc->setUndoManager(false); w->um = nullptr; }
      for(int id : owned()) if(w->cur.ref[id] >= 0) setRef(id, -1);
      for(int id : owned()) { Obj* o = O(id); w->cur.val.erase(id); w->cur.ref.erase(id); o->release(); }
      check("the end");
      for(auto& l : w->list) l->release();
      w->doc->release();
      if(gAlive) fail("lifetime", "%d objects are left over", gAlive);
   }

   void run()
   {
      setStepCap(20000000);
      initLib();
      { Doc* d = new Doc; Obj* o = new Obj(d, 0); d->undoManager()->registerChange(o, &o->i8); d->release(); o->release(); }
      static CoutSink* sink = new CoutSink();
      (void)sink;
      std::set<std::string> warm; log("start");
      u64 live0 = liveBlocks();
      history();
      // what the harness itself keeps is gone with `world`
      if(liveBlocks() > live0) fail("leak", "%llu memory blocks are left over after documents, lists and steps are gone", (unsigned long long)(liveBlocks() - live0));
   }

   Registrar r21({"C21", run, 80000, 3000000,
      "histories of 2 to 161 operations on a document: objects are created, changed (16 member types, directly or by setMember with refused values), referenced, put into two lists, moved and destroyed, in open steps and nested transactions that are committed, rolled back or fail; undo, redo, clearing of stacks and switching the undo manager off at any time; at the end everything is undone and partly redone. Non-trivial: more than two steps.",
      "distinct histories (hash over operations and outcomes)",
      "UndoManager, UndoStep, UndoChange, EditableObject, Document, LinkedList, Object, String, Date, Color (instrumented build)",
      "heap; the application (document and objects of the harness)"});
}
