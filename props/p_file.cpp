// C10: file contents.  C11: file contents under disk errors and crashes.  C12: directory tree operations.  C13: tags.
#include "common.h"
#include <algorithm>
#include <sys/stat.h>
using namespace jm;

namespace
{
   const u32 pms[] = {20, 60, 150, 400};
   void drawFaults(u32 all)
   {
      u32 m = 0;
      for(u32 b = 1; b; b <<= 1) if((all & b) && W(2)) m |= b;
      if(!m) m = all;
      faults.mask = m;
      faults.perMille = pms[W(4)];
      faults.maxFaults = W(3) == 0 ? 1 : -1;
   }

   bool big = false;                          // a run with transfers beyond every usual buffer size
   size_t pickLen()
   {
      if(big && W(3) == 2) { static const size_t sz[] = {65535, 65536, 65537, 131072, 131073, 262144}; return W(2) ? sz[W(6)] : 20000 + W(280000); }
      static const size_t sz[] = {0, 1, 7, 100, 4095, 4096, 4097, 8192, 10000, 20000};
      switch(W(3)) { case 0: return Wlen(40); case 1: return sz[W(10)]; default: return W(6000); }
   }

   // what a byte of the file may be after errors were reported: any value written there, the old one, or a hole
   struct Model
   {
      std::string path;
      std::string data;                       // contents if everything reported as done is done
      std::vector<std::set<u8>> may;          // only in runs with faults
      bool dirty = false;                     // an error was reported since the contents were last known
      i64 pos = 0; bool open = false; FileMode mode = FileMode::kRead;
      bool lax = false; std::set<u8> any{0};  // used on after an error: the position is unspecified then
      bool exists = false;
   };

   struct Reader { File* f; };

   void note(Model& m, size_t at, const std::string& d)
   {
      for(char c : d) m.any.insert((u8)c);
      if(m.lax) return;
      if(m.may.size() < at + d.size()) { m.may.resize(at + d.size()); }
      for(size_t i = 0; i < d.size(); i++) m.may[at + i].insert((u8)d[i]);
   }
   void put(Model& m, size_t at, const std::string& d)
   {
      if(d.empty()) return;
      if(m.data.size() < at) m.data.resize(at, 0);
      if(m.data.size() < at + d.size()) m.data.resize(at + d.size(), 0);
      memcpy(&m.data[at], d.data(), d.size());
   }

   void runContents(bool withFaults)
   {
      if(withFaults) drawFaults(FK_OPEN_ERR | FK_READ_ERR | FK_WRITE_ERR | FK_SHORT_READ | FK_SHORT_WRITE | FK_ENOSPC | FK_CLOSE_ERR | FK_SEEK_ERR | FK_STALL);
      else { faults.mask = (W(2) ? FK_SHORT_READ | FK_SHORT_WRITE : 0) | (W(4) == 3 ? FK_STALL : 0); faults.perMille = pms[W(4)]; }
      if(withFaults && W(4) == 3) fsSetCapacity(1 + (i64)W(30000));
      nontrivial();
      big = !withFaults && W(50) == 49;
      if(big) probe("big_transfers");
      u32 nf = 1 + W(2);
      std::vector<Model> ms(nf);
      std::vector<File*> fl;
      for(u32 i = 0; i < nf; i++)
      {
         ms[i].path = i ? "/tmp/b" : "/tmp/a.dat";
         if(W(2)) { size_t n = pickLen(); ms[i].data = genBytes(n, W(5), W(1000)); fsWrite(ms[i].path, ms[i].data); ms[i].exists = true; note(ms[i], 0, ms[i].data); }
         fl.push_back(new File(J(ms[i].path)));
      }
      u32 ops = 3 + Wlen(25);
      auto reported = [&](Model& m) { if(withFaults) { m.dirty = true; probe("error_reported"); } };
      // the contents of the file as found on the disk
      auto settle = [&](Model& m) {
         std::string d = fsRead(m.path);
         if(!m.dirty)
         {
            if(m.exists && d != m.data)
            {
               size_t k = 0; while(k < d.size() && k < m.data.size() && d[k] == m.data[k]) k++;
               fail("contents", "%s holds %zu bytes, expected %zu; first difference at %zu (no error was reported)", m.path.c_str(), d.size(), m.data.size(), k);
            }
         }
         else
         {
            for(size_t i = 0; i < d.size(); i++)
               if(m.lax ? !m.any.count((u8)d[i]) : d[i] != 0 && (i >= m.may.size() || !m.may[i].count((u8)d[i]))) fail("contents", "byte %zu of %s is %02x, which was never written there", i, m.path.c_str(), (u8)d[i]);
         }
         m.data = d; m.dirty = false; m.lax = false; m.any = {0}; for(char c : d) m.any.insert((u8)c);
         m.may.assign(d.size(), {}); for(size_t i = 0; i < d.size(); i++) m.may[i].insert((u8)d[i]);
      };
      auto doClose = [&](u32 i) {
         Model& m = ms[i]; File* f = fl[i];
         FsErr e0 = fsErrs();
         bool was = m.open;
         int fds = fsOpenFds();
         bool t = threw([&] { f->close(); });
         FsErr e1 = fsErrs();
         log("close %s%s", m.path.c_str(), t ? " failed" : "");
         if(t && (!was || e1.count == e0.count)) fail("close-failed", "close() reported an error although nothing failed");
         if(was && !t && e1.closeErr + e1.writeErr != e0.closeErr + e0.writeErr && !m.dirty) fail("error-hidden", "close() reported success although storing the data failed");
         if(t) reported(m);
         if(f->isOpen()) fail("open-after-close", "isOpen() after close()");
         if(was && fsOpenFds() != fds - 1) fail("handle-leak", "close() left the file open");
         m.open = false;
         if(was) settle(m);
      };
      // after an error most callers give up; the others only must not see bytes that nobody wrote
      auto afterError = [&](u32 i) {
         Model& m = ms[i];
         reported(m);
         i64 p = W(4) == 3 && withFaults ? fl[i]->position() : -1;
         if(p < 0) { doClose(i); return; }
         m.lax = true; m.pos = p; probe("used_after_error");
      };
      for(u32 o = 0; o < ops; o++)
      {
         u32 i = W(nf);
         Model& m = ms[i]; File* f = fl[i];
         u32 op = m.open ? W(12) : (W(4) ? 12 : 13 + W(3));
         switch(op)
         {
            case 0: case 1: case 2:
            {
               size_t n = pickLen();
               std::string d = genBytes(n, W(5), W(1000));
               bool asString = W(4) == 3;
               String str;
               if(asString)
               {
                  std::u16string u; static const char16_t alpha[] = {u'a', u'Z', u' ', u'\n', u'\u00e4', u'\u20ac', u'\uffee'};
                  d.clear();
                  for(size_t k = 0; k < n % 200; k++) u += alpha[W(7)];
                  for(char16_t c : u) { if(c < 0x80) d += (char)c; else if(c < 0x800) { d += (char)(0xC0 | c >> 6); d += (char)(0x80 | (c & 63)); } else { d += (char)(0xE0 | c >> 12); d += (char)(0x80 | (c >> 6 & 63)); d += (char)(0x80 | (c & 63)); } }
                  str = JU(u);
               }
               FsErr e0 = fsErrs();
               i64 r = asString ? ((jm::Stream*)f)->write(str) : f->write((const uint8*)d.data(), (int64)d.size());
               FsErr e1 = fsErrs();
               log("write %zu -> %lld", d.size(), (long long)r);
               if(r < 0 || r > (i64)d.size()) fail("write-count", "write() of %zu bytes returned %lld", d.size(), (long long)r);
               bool rd = m.mode == FileMode::kRead;
               if(rd) { if(r != 0) fail("write-count", "write() to a file opened for reading returned %lld", (long long)r); break; }
               if(r < (i64)d.size())
               {
                  if(e1.count == e0.count) fail("write-count", "write() stored %lld of %zu bytes although nothing failed", (long long)r, d.size());
               }
               note(m, m.pos, d);
               if(r < (i64)d.size() || m.lax) { afterError(i); break; }
               put(m, m.pos, d);
               m.pos += r;
               break;
            }
            case 3: case 4: case 5:
            {
               size_t n = pickLen();
               bool full = W(2);
               std::string got; i64 r;
               FsErr e0 = fsErrs();
               if(full) { ByteArray b((int64)n, 0x7e); r = f->readFully(b, (int64)n); if(r > (i64)n || r < 0) fail("read-count", "readFully() of %zu bytes returned %lld", n, (long long)r); got.assign(b.constData(), (size_t)r); for(size_t k = r; k < n; k++) if((u8)b.constData()[k] != 0x7e && !withFaults) fail("read-overrun", "readFully() changed the buffer behind the data"); }
               else { std::vector<uint8> b(n + 8, 0x7e); r = f->read(b.data(), (int64)n); if(r > (i64)n || r < 0) fail("read-count", "read() of %zu bytes returned %lld", n, (long long)r); got.assign((char*)b.data(), (size_t)r); for(size_t k = n; k < n + 8; k++) if(b[k] != 0x7e) fail("read-overrun", "read() wrote behind the buffer"); }
               FsErr e1 = fsErrs();
               log("read %zu -> %lld", n, (long long)r);
               if(m.mode == FileMode::kWrite) { if(r != 0) fail("read-count", "read() from a file opened for writing returned %lld", (long long)r); if(e1.writeErr != e0.writeErr) afterError(i); break; }
               if(e1.writeErr != e0.writeErr || m.dirty) { afterError(i); break; }     // buffered data could not be stored first
               size_t av = m.pos < (i64)m.data.size() ? m.data.size() - m.pos : 0;
               size_t want = std::min(n, av);
               if(r > (i64)want) fail("read-count", "read() returned %lld bytes, %zu are left", (long long)r, want);
               if(got != m.data.substr(std::min((size_t)m.pos, m.data.size()), got.size())) fail("read-data", "read() at %lld returned wrong bytes", (long long)m.pos);
               if(r < (i64)want && e1.count == e0.count) fail("read-count", "read() returned %lld of %zu bytes although nothing failed", (long long)r, want);
               if(r < (i64)want) { probe("short_by_error"); m.pos += r; afterError(i); break; }
               m.pos += r;
               break;
            }
            case 6: case 7:
            {
               bool rel = op == 7;
               if(!withFaults && W(16) == 15)
               {
                  // far behind the end, where no 32 bit number reaches
                  static const i64 far[] = {0x7FFFFFFFll, 0x80000000ll, 0xFFFFFFFFll, 0x100000000ll, 0x123456789All, 1ll << 45};
                  i64 to = far[W(6)] + (i64)W(3) - 1, back = W((u32)m.data.size() + 1), off = rel ? to - m.pos : to;
                  bool t = threw([&] { if(rel) f->move(off); else f->seek(off); });
                  i64 p = t ? -1 : f->position();
                  log("%s %lld -> %lld", rel ? "move" : "seek", (long long)off, (long long)p);
                  if(t) fail("seek-failed", "moving to position %lld failed although nothing was wrong", (long long)to);
                  if(p != to) fail("position", "position() is %lld, expected %lld", (long long)p, (long long)to);
                  u8 x[4]; if(m.mode != FileMode::kWrite) { i64 r = f->read(x, 4); if(r) fail("read-count", "read() far behind the end returned %lld", (long long)r); }
                  if(W(2)) f->seek(back); else f->move(back - to);
                  m.pos = back; probe("far_position");
                  break;
               }
               i64 to = rel ? (i64)W(8000) - 4000 : (i64)(W(2) ? W((u32)m.data.size() + 1) : W(12000));
               i64 want = rel ? m.pos + to : to;
               if(!rel && W(12) == 11) want = to = -1 - (i64)W(5);
               FsErr e0 = fsErrs();
               bool t = threw([&] { if(rel) f->move(to); else f->seek(to); });
               FsErr e1 = fsErrs();
               log("%s %lld%s", rel ? "move" : "seek", (long long)to, t ? " failed" : "");
               if(m.lax) { afterError(i); break; }
               if(want < 0) { if(!t) fail("seek-negative", "moving to position %lld succeeded", (long long)want); if(e1.count != e0.count) afterError(i); break; }
               if(t && e1.count == e0.count) fail("seek-failed", "moving to position %lld failed although nothing was wrong", (long long)want);
               if(t) { afterError(i); break; }
               if(e1.writeErr != e0.writeErr) fail("error-hidden", "seek reported success although storing the data failed");
               m.pos = want;
               break;
            }
            case 8:
            {
               FsErr e0 = fsErrs();
               i64 p = f->position();
               log("position -> %lld", (long long)p);
               if(p != m.pos && !(p < 0 && fsErrs().count > e0.count)) { if(!m.lax) fail("position", "position() is %lld, expected %lld", (long long)p, (long long)m.pos); if(p >= 0) m.pos = p; }
               break;
            }
            case 9: if(!f->isOpen()) fail("not-open", "isOpen() is false for an open file"); break;
            case 10: case 11: doClose(i); break;
            case 12:
            {
               static const FileMode md[] = {FileMode::kRead, FileMode::kWrite, FileMode::kReadWrite};
               m.mode = md[W(3)];
               FsErr e0 = fsErrs();
               Status st = Status::eOK;
               bool t = threw([&] { st = f->open(m.mode); });
               FsErr e1 = fsErrs();
               bool ok = !t && st == Status::eOK;
               log("open %s mode %d -> %s", m.path.c_str(), (int)m.mode, t ? "exception" : ok ? "ok" : "status");
               bool inj = e1.openErr != e0.openErr && !(e1.lastErrno == ENOENT && !m.exists);
               if(ok)
               {
                  if(inj) fail("error-hidden", "open() reported success although it failed");
                  if(!m.exists && m.mode != FileMode::kWrite) fail("open-missing", "a missing file was opened");
                  if(!f->isOpen()) fail("not-open", "isOpen() is false after a successful open()");
                  m.open = true; m.pos = 0;
                  if(m.mode == FileMode::kWrite) { m.data.clear(); m.exists = true; m.dirty = false; m.lax = false; m.any = {0}; m.may.clear(); }
               }
               else
               {
                  if(m.exists && !inj) fail("open-failed", "open() failed although nothing was wrong");
                  if(!m.exists && m.mode == FileMode::kWrite && !inj) fail("open-failed", "open() for writing did not create the file");
                  if(f->isOpen()) fail("open-after-failure", "isOpen() after a failed open()");
                  int en = e1.lastErrno;
                  Status want = en == EACCES ? Status::eNotAllowed : en == ENOENT ? Status::eNotFound : en == ETIMEDOUT ? Status::eTimeout : en == ENOTDIR ? Status::eNoDirectory : Status::eOK;
                  if(want == Status::eOK ? !t : (t || st != want)) fail("open-status", "open() failed with errno %d and reported status %d%s", en, (int)st, t ? " by exception" : "");
                  if(S(String(System::lastErrorMessage())).find(m.path) == std::string::npos) fail("open-unlogged", "a failed open() was not logged");
                  probe("open_failed");
                  // opening for writing truncates before it can fail
                  if(m.exists && m.mode == FileMode::kWrite && fsRead(m.path).empty()) { m.data.clear(); m.may.clear(); }
               }
               break;
            }
            case 13:
            {
               i64 s = f->size(), want = m.exists ? (i64)m.data.size() : 0;
               if(s != want) fail("size", "size() is %lld, the file has %lld bytes", (long long)s, (long long)want);
               break;
            }
            case 14: if(f->isOpen()) fail("open-after-close", "isOpen() of a closed file"); break;
            default:
            {
               // a copy of the object names the same file, but is a separate stream
               File c(*f);
               if(c.isOpen()) fail("copy-open", "a copy of a closed file is open");
               i64 s = c.size(), want = m.exists ? (i64)m.data.size() : 0;
               if(s != want) fail("size", "size() is %lld, the file has %lld bytes", (long long)s, (long long)want);
               break;
            }
         }
      }
      for(u32 i = 0; i < nf; i++) if(ms[i].open) doClose(i);
      if(fsOpenFds()) fail("handle-leak", "%d descriptors are still open", fsOpenFds());
      // everything can be read back by someone else
      faults.perMille = 0;
      for(u32 i = 0; i < nf; i++) if(ms[i].exists)
      {
         File g(J(ms[i].path));
         if(g.open(FileMode::kRead) != Status::eOK) fail("open-failed", "the file cannot be read back");
         ByteArray b((int64)ms[i].data.size() + 1, 0);
         i64 r = g.readFully(b, (int64)ms[i].data.size() + 1);
         if(r != (i64)ms[i].data.size() || (r && memcmp(b.constData(), ms[i].data.data(), r))) fail("contents", "reading the file back gives %lld bytes, expected %zu", (long long)r, ms[i].data.size());
         g.close();
      }
      for(File* f : fl) f->release();
   }

   // a process dies somewhere; what it had closed is on the disk
   void runCrash()
   {
      initLib();
      nontrivial();
      std::string oldA = genBytes(W(3000), W(5), W(1000));
      fsWrite("/tmp/old", oldA);
      u32 n = 1 + W(3);
      std::vector<std::string> d(n), path(n);
      for(u32 i = 0; i < n; i++) { d[i] = genBytes(pickLen(), W(5), W(1000)); char b[32]; snprintf(b, sizeof b, "/tmp/f%u", i); path[i] = b; }
      u32 chunk = 1 + W(5000);
      int at = W(60);
      bool finished = boot([&] {
         faults.crashAt = (int)fsCalls() + at;
         for(u32 i = 0; i < n; i++)
         {
            File f(J(path[i]));
            if(f.open(FileMode::kWrite) != Status::eOK) fail("open-failed", "open() failed");
            for(size_t k = 0; k < d[i].size(); k += chunk) { size_t l = std::min<size_t>(chunk, d[i].size() - k); if(f.write((const uint8*)d[i].data() + k, (int64)l) != (i64)l) fail("write-count", "write() failed"); }
            f.close();
            journal(path[i]);
         }
         faults.crashAt = -1;
      });
      faults.crashAt = -1;
      probe(finished ? "no_crash" : "crashed");
      std::vector<std::string> done = journalRead();
      log("%zu of %u files closed before the crash", done.size(), n);
      for(u32 i = 0; i < n; i++)
      {
         File g(J(path[i]));
         bool closed = i < done.size();
         if(!closed && !g.exists()) continue;
         i64 s = g.size();
         if(closed && s != (i64)d[i].size()) fail("lost-after-crash", "a file closed before the crash has %lld of %zu bytes", (long long)s, d[i].size());
         if(s > (i64)d[i].size()) fail("contents", "file is longer than what was written");
         if(g.open(FileMode::kRead) != Status::eOK) fail("open-failed", "the file cannot be read back");
         ByteArray b(s + 1, 0);
         i64 r = g.readFully(b, s + 1);
         if(r != s || memcmp(b.constData(), d[i].data(), (size_t)s)) fail(closed ? "lost-after-crash" : "contents", "the file does not hold a prefix of what was written to it");
         g.close();
      }
      if(fsRead("/tmp/old") != oldA) fail("contents", "an unrelated file changed");
   }

   //------------------------------------------------------------------ C12
   struct Snap { std::map<std::string, std::string> e; };   // path -> type, mode, contents
   Snap snap() { Snap s; s.e = fsSnapshot("/w"); return s; }

   std::string norm(std::string p)
   {
      std::string o;
      for(char c : p) { if(c == '/' && !o.empty() && o.back() == '/') continue; o += c; }
      if(o.size() > 1 && o.back() == '/') o.pop_back();
      return o;
   }

   // the parts of a name and what they mean
   void checkNames(const File& f, const std::string& p, const std::string& ap)
   {
      size_t k = p.rfind('/');
      std::string name = k == std::string::npos ? p : p.substr(k + 1), parent = k == std::string::npos ? "" : k == 0 ? "/" : p.substr(0, k);
      size_t d = name.rfind('.');
      std::string ext = d == std::string::npos ? "" : name.substr(d + 1);
      auto eq = [&](const char* what, const std::string& got, const std::string& want) { if(got != want) fail("name", "%s of %s is %s instead of %s", what, p.c_str(), show(got).c_str(), show(want).c_str()); };
      eq("path()", S(f.path()), p);
      eq("absolutePath()", S(f.absolutePath()), ap);
      eq("name()", S(f.name()), name);
      eq("parent()", S(f.parent()), parent);
      eq("extension()", S(f.extension()), ext);
      if(f.isAbsolute() != (p[0] == '/')) fail("name", "isAbsolute() of %s is %d", p.c_str(), f.isAbsolute());
      if(f.isHidden() != (!name.empty() && name[0] == '.')) fail("name", "isHidden() of %s is %d", p.c_str(), f.isHidden());
      if(f.isNull()) fail("name", "isNull() of %s is true", p.c_str());
   }

   void runTree()
   {
      nontrivial();
      fsMkdirs("/w");
      // relative paths start at the current directory
      bool relative = W(2);
      if(relative) { if(::chdir("/w")) fail("harness", "chdir"); probe("relative_paths"); }
      auto abs = [&](const std::string& q) { return !q.empty() && q[0] == '/' ? q : "/w/" + q; };
      auto rel = [&](const std::string& q) -> std::string { size_t k = q.find_first_not_of('/', 2); return relative && W(2) && k != std::string::npos ? q.substr(k) : q; };
      static const char* names[] = {"a", "b.txt", "c", ".hid", "d.tar.gz", "\xC3\xA4x"};
      auto anyPath = [&]() -> std::string {
         std::string p = "/w";
         u32 depth = 1 + W(3);
         for(u32 i = 0; i < depth; i++) { p += W(8) == 7 ? "//" : "/"; p += names[W(6)]; }
         if(W(10) == 9) p += "/";
         return p;
      };
      auto existing = [&]() -> std::string { Snap s = snap(); if(s.e.empty() || W(6) == 5) return anyPath(); auto it = s.e.begin(); std::advance(it, W((u32)s.e.size())); return it->first; };
      // a starting tree
      u32 pre = Wlen(8);
      for(u32 i = 0; i < pre; i++)
      {
         std::string p = norm(anyPath());
         if(fsExists(p)) continue;
         std::string par = p.substr(0, p.rfind('/'));
         if(!fsIsDir(par)) { std::string q = par; bool bad = false; while(q != "/w") { if(fsExists(q) && !fsIsDir(q)) bad = true; q = q.substr(0, q.rfind('/')); } if(bad) continue; fsMkdirs(par); }
         switch(W(6)) { case 0: case 1: fsMkdirs(p); break; case 2: case 3: fsWrite(p, genBytes(W(20), 0, W(20))); break; case 4: { std::string t = norm(anyPath()); fsSymlink(t, p); break; } default: fsFifo(p); break; }
         if(W(6) == 5) fsChmod(p, W(2) ? 0444 : 0333);
         if(W(4) == 3) fsSetMtimeNs(p, (i64)(1600000000 + W(100000)) * 1000000000ll + (i64)W(1000000000));
      }
      // a file that is open stays open while its name changes
      std::string heldData; bool held = false;
      auto holdOpen = [&](File& f, const std::string& q) {
         held = W(4) == 3 && fsIsFile(abs(q));
         if(!held) return;
         u32 pm = faults.perMille; faults.perMille = 0;
         held = f.open(FileMode::kRead) == Status::eOK;
         if(held) heldData = fsRead(abs(q));
         faults.perMille = pm;
      };
      auto stillOpen = [&](File& f) {
         if(!held) return;
         u32 pm = faults.perMille; faults.perMille = 0;
         if(!f.isOpen()) fail("closed", "the file is not open any more after its name was changed or removed");
         std::string got(heldData.size() + 1, 0);
         i64 r = f.read((u8*)got.data(), (i64)got.size());
         got.resize(r < 0 ? 0 : (size_t)r);
         if(got != heldData) fail("closed", "the open file reads %s after its name was changed or removed, it holds %s", show(got).c_str(), show(heldData).c_str());
         f.close();
         faults.perMille = pm;
         probe("held_open");
      };
      fsNoTypes = W(4) == 3;
      if(W(2)) drawFaults(FK_OPEN_ERR | FK_META_ERR | FK_STAT_ERR | FK_DIR_ORDER | FK_DIR_RACE | FK_READDIR_ERR | FK_DIR_OPEN_ERR | FK_CLOSE_ERR);
      else if(W(2)) { faults.mask = FK_DIR_RACE | FK_DIR_ORDER; faults.perMille = 300; }
      u32 ops = 1 + Wlen(15);
      for(u32 o = 0; o < ops; o++)
      {
         std::string raw = rel(W(2) ? anyPath() : existing());
         std::string p = norm(raw), ap = abs(p);
         File f;
         // built from a whole path or from parent and child
         auto toU = [](const std::string& s) { std::u16string u; for(size_t i = 0; i < s.size(); i++) { u8 c = (u8)s[i]; if(c < 0x80) u += (char16_t)c; else { u += (char16_t)((c & 31) << 6 | ((u8)s[i + 1] & 63)); i++; } } return JU(u); };
         if(W(3) == 2 && p.rfind('/') != std::string::npos) { size_t k = p.rfind('/'); if(W(2)) f = File(toU(p.substr(0, k)), toU(p.substr(k + 1))); else f = File(File(toU(p.substr(0, k))), toU(p.substr(k + 1))); }
         else f = File(toU(raw));
         if(S(f.path()) != p) fail("path", "path() of %s is %s", raw.c_str(), show(S(f.path())).c_str());
         checkNames(f, p, ap);
         if(W(8) == 7) { std::string q = std::string("/") + names[W(6)]; checkNames(File(toU(q)), q, q); File e, c(f), d(File(toU("zz/y"))); d = f; checkNames(c, p, ap); checkNames(d, p, ap); if(!e.isNull() || S(e.path()) != "" || S(e.name()) != "") fail("name", "a file without path has a name"); d = File(); if(!d.isNull() || S(d.path()) != "" || d.exists()) fail("name", "a file without path that was assigned has a name"); }
         if(W(8) == 7)
         {
            // separators that are too many are left out, wherever they are
            std::string pa = W(3) ? p.substr(0, p.rfind('/') == std::string::npos ? p.size() : p.rfind('/')) : "/", ch = names[W(6)];
            if(pa.empty()) pa = "/";
            std::string want = (pa == "/" ? "" : pa) + "/" + ch, c2 = ch;
            if(W(2)) { std::string more = names[W(6)]; want += "/" + more; c2 += (W(2) ? "//" : "/") + more; }
            if(W(2)) c2 = (W(2) ? "//" : "/") + c2;
            if(W(2)) c2 += W(2) ? "//" : "/";
            File g = W(2) ? File(toU(pa + (W(2) ? "//" : "")), toU(c2)) : File(File(toU(pa)), toU(c2));
            checkNames(g, want, abs(want)); probe("parent_and_child");
         }
         if(W(8) == 7)
         {
            // entries of the same kind are ordered by their path
            std::string q = norm(rel(W(4) ? existing() : anyPath()));
            File g = File(toU(q)); u64 i0 = injected();
            int x = f.compareTo(g), y = g.compareTo(f), z = File(f).compareTo(f);
            auto ord = [&](const std::string& s) { std::u16string u; String w = toU(s); for(int64 i = 0; i < w.size(); i++) u += (char16_t)w.charAt(i).unicode(); return u; };
            if(injected() == i0)
            {
               if((x < 0) != (y > 0) || (x > 0) != (y < 0) || z != 0) fail("order", "compareTo() of %s and %s is %d and %d", p.c_str(), q.c_str(), x, y);
               if(f.isDirectory() == g.isDirectory() && injected() == i0) { int w = ord(p) < ord(q) ? -1 : ord(p) > ord(q); if((x < 0 ? -1 : x > 0) != w) fail("order", "compareTo() of %s and %s is %d", p.c_str(), q.c_str(), x); }
               probe("compared");
            }
         }
         Snap b = snap();
         std::string cp = fsReal(ap, false);        // without links on the way
         auto itb = b.e.find(cp);
         FsErr e0 = fsErrs();
         u64 inj0 = injected();
         // a call that failed although nothing was injected must fail when the system is asked directly, too
         auto noReason = [&](const std::function<int()>& raw) { if(injected() != inj0) return false; FaultCfg k = faults; faults.perMille = 0; bool ok = raw() == 0; faults = k; return ok; };
         switch(W(11))
         {
            case 0:
            {
               bool r = false;
               bool t = threw([&] { r = f.createNewFile(); });
               Snap a = snap();
               FsErr e1 = fsErrs();
               log("createNewFile %s -> %d", p.c_str(), r);
               if(t) fail("unexpected-exception", "createNewFile() threw");
               bool ex0 = b.e.count(cp);
               if(r)
               {
                  if(ex0) fail("create-existing", "createNewFile() reported %s as new, but it existed", p.c_str());
                  b.e[cp] = "f644:";
                  if(a.e != b.e) fail("create", "createNewFile() reported success, but %s is not a new empty file (or something else changed)", p.c_str());
               }
               else
               {
                  if(a.e != b.e) fail("create", "createNewFile() reported failure but changed the file system (%s)", p.c_str());
                  if(noReason([&] { FILE* h = ::fopen(p.c_str(), "wbx"); if(!h) return -1; ::fclose(h); return 0; })) fail("create", "createNewFile(%s) failed without a reason", p.c_str());
               }
               if(f.isOpen()) fail("open-after-close", "the file is open after createNewFile()");
               break;
            }
            case 1:
            {
               bool r = f.makeDirectory();
               Snap a = snap();
               log("makeDirectory %s -> %d", p.c_str(), r);
               if(r) { if(b.e.count(cp)) fail("mkdir", "makeDirectory() reported success for an existing path"); auto it = a.e.find(cp); if(it == a.e.end() || it->second[0] != 'd') fail("mkdir", "makeDirectory() reported success but there is no directory"); a.e.erase(cp); if(a.e != b.e) fail("mkdir", "makeDirectory() changed something else"); }
               else { if(a.e != b.e) fail("mkdir", "makeDirectory() reported failure but changed the file system"); if(noReason([&] { return ::mkdir(p.c_str(), 0755); })) fail("mkdir", "makeDirectory(%s) failed without a reason", p.c_str()); }
               break;
            }
            case 2: case 3:
            {
               holdOpen(f, p);
               bool r = f.remove();
               Snap a = snap();
               log("remove %s -> %d", p.c_str(), r);
               if(r)
               {
                  if(!b.e.count(cp)) fail("remove", "remove() reported success for a missing path %s", p.c_str());
                  for(auto& x : b.e) if(x.first.compare(0, cp.size() + 1, cp + "/") == 0) fail("remove", "remove() deleted the non-empty directory %s", p.c_str());
                  b.e.erase(cp);
                  if(a.e != b.e) fail("remove", "after remove(%s) the tree is not the old one without it", p.c_str());
               }
               stillOpen(f);
               if(!r) { if(a.e != b.e) fail("remove", "remove() reported failure but changed the file system"); if(noReason([&] { return ::remove(p.c_str()); })) fail("remove", "remove(%s) failed without a reason", p.c_str()); }
               break;
            }
            case 4:
            {
               std::string to = rel(anyPath()), tn = norm(to), ctn = fsReal(abs(tn), false);
               if(to != tn && b.e.count(ctn) && b.e[ctn][0] == 'l') break;      // a trailing slash follows the link
               holdOpen(f, p);
               bool r = f.renameTo(toU(to));
               Snap a = snap();
               log("renameTo %s -> %s: %d", p.c_str(), to.c_str(), r);
               if(r)
               {
                  if(!b.e.count(cp)) fail("rename", "renameTo() reported success for a missing path");
                  if(S(f.path()) != tn) fail("rename", "after renameTo(%s) path() is %s", to.c_str(), show(S(f.path())).c_str());
                  if(ctn != cp)
                  {
                     Snap w;
                     for(auto& x : b.e)
                     {
                        bool sub = x.first == cp || x.first.compare(0, cp.size() + 1, cp + "/") == 0;
                        if(sub) w.e[ctn + x.first.substr(cp.size())] = x.second;
                        else if(x.first != ctn) w.e.insert(x);
                     }
                     if(a.e != w.e) fail("rename", "renameTo(%s -> %s) did not move exactly that entry", p.c_str(), tn.c_str());
                  }
                  else if(a.e != b.e) fail("rename", "renaming to the same name changed something");
                  checkNames(f, tn, abs(tn));
                  // the object follows the file
                  faults.perMille = 0;
                  if(f.isFile() != fsIsFile(abs(tn))) fail("rename", "after renameTo() the object does not refer to the moved file");
                  drawFaults(faults.mask ? faults.mask : FK_DIR_ORDER);
               }
               stillOpen(f);
               if(!r) { if(a.e != b.e) fail("rename", "renameTo() reported failure but changed the file system"); if(S(f.path()) != p) fail("rename", "a failed renameTo() changed path()"); if(noReason([&] { return ::rename(p.c_str(), to.c_str()); })) fail("rename", "renameTo(%s -> %s) failed without a reason", p.c_str(), to.c_str()); }
               break;
            }
            case 5: case 6:
            {
               Array<File>* l = nullptr;
               bool t = threw([&] { l = f.listFiles(); });
               Snap a = snap();
               FsErr e1 = fsErrs();
               std::string rp = fsReal(ap, true);
               bool isDir = fsIsDir(ap);
               log("listFiles %s -> %s", p.c_str(), t ? "exception" : l ? "list" : "null");
               if(fsOpenDirs()) fail("handle-leak", "listFiles() left the directory open");
               if(t) { if(noReason([&] { DIR* d = ::opendir(p.c_str()); if(!d) return -1; ::closedir(d); return 0; })) fail("list", "listFiles(%s) threw although nothing failed", p.c_str()); break; }
               if(!l) { if(isDir && e1.count == e0.count) fail("list", "listFiles() of a directory returned nothing"); break; }
               if(!isDir) fail("list", "listFiles() of something else than a directory returned a list");
               if(e1.dirErr != e0.dirErr) fail("list", "listFiles() returned an incomplete list although reading the directory failed");
               std::map<std::string, int> got;
               for(int64 i = 0; i < l->size(); i++) got[abs(S((*l)[i].path()))]++;
               for(auto& g : got)
               {
                  if(g.second > 1) fail("list", "listFiles() lists %s %d times", g.first.c_str(), g.second);
                  std::string leaf = g.first.substr(g.first.rfind('/') + 1);
                  if(leaf == "." || leaf == "..") continue;
                  if(g.first.substr(0, g.first.rfind('/')) != ap) fail("list", "listFiles(%s) lists %s", p.c_str(), g.first.c_str());
                  std::string gr = rp + "/" + leaf;
                  if(!b.e.count(gr) && !a.e.count(gr) && leaf.compare(0, 5, "raced")) fail("list", "listFiles() lists %s, which never existed", g.first.c_str());
               }
               for(auto& x : b.e)
                  if(x.first.size() > rp.size() + 1 && x.first.compare(0, rp.size() + 1, rp + "/") == 0 && x.first.find('/', rp.size() + 1) == std::string::npos)
                     if(a.e.count(x.first) && !got.count(ap + x.first.substr(rp.size()))) fail("list", "listFiles() misses %s", x.first.c_str());
               delete l;
               probe("listed");
               break;
            }
            default:
            {
               struct stat st, sf; bool have, haveF;
               { u32 pm = faults.perMille; faults.perMille = 0; have = ::lstat(p.c_str(), &st) == 0; haveF = ::stat(p.c_str(), &sf) == 0; faults.perMille = pm; }
               e0 = fsErrs();
               u32 q = W(9);
               bool r = false, want = false; const char* nm = "";
               switch(q)
               {
                  case 0: nm = "exists"; r = f.exists(); want = haveF; break;
                  case 1: nm = "isDirectory"; r = f.isDirectory(); want = have && S_ISDIR(st.st_mode); break;
                  case 2: nm = "isFile"; r = f.isFile(); want = have && S_ISREG(st.st_mode); break;
                  case 3: nm = "isLink"; r = f.isLink(); want = have && S_ISLNK(st.st_mode); break;
                  case 4: nm = "isPipe"; r = f.isPipe(); want = have && S_ISFIFO(st.st_mode); break;
                  case 5: nm = "canRead"; r = f.canRead(); want = haveF && (sf.st_mode & 0400); break;
                  case 6: nm = "canWrite"; r = f.canWrite(); want = haveF && (sf.st_mode & 0200); break;
                  case 7: nm = "canExecute"; r = f.canExecute(); want = haveF && (sf.st_mode & 0100); break;
                  default:
                  {
                     i64 s = f.size();
                     if(fsErrs().statErr != e0.statErr) { if(s != 0) fail("size", "size() of an unreadable entry is %lld", (long long)s); }
                     else if(s != (haveF ? (i64)sf.st_size : 0)) fail("size", "size() of %s is %lld, it has %lld bytes", p.c_str(), (long long)s, haveF ? (long long)sf.st_size : 0);
                     e0 = fsErrs();
                     i64 ms = f.lastModified().time();
                     if(fsErrs().statErr == e0.statErr)
                     {
                        i64 w = have ? (i64)st.st_mtim.tv_sec * 1000 + st.st_mtim.tv_nsec / 1000000 : 0;
                        if(ms != w) fail("mtime", "lastModified() is %lld ms, the file was changed at %lld ms", (long long)ms, (long long)w);
                     }
                     else if(ms != 0) fail("mtime", "lastModified() of an unreadable entry is %lld", (long long)ms);
                     break;
                  }
               }
               if(fsErrs().statErr != e0.statErr && q < 8) want = false;
               if(q < 8 && r != want) fail("status", "%s(%s) is %d", nm, p.c_str(), r);
               if(snap().e != b.e) fail("status", "a query changed the file system");
               break;
            }
         }
      }
   }

   //------------------------------------------------------------------ C13
   void runTags()
   {
      nontrivial();
      fsWrite("/tmp/t1", "x");
      fsMkdirs("/tmp/t2");
      static const char* paths[] = {"/tmp/t1", "/tmp/t2", "/tmp/none"};
      std::vector<std::set<std::string>> model(3);
      std::vector<std::string> pool;
      bool longTags = W(3) == 2;
      u32 np = 1 + W(longTags ? 12 : 6);
      for(u32 i = 0; i < np; i++) { char b[16]; snprintf(b, sizeof b, "t%u", i); pool.push_back(b + std::string(longTags ? 900 : W(6), (char)('a' + i))); }
      // tags written by somebody else
      if(W(2)) for(u32 k = 0; k < 2; k++)
      {
         std::string v; u32 n = W(np + 1);
         for(u32 i = 0; i < n; i++) { if(i) v += ","; v += pool[i]; model[k].insert(pool[i]); }
         if(n) fsSetXattr(paths[k], "user.xdg.tags", v);
      }
      if(W(3)) drawFaults(FK_XATTR_ERR | FK_STALL);
      u32 ops = 1 + Wlen(15);
      auto stored = [&](u32 k) {
         std::set<std::string> r; bool ok; std::string v = fsGetXattr(paths[k], "user.xdg.tags", ok); std::string c;
         for(char ch : v) { if(ch == ',') { r.insert(c); c.clear(); } else c += ch; }
         if(!c.empty()) r.insert(c);
         return r;
      };
      // another process may tag the files at any time
      static std::vector<std::set<std::string>> seen; bool other = W(3) == 0;
      if(other)
      {
         fsOther = [&](const char* call)
         {
            if(F(3)) return;
            u32 k = F(2); std::string v; u32 n = F(np + 1); model[k].clear();
            for(u32 i = 0; i < n; i++) { if(i) v += ","; v += pool[(i + n) % np]; model[k].insert(pool[(i + n) % np]); }
            if(n || F(2)) fsSetXattr(paths[k], "user.xdg.tags", v); else fsRemoveXattr(paths[k], "user.xdg.tags");
            seen.push_back(model[k]);      // of any file: what is accepted is a bit more than what can be
            log("another process gives %s %u tags before %s", paths[k], n, call);
            fault("tagged_by_another_process");
         };
      }
      for(u32 o = 0; o < ops; o++)
      {
         u32 k = W(8) == 7 ? 2 : W(2);
         File f(J(paths[k]));
         seen.assign(1, model[k]);
         std::string t = pool[W(np)];
         FsErr e0 = fsErrs();
         u32 op = W(4);
         if(op == 3)
         {
            StringList l = f.getTags();
            std::set<std::string> got; for(int64 i = 0; i < l.size(); i++) if(!got.insert(S(l[i])).second) fail("tag-twice", "getTags() returns %s twice", S(l[i]).c_str());
            if(fsErrs().xattrErr == e0.xattrErr) { if(std::find(seen.begin(), seen.end(), got) == seen.end()) fail("tags", "getTags() returns %zu tags%s, expected %zu", got.size(), seen.size() > 1 ? ", which the file never had together" : "", model[k].size()); }
            else if(!got.empty() && std::find(seen.begin(), seen.end(), got) == seen.end()) fail("tags", "getTags() returned wrong tags");
            continue;
         }
         bool add = op != 2;
         Status st = add ? f.addTag(J(t)) : f.removeTag(J(t));
         bool failed = fsErrs().xattrErr != e0.xattrErr;
         log("%s %s on %s -> %d", add ? "add" : "remove", show(t, 8).c_str(), paths[k], (int)st);
         std::set<std::string> want = model[k];
         if(st == Status::eOK && seen.size() > 1 && k < 2)
         {
            // based on what the file had at some time during the call, or nothing was to be done
            if(failed) fail("error-hidden", "%s reported success although the system reported an error", add ? "addTag()" : "removeTag()");
            std::set<std::string> now = stored(k); bool ok = false;
            for(auto s : seen) { if(now == model[k] && s.count(t) == (size_t)add) ok = true; if(add) s.insert(t); else s.erase(t); ok = ok || now == s; }
            if(!ok) fail("tags-lost", "after %s beside another process the file has %zu tags it should not have", add ? "addTag" : "removeTag", now.size());
            model[k] = now; probe("tagged_at_once");
            continue;
         }
         if(st == Status::eOK)
         {
            if(failed) fail("error-hidden", "%s reported success although the system reported an error", add ? "addTag()" : "removeTag()");
            if(add) want.insert(t); else want.erase(t);
         }
         else if(!failed && k < 2) fail("tag-failed", "changing a tag failed without a reason");
         if(k < 2)
         {
            std::set<std::string> now = stored(k);
            if(now != want) fail("tags-lost", "after %s (status %d) the file has %zu tags, expected %zu", add ? "addTag" : "removeTag", (int)st, now.size(), want.size());
         }
         else if(st == Status::eOK && add) fail("error-hidden", "a tag was added to a missing file");
         model[k] = want;
         if(failed) probe("tag_error");
      }
      fsOther = nullptr;
      std::vector<std::set<std::string>>().swap(seen);
   }

   const char* FS_MEASURE = "distinct executions (hash over workload, injected faults, file system calls and outcomes)";
   const char* FS_STUB = "file system behind fopen/fread/.../stat/opendir/xattr, clock, heap, process crash";
   Registrar r10({"C10", [] { noLeak([] { runContents(false); }); }, 60000, 1000000,
      "1-2 files, 3-28 operations (open in three modes, write, read, seek, move, position, close, size, copy) with sizes around the stdio buffer, short reads and writes and stalls of the disk; compared operation by operation with a byte vector.", FS_MEASURE, "File, Stream, ByteArray, String, UTF8Decoder, System::log (instrumented build), glibc stdio", FS_STUB});
   Registrar r11({"C11", [] { if(W(4) == 3) runCrash(); else noLeak([] { runContents(true); }); }, 60000, 1000000,
      "as C10 with open/read/write/seek/close errors, full disk and short transfers, and writers that are killed at an arbitrary file system call; an error must be reported by the call or by close(), bytes on the disk are only ones written there.", FS_MEASURE, "File, Stream, ByteArray, String, UTF8Decoder, System::log (instrumented build), glibc stdio", FS_STUB});
   Registrar r12({"C12", [] { noLeak(runTree); }, 60000, 1000000,
      "random trees of directories, files, links and pipes; create, remove, rename, list and query operations with metadata errors, directory order changes and another process changing the directory while it is listed; judged by comparing the tree before and after.", FS_MEASURE, "File, Array, String, Date (instrumented build)", FS_STUB});
   Registrar r13({"C13", [] { noLeak(runTags); }, 40000, 600000,
      "tags are added, removed and read on two files (some with more than 4096 bytes of tags) while attribute calls fail; compared with a set.", FS_MEASURE, "File tags, StringList, StringTokenizer, String (instrumented build)", FS_STUB});
}
