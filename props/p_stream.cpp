// C15: memory streams and resources.
#include "common.h"
using namespace jm;

namespace
{
   // a distance beyond 32 bits
   i64 far() { static const i64 d[] = {1LL << 32, -(1LL << 32), 1LL << 31, -(1LL << 31), 1LL << 40, 1LL << 62, -(1LL << 62), 1LL << 16}; return d[W(8)]; }

   void memoryStreams()
   {
      u32 n = 1 + W(2);
      struct M { MemoryStream* s; u8* raw; std::string data; i64 pos = 0; bool own; };
      std::vector<M> ms(n);
      for(auto& m : ms)
      {
         static const u32 sz[] = {0, 1, 2, 17, 64, 255, 256, 1000};
         size_t len = W(2) ? sz[W(8)] : Wlen(80);
         m.data = genBytes(len, W(5), W(1000));
         m.raw = new u8[len];
         memcpy(m.raw, m.data.data(), len);
         m.own = W(2);
         m.s = new MemoryStream(m.raw, (int64)len, m.own);
      }
      u32 ops = 1 + Wlen(40);
      for(u32 o = 0; o < ops; o++)
      {
         M& m = ms[W(n)];
         i64 size = (i64)m.data.size();
         auto anyLen = [&]() -> i64 { i64 rest = size - m.pos; switch(W(5)) { case 0: return rest; case 1: return rest + 1; case 2: return rest > 0 ? rest - 1 : 0; case 3: return size + W(300); default: return Wlen(40); } };
         switch(W(8))
         {
            case 0: case 1:
            {
               i64 len = anyLen(), want = std::min<i64>(len, size - m.pos);
               std::string buf((size_t)len + 1, '\x5a');
               i64 r = W(2) ? m.s->read((uint8*)&buf[0], len) : -2;
               if(r == -2) { ByteArray b(len, 0x5a); r = W(2) && len == b.size() ? ((jm::Stream*)m.s)->readFully(b) : m.s->readFully(b, len); memcpy(&buf[0], b.constData(), (size_t)len); }
               log("read %lld -> %lld", (long long)len, (long long)r);
               if(r != want) fail("read-count", "read(%lld) at %lld of %lld returned %lld", (long long)len, (long long)m.pos, (long long)size, (long long)r);
               if(memcmp(buf.data(), m.data.data() + m.pos, (size_t)r)) fail("contents", "read(%lld) at %lld returned other bytes than the array holds", (long long)len, (long long)m.pos);
               for(size_t i = (size_t)r; i < buf.size(); i++) if(buf[i] != '\x5a') fail("overrun", "read() changed bytes behind the %lld it returned", (long long)r);
               m.pos += r;
               break;
            }
            case 2: case 3:
            {
               i64 len = anyLen(), want = std::min<i64>(len, size - m.pos);
               std::string d = genBytes((size_t)len, W(5), W(1000));
               u8* copy = new u8[(size_t)len]; memcpy(copy, d.data(), (size_t)len);
               i64 r = m.s->write((const uint8*)copy, len);
               delete[] copy;
               log("write %lld -> %lld", (long long)len, (long long)r);
               if(r != want) fail("write-count", "write(%lld) at %lld of %lld returned %lld", (long long)len, (long long)m.pos, (long long)size, (long long)r);
               memcpy(&m.data[0] + m.pos, d.data(), (size_t)r);
               m.pos += r;
               if(r < len) probe("write_truncated");
               break;
            }
            case 4:
            {
               i64 to; switch(W(6)) { case 0: to = size; break; case 5: to = far() + (i64)W((u32)size + 1); break; case 1: to = -1 - (i64)W(5); break; case 2: to = size + 1 + W(1000); break; default: to = (i64)W((u32)size + 1); }
               i64 old = m.pos;
               bool t = threw([&] { m.s->seek(to); });
               i64 p = m.s->position();
               log("seek %lld -> %lld", (long long)to, (long long)p);
               bool in = to >= 0 && to < size;
               if(in && (t || p != to)) fail("position", "position() is %lld after seek(%lld) in %lld bytes", (long long)p, (long long)to, (long long)size);
               if(!in && p != old && !(to == size && p == to)) fail("position", "seek(%lld) outside of the %lld bytes moved the stream to %lld", (long long)to, (long long)size, (long long)p);
               m.pos = p;
               break;
            }
            case 5:
            {
               i64 by; switch(W(5)) { case 4: by = far() + (i64)W((u32)size + 1) - m.pos; break; case 0: by = (i64)W((u32)size + 2) - m.pos; break; case 1: by = -(i64)W(20); break; default: by = W(20); }
               i64 old = m.pos, to = old + by;
               bool t = threw([&] { m.s->move(by); });
               i64 p = m.s->position();
               log("move %lld -> %lld", (long long)by, (long long)p);
               bool in = to >= 0 && to < size;
               if(in && (t || p != to)) fail("position", "position() is %lld after move(%lld) from %lld in %lld bytes", (long long)p, (long long)by, (long long)old, (long long)size);
               if(!in && p != old && !(to == size && p == to)) fail("position", "move(%lld) from %lld outside of the %lld bytes moved the stream to %lld", (long long)by, (long long)old, (long long)size, (long long)p);
               m.pos = p;
               break;
            }
            case 6:
               if(W(2)) m.s->close();
               else if(m.s->open(W(2) ? FileMode::kRead : FileMode::kReadWrite) != Status::eOK) fail("open-failed", "a memory stream cannot be opened");
               m.pos = 0;
               break;
            default:
               if(m.s->size() != size) fail("size", "size() is %lld for %lld bytes", (long long)m.s->size(), (long long)size);
               if(m.s->position() != m.pos) fail("position", "position() is %lld, expected %lld", (long long)m.s->position(), (long long)m.pos);
               if(!m.s->isOpen()) fail("open", "a memory stream is never open");
               if(m.s->buffer() != m.raw) fail("buffer", "buffer() is not the array of the stream");
               break;
         }
         if(memcmp(m.raw, m.data.data(), m.data.size())) fail("contents", "the array does not hold what was written to the stream");
      }
      for(auto& m : ms)
      {
         m.s->release();
         if(m.own == memAlive(m.raw) && !m.data.empty()) fail("ownership", m.own ? "an owned array was not freed with its stream" : "an array owned by somebody else was freed");
         if(!m.own) { if(memcmp(m.raw, m.data.data(), m.data.size())) fail("contents", "the array changed when its stream was destroyed"); delete[] m.raw; }
      }
   }

   // resources are files below the resource directory; copies refer to the same stream
   void resourceOps()
   {
      std::string dir = S(ResourceDir(System::bundleId()).absolutePath());
      fsMkdirs(dir + "/sub");
      static const char* names[] = {"a.txt", "sub/b.bin", "missing"};
      std::string data[2];
      for(u32 i = 0; i < 2; i++) { data[i] = genBytes(Wlen(5000), W(5), W(1000)); fsWrite(dir + "/" + names[i], data[i]); }
      if(W(2)) { faults.mask = FK_OPEN_ERR | FK_READ_ERR | FK_SHORT_READ | FK_STALL | FK_STAT_ERR; faults.perMille = 20 + W(200); }
      struct H { Resource* r; int k; int stream; };
      std::vector<H> hs;
      struct St { i64 pos = 0; bool open = false; bool lax = false; };
      std::vector<St> st;
      u32 ops = 1 + Wlen(30);
      for(u32 o = 0; o < ops; o++)
      {
         if(hs.empty() || W(6) == 0)
         {
            int k = (int)W(3);
            Resource* r = new Resource(J(names[k]));
            st.push_back(St()); hs.push_back({r, k, (int)st.size() - 1});
            log("resource %s", names[k]);
            continue;
         }
         H& h = hs[W((u32)hs.size())];
         St& s = st[(size_t)h.stream];
         FsErr e0 = fsErrs();
         switch(W(8))
         {
            case 0: { H c{new Resource(*h.r), h.k, h.stream}; log("copy"); hs.push_back(c); break; }
            case 1:
            {
               H& g = hs[W((u32)hs.size())];
               log("assign");
               if(g.stream != h.stream)
               {
                  bool last = true; for(auto& x : hs) if(&x != &h && x.stream == h.stream) last = false;
                  if(last && s.open) { threw([&] { h.r->close(); }); s.open = false; }
               }
               *h.r = *g.r; h.k = g.k; h.stream = g.stream; break;
            }
            case 2:
            {
               bool last = true; for(auto& x : hs) if(&x != &h && x.stream == h.stream) last = false;
               log("release");
               if(last && s.open) { threw([&] { h.r->close(); }); s.open = false; }
               h.r->release(); hs.erase(hs.begin() + (&h - hs.data())); break;
            }
            case 3:
            {
               bool e = h.r->exists(); 
               if(fsErrs().count == e0.count && e != (h.k < 2)) fail("exists", "exists() of %s is %d", names[h.k], e);
               i64 z = h.r->size();
               if(fsErrs().statErr == e0.statErr && z != (h.k < 2 ? (i64)data[h.k].size() : 0)) fail("size", "size() of %s is %lld", names[h.k], (long long)z);
               break;
            }
            case 4:
            {
               Status r = Status::eOK;
               bool t = threw([&] { r = h.r->open(FileMode::kRead); });
               bool ok = !t && r == Status::eOK;
               log("open %s -> %d", names[h.k], ok);
               if(ok && h.k == 2) fail("open", "a missing resource was opened");
               if(!ok && h.k < 2 && fsErrs().count == e0.count) fail("open", "a resource could not be opened although nothing failed");
               if(h.r->isOpen() != ok) fail("open", "isOpen() is %d after open() returned %d", h.r->isOpen(), ok);
               s.open = ok; s.pos = 0; s.lax = false;
               break;
            }
            case 5:
            {
               bool t = threw([&] { h.r->close(); });
               if(t) fail("close", "close() of a resource that was only read reported an error");
               if(h.r->isOpen()) fail("open", "isOpen() after close()");
               s.open = false;
               break;
            }
            default:
            {
               if(!s.open) break;
               if(!h.r->isOpen()) fail("open", "isOpen() is false for a copy of an open resource");
               const std::string& d = data[h.k];
               if(W(3) == 2)
               {
                  i64 to = (i64)W((u32)d.size() + 1);
                  if(W(2)) h.r->seek(to); else if(!s.lax) h.r->move(to - s.pos); else break;
                  s.pos = to;
                  s.lax = false;
               }
               if(s.lax) break;
               if(h.r->position() != s.pos) fail("position", "position() is %lld, expected %lld", (long long)h.r->position(), (long long)s.pos);
               i64 len = 1 + (i64)Wlen(3000), want = std::min<i64>(len, (i64)d.size() - s.pos);
               ByteArray b(len, 0);
               i64 r = W(2) ? h.r->readFully(b, len) : h.r->read((uint8*)b.data(), len);
               log("read %lld -> %lld", (long long)len, (long long)r);
               bool err = fsErrs().readErr != e0.readErr;
               if(r > want || (r < want && !err)) fail("read-count", "read(%lld) at %lld of %zu returned %lld", (long long)len, (long long)s.pos, d.size(), (long long)r);
               if(memcmp(b.constData(), d.data() + s.pos, (size_t)r)) fail("contents", "wrong bytes were read from a resource");
               s.pos += r; s.lax = err;
               break;
            }
         }
      }
      faults.perMille = 0;
      // resources are streams and can be written like files
      if(!hs.empty() && W(3) == 2)
      {
         H& h = hs[W((u32)hs.size())];
         for(auto& x : hs) x.r->close();
         std::string want = h.k < 2 ? data[h.k] : "", d = genBytes(1 + Wlen(3000), W(5), W(1000));
         i64 pos = 0; bool fresh = h.k == 2 || W(2);
         if(h.r->open(fresh ? FileMode::kWrite : FileMode::kReadWrite) != Status::eOK) fail("open", "a resource cannot be opened for writing");
         if(fresh) want.clear(); else { pos = (i64)W((u32)want.size() + 1); h.r->seek(pos); }
         i64 r = h.r->write((const uint8*)d.data(), (i64)d.size());
         if(r != (i64)d.size()) fail("write-count", "write(%zu) returned %lld", d.size(), (long long)r);
         if(h.r->position() != pos + r) fail("position", "position() is %lld after writing, expected %lld", (long long)h.r->position(), (long long)(pos + r));
         if((i64)want.size() < pos + r) want.resize((size_t)(pos + r));
         memcpy(&want[(size_t)pos], d.data(), d.size());
         h.r->close();
         std::string got = fsRead(dir + "/" + names[h.k]);
         log("written %s", names[h.k]);
         if(got != want) fail("contents", "after writing a resource its file has %zu other bytes than the %zu expected ones", got.size(), want.size());
         if(!h.r->exists() || h.r->size() != (i64)want.size()) fail("size", "exists() is %d and size() is %lld after writing %zu bytes", h.r->exists(), (long long)h.r->size(), want.size());
         probe("resources_written");
      }
      for(auto& h : hs) { h.r->close(); h.r->release(); }
      if(fsOpenFds()) fail("handle-leak", "%d descriptors are still open after every resource is gone", fsOpenFds());
   }
   void resources()
   {
      static std::string journal;
      System::log(String("warm up"), LogLevel::kError);
      { Resource r(String("none")); threw([&] { r.open(FileMode::kRead); }); r.exists(); }
      u64 live0 = liveBlocks();
      resourceOps();
      if(liveBlocks() > live0) fail("leak", "%llu memory blocks are left over after every resource is gone", (unsigned long long)(liveBlocks() - live0));
   }

   void run()
   {
      if(W(3)) { nontrivial(); noLeak(memoryStreams); probe("memory_streams"); }
      else { initLib(); nontrivial(); resources(); probe("resources"); }
   }

   Registrar r15({"C15", run, 60000, 1500000,
      "histories of read, write, seek, move, open and close on memory streams of 0 to 1000 bytes, and of creating, copying, assigning, reading and destroying resources under read, open and stat errors; compared with a byte sequence and a position.",
      "distinct executions (hash over workload, injected faults, file system calls and outcomes)",
      "MemoryStream, Resource, File, Stream, ByteArray (instrumented build)",
      "file system behind fopen/fread/.../stat, clock, heap"});
}
