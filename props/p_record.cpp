// C26: binary records (Serializer), their check sums (CRC) and their form for text channels (Base64).
#include "common.h"
using namespace jm;

namespace
{
   typedef std::string B;
   uint16_t crcRef(uint16_t c, const B& b)      // CRC-16/ARC, bit by bit
   {
      for(u8 x : b) { c ^= x; for(int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xA001 : c >> 1; }
      return c;
   }
   B b64Ref(const B& b)
   {
      static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      B o; u32 acc = 0; int bits = 0;
      for(u8 x : b) { acc = acc << 8 | x; bits += 8; while(bits >= 6) { bits -= 6; o += a[acc >> bits & 63]; } acc &= (1u << bits) - 1; }
      if(bits) o += a[acc << (6 - bits) & 63];
      while(o.size() % 4) o += '=';
      return o;
   }
   B bytes(u32 max) { u32 n = Wlen(max); B s; u32 k = W(3); for(u32 i = 0; i < n; i++) s += (char)(k == 0 ? W(256) : k == 1 ? 0xff * W(2) : W(4)); return s; }

   //------------------------------------------------------------------ fields
   enum { LE16, LEU16, LE24, LE32, LE64, LEF, LED, BE16, BE24, BE32, BE64, KINDS };
   const char* kname[] = {"LEInt16", "LEUInt16", "LEInt24", "LEInt32", "LEInt64", "LEFloat", "LEDouble", "BEInt16", "BEInt24", "BEInt32", "BEInt64"};
   const int width[] = {2, 2, 3, 4, 8, 4, 8, 2, 3, 4, 8};
   struct Field { u32 kind; u64 bits; };
   bool big(u32 k) { return k >= BE16; }
   Field field()
   {
      Field f; f.kind = W(KINDS); f.bits = W64();
      if(f.kind == LED) { double d; if(W(2)) { d = ((double)W(2000001) - 1000000) / (double)(1 + W(1000)); memcpy(&f.bits, &d, 8); } }
      int w = width[f.kind]; if(w < 8) f.bits &= (1ull << w * 8) - 1;
      if(f.kind == LEF) { float x; u32 v = (u32)f.bits; memcpy(&x, &v, 4); if(x != x) f.bits = 0x3f800000; }
      return f;
   }
   B raw(const Field& f) { B o; int w = width[f.kind]; for(int i = 0; i < w; i++) o += (char)(f.bits >> 8 * (big(f.kind) ? w - 1 - i : i)); return o; }
   int write(uint8* b, uint32 o, const Field& f)
   {
      u64 v = f.bits;
      switch(f.kind)
      {
         case LE16: return serializeLEInt16(b, o, (int16)v);
         case LEU16: return serializeLEUInt16(b, o, (uint16)v);
         case LE24: return serializeLEInt24(b, o, (int32)v);
         case LE32: return serializeLEInt32(b, o, (int32)v);
         case LE64: return serializeLEInt64(b, o, (int64)v);
         case LEF: { float x; u32 y = (u32)v; memcpy(&x, &y, 4); return serializeLEFloat(b, o, x); }
         case LED: { double x; memcpy(&x, &v, 8); return serializeLEDouble(b, o, x); }
         case BE16: return serializeBEInt16(b, o, (int16)v);
         case BE24: return serializeBEInt24(b, o, (int32)v);
         case BE32: return serializeBEInt32(b, o, (int32)v);
         default: return serializeBEInt64(b, o, (int64)v);
      }
   }
   void val(const char* what, u32 o, u64 got, u64 want) { if(got != want) fail("record", "%s at %u is %llx instead of %llx", what, o, (unsigned long long)got, (unsigned long long)want); }
   void read(uint8* b, const ByteArray& a, u32 o, const Field& f)
   {
      u64 v = f.bits; const char* n = kname[f.kind];
      switch(f.kind)
      {
         case LE16: case LEU16:
            val("deserializeLEUInt16", o, deserializeLEUInt16(b, o), v); val("deserializeLEUInt16 of an array", o, deserializeLEUInt16(a, o), v);
            val("deserializeLEInt16", o, (u64)(i64)deserializeLEInt16(b, o), (u64)(i64)(int16)v); val("deserializeLEInt16 of an array", o, (u64)(i64)deserializeLEInt16(a, (int64)o), (u64)(i64)(int16)v); break;
         case LE32:
            val("deserializeLEUInt32", o, deserializeLEUInt32(b, o), v); val("deserializeLEUInt32 of an array", o, deserializeLEUInt32(a, (int64)o), v);
            val("deserializeLEInt32", o, (u64)(i64)deserializeLEInt32(b, o), (u64)(i64)(int32)v); val("deserializeLEInt32 of an array", o, (u64)(i64)deserializeLEInt32(a, (int64)o), (u64)(i64)(int32)v); break;
         case LE64: val("deserializeLEInt64", o, (u64)deserializeLEInt64(b, o), v); val("deserializeLEInt64 of an array", o, (u64)deserializeLEInt64(a, (int64)o), v); break;
         case LEF: { float x = deserializeLEFloat(b, o); u32 y; memcpy(&y, &x, 4); val("deserializeLEFloat", o, y, v); break; }
         case LED: { double x = deserializeLEDouble(b, o); u64 y; memcpy(&y, &x, 8); val("deserializeLEDouble", o, y, v); x = deserializeLEDouble(a, (int64)o); memcpy(&y, &x, 8); val("deserializeLEDouble of an array", o, y, v); break; }
         case BE16:
            val("deserializeBEUInt16", o, deserializeBEUInt16(b, o), v); val("deserializeBEInt16", o, (u64)(i64)deserializeBEInt16(b, o), (u64)(i64)(int16)v);
            val("deserializeBEInt16 of an array", o, (u64)(i64)deserializeBEInt16(a, (int64)o), (u64)(i64)(int16)v); break;
         case BE32:
            val("deserializeBEUInt32", o, deserializeBEUInt32(b, (int64)o), v); val("deserializeBEUInt32 of an array", o, deserializeBEUInt32(a, (int64)o), v);
            val("deserializeBEInt32 of an array", o, (u64)(i64)deserializeBEInt32(a, (int64)o), (u64)(i64)(int32)v); break;
         case BE64: val("deserializeBEInt64", o, (u64)deserializeBEInt64(b, o), v); val("deserializeBEInt64 of an array", o, (u64)deserializeBEInt64(a, (int64)o), v); break;
         default: (void)n; break;
      }
   }

   struct Record { std::vector<Field> f; B b; };
   Record record()
   {
      Record r; u32 n = 1 + Wlen(12);
      for(u32 i = 0; i < n; i++) { r.f.push_back(field()); r.b += raw(r.f.back()); }
      return r;
   }
   // writes the record with the library into a buffer that is exactly large enough
   B build(const Record& r, u32 lead)
   {
      u32 size = lead + (u32)r.b.size();
      uint8* buf = new uint8[size]; memset(buf, 0xA5, size);
      // in any order, every field at its place
      std::vector<u32> off, ord; u32 o = lead; for(auto& f : r.f) { off.push_back(o); ord.push_back((u32)ord.size()); o += (u32)width[f.kind]; }
      for(u32 i = (u32)ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[W(i)]);
      for(u32 i : ord) { int w = write(buf, off[i], r.f[i]); if(w != width[r.f[i].kind]) fail("record", "serialize%s() reports %d bytes", kname[r.f[i].kind], w); }
      B s((char*)buf, size); delete[] buf;
      if(s.substr(0, lead) != B(lead, (char)0xA5) || s.substr(lead) != r.b)
      {
         for(u32 i = 0; i < off.size(); i++) if(s.compare(off[i], (size_t)width[r.f[i].kind], raw(r.f[i]))) fail("record", "serialize%s(%llx) wrote %s", kname[r.f[i].kind], (unsigned long long)r.f[i].bits, hex(s.data() + off[i], (size_t)width[r.f[i].kind]).c_str());
         fail("record", "serializing changed bytes in front of the record");
      }
      return s.substr(lead);
   }
   void parse(const Record& r, const B& b)
   {
      uint8* buf = new uint8[b.size()]; memcpy(buf, b.data(), b.size());
      ByteArray a((const uint8*)b.data(), (int64)b.size());
      u32 o = 0; for(auto& f : r.f) { read(buf, a, o, f); o += (u32)width[f.kind]; }
      delete[] buf;
   }

   //------------------------------------------------------------------ check sums
   uint16_t crc(uint16_t init, const B& b)
   {
      uint8* p = new uint8[b.size()]; memcpy(p, b.data(), b.size());
      uint16_t c = CRC::crc8(init, p, (uint32)b.size());
      delete[] p; return c;
   }
   void sums()
   {
      B b = bytes(60); uint16_t init = W(2) ? (uint16_t)W(65536) : 0;
      uint16_t c = crc(init, b);
      if(c != crcRef(init, b)) fail("crc", "the sum of %s from %04x is %04x instead of %04x", hex(b.data(), b.size()).c_str(), init, c, crcRef(init, b));
      size_t k = W((u32)b.size() + 1);
      if(crc(crc(init, b.substr(0, k)), b.substr(k)) != c) fail("crc", "the sum depends on how the bytes are cut");
   }

   //------------------------------------------------------------------ text form
   B enc(const B& b)
   {
      uint8* p = new uint8[b.size()]; memcpy(p, b.data(), b.size());
      int64 n = (int64)b.size(); uint8* e = Base64::encode(p, n); delete[] p;
      B o((char*)e, (size_t)n); delete[] e; return o;
   }
   B dec(const B& t)
   {
      uint8* p = new uint8[t.size()]; memcpy(p, t.data(), t.size());
      uint32 n = (uint32)t.size(); uint8* d = Base64::decode(p, n); delete[] p;
      if(n > t.size()) fail("base64", "%u bytes were decoded from %zu characters", n, t.size());
      B o((char*)d, n); delete[] d; return o;
   }
   void transport()
   {
      B b = bytes(50), t = enc(b);
      if(t != b64Ref(b)) fail("base64", "%s is encoded as %s instead of %s", hex(b.data(), b.size()).c_str(), t.c_str(), b64Ref(b).c_str());
      B d = dec(b64Ref(b));
      if(d != b) fail("base64", "%s is decoded as %s instead of %s", t.c_str(), hex(d.data(), d.size()).c_str(), hex(b.data(), b.size()).c_str());
      if(W(2) && t.size())
      {
         // a channel that damages or cuts the text: what is before the damage is right, memory outside is not touched
         size_t k = W((u32)t.size()); B x = t.substr(0, k);
         if(W(2)) { x = t; static const char bad[] = {'\n', ' ', '=', '-', 0, (char)0xff, (char)0x80, '.'}; x[k] = bad[W(8)]; probe("base64_damaged"); }
         d = dec(x);
         size_t sure = k * 6 / 8;
         if(d.size() < std::min(sure, b.size()) || d.compare(0, std::min(sure, b.size()), b, 0, std::min(sure, b.size()))) fail("base64", "%s, damaged at %zu, is decoded as %s", t.c_str(), k, hex(d.data(), d.size()).c_str());
         if(d.size() > b.size() || (d != b.substr(0, d.size()) && x.size() == k)) fail("base64", "%s, cut at %zu, is decoded as %s, which is not the beginning", t.c_str(), k, hex(d.data(), d.size()).c_str());
      }
   }

   //------------------------------------------------------------------ a log of records in a file
   B frame(const Record& r)
   {
      B p = build(r, W(9)); uint8 h[4]; serializeLEInt32(h, 0, (int32)p.size()); B o((char*)h, 4); o += p;
      uint8 c[2]; serializeLEUInt16(c, 0, crc(0, o)); return o + B((char*)c, 2);
   }
   void stored()
   {
      std::vector<Record> rec; u32 n = 1 + W(5); for(u32 i = 0; i < n; i++) rec.push_back(record());
      bool text = W(3) == 0;
      std::string path = "/tmp/records"; fsRemove(path); journalClear();
      u32 mode = W(4); u32 pm = W(2) ? 40 : 250; int crash = mode == 3 ? (int)W(14) : -1;
      std::vector<B> frames;
      boot([&]
      {
         initLib();
         for(auto& r : rec) { B f = frame(r); journal(text ? enc(f) + "\n" : f); }
      });
      frames = journalRead(); journalClear();
      if(frames.size() != n) fail("record", "records could not be built");
      boot([&]
      {
         initLib();
         if(mode == 1) { faults.mask = FK_SHORT_WRITE; faults.perMille = pm; }
         if(mode == 2) { faults.mask = FK_WRITE_ERR | FK_ENOSPC | FK_CLOSE_ERR | FK_SHORT_WRITE; faults.perMille = pm; }
         if(crash >= 0) faults.crashAt = (int)fsCalls() + crash;
         size_t end = 0;
         for(u32 i = 0; i < n; i++)
         {
            File f(J(path)); FsErr e0 = fsErrs();
            bool t = threw([&] { f.open(i ? FileMode::kReadWrite : FileMode::kWrite); if(i) f.seek((int64)end); if(f.write((const uint8*)frames[i].data(), (int64)frames[i].size()) != (int64)frames[i].size()) throw Exception("short"); f.close(); });
            if(t && fsErrs().count == e0.count) fail("store", "a record could not be written although nothing was wrong");
            if(t) return;
            end += frames[i].size();
            journal("ok");
         }
      });
      faults = FaultCfg();
      u32 acked = (u32)journalRead().size();
      if(!fsExists(path)) { if(acked) fail("store", "a stored record is gone"); return; }
      B all = fsRead(path), want; for(u32 i = 0; i < acked; i++) want += frames[i];
      if(all.compare(0, want.size(), want)) fail("store", "acknowledged records are not in the file");
      // bursts of up to 16 bits in one record
      int hurt = -1;
      if(W(2) && all.size() && acked)
      {
         hurt = (int)W(acked); size_t o = 0; for(int i = 0; i < hurt; i++) o += frames[(size_t)i].size();
         if(text) { size_t p = o + W((u32)frames[(size_t)hurt].size() - 1); fsFlip(path, p * 8 + W(8)); }
         else
         {
            u64 first = (o + 4) * 8, bits = (frames[(size_t)hurt].size() - 4) * 8; u32 w = 1 + W(16); if(w > bits) w = (u32)bits;
            u64 at = first + W((u32)(bits - w + 1));
            fsFlip(path, at); for(u32 i = 1; i + 1 < w; i++) if(W(2)) fsFlip(path, at + i); if(w > 1) fsFlip(path, at + w - 1);
         }
         probe("burst");
      }
      journalClear();
      boot([&]
      {
         initLib();
         File f(J(path)); ByteArray a(f.size(), 0);
         if(W(3) == 0) { faults.mask = FK_SHORT_READ; faults.perMille = 400; }
         f.open(FileMode::kRead); int64 got = f.readFully(a, a.size()); f.close(); faults = FaultCfg();
         if(got != (int64)all.size()) fail("read", "%lld of %zu bytes were read", (long long)got, all.size());
         B raw(a.constData(), (size_t)got); size_t o = 0;
         for(u32 i = 0; i < n; i++)
         {
            B fr;
            if(text) { size_t e = raw.find('\n', o); if(e == B::npos) break; fr = dec(raw.substr(o, e - o)); o = e + 1; }
            else { if(o + 4 > raw.size()) break; uint32 l = deserializeLEUInt32(ByteArray((const uint8*)raw.data() + o, 4), (int64)0); if(l > raw.size() - o - 4 || raw.size() - o - 4 - l < 2) break; fr = raw.substr(o, l + 6); o += l + 6; }
            bool good = fr.size() >= 6 && crc(0, fr.substr(0, fr.size() - 2)) == deserializeLEUInt16((const uint8*)fr.data(), (uint32)fr.size() - 2);
            if((int)i == hurt && !text && good) fail("crc", "a burst of damaged bits in record %u was not noticed", i);
            if((int)i == hurt) { if(text) break; continue; }
            if(!good) { if(i < acked) fail("crc", "the sum of the undamaged record %u is wrong", i); break; }
            parse(rec[i], fr.substr(4, fr.size() - 6));
            journal("read");
         }
      });
      u32 seen = (u32)journalRead().size();
      if(hurt < 0 && seen < acked) fail("store", "%u of %u acknowledged records were read", seen, acked);
      if(hurt >= 0 && !text && seen + 1 < acked) fail("store", "%u of %u acknowledged records were read, one is damaged", seen, acked);
      probe("stored");
   }

   void run()
   {
      setStepCap(20000000);
      fsMkdirs("/tmp");
      if(W(5) == 0) { stored(); nontrivial(); return; }
      initLib();
      u32 n = 2 + W(10);
      u64 b0 = 0;
      for(u32 i = 0; i < n; i++)
      {
         switch(W(3))
         {
            case 0: { Record r = record(); B b = build(r, W(9)); parse(r, b); mixState(hashStr(b)); break; }
            case 1: sums(); break;
            default: b0 = liveBlocks(); transport(); if(liveBlocks() > b0) fail("leak", "memory was lost"); break;
         }
      }
      if(n > 3) nontrivial();
   }

   Registrar r26({"C26", run, 40000, 1500000,
      "2-11 records (1-13 numbers of 11 kinds, edge-biased, written in any order at any offset of an exactly sized buffer), check sums (any start value, cut in two), Base64 texts (all lengths, cut and damaged) compared with independent references; or 1-5 framed, summed records, binary or as text lines, appended to a file under short and failing writes, full disks and kills, then damaged by a burst of up to 16 bits and read by another process.",
      "distinct histories (hash over records, faults and outcomes)",
      "Serializer, CRC, Base64, ByteArray, File (instrumented build)",
      "file system behind stdio, heap, process crash"});
}
