// C25: texts and collections under histories of operations.
#include "common.h"
#include <algorithm>
#include <memory>
#include <cmath>
using namespace jm;

namespace
{
   typedef std::u16string T;
   typedef std::vector<std::pair<std::string, std::string>> Kv;

   //------------------------------------------------------------------ texts
   struct Txt { std::unique_ptr<String> s; T m; };
   std::vector<Txt> tx;

   char16_t chr() { static const char16_t a[] = u"ab AB1%9,-+\u00e4\u00dc\u20ac\t.0z\n\xd83d"; return W(12) ? a[W(sizeof a / 2 - 1)] : W(2) ? (char16_t)(1 + W(0xfffe)) : (char16_t)(1 + W(0x17f)); }
   T word() { T t; u32 n = Wlen(W(8) ? 5 : 40); for(u32 i = 0; i < n; i++) t += chr(); return t; }
   char16_t lo(char16_t c) { return (c >= 'A' && c <= 'Z') || c == 0xc4 || c == 0xd6 || c == 0xdc ? c + 32 : c; }
   char16_t up(char16_t c) { return (c >= 'a' && c <= 'z') || c == 0xe4 || c == 0xf6 || c == 0xfc ? c - 32 : c; }
   T low(T t) { for(auto& c : t) c = lo(c); return t; }
   bool plain(const T& t) { for(auto c : t) if(c >= 0xc0 && c != 0xc4 && c != 0xd6 && c != 0xdc && c != 0xe4 && c != 0xf6 && c != 0xfc && c != 0x20ac) return false; return true; }
   i64 h31(const T& t) { u32 h = 0; for(auto c : t) h = h * 31 + c; return (int32_t)h; }

   void same(const char* what, const String& got, const T& want)
   {
      if(U(got) != want) fail("text", "%s yields %s instead of %s", what, show(U(got)).c_str(), show(want).c_str());
      if(got.size() != (int64)want.size()) fail("text", "%s: size() is %lld", what, (long long)got.size());
      if(got.constHashCode() != h31(want)) fail("text", "%s: %s has the hash code %lld instead of %lld", what, show(want).c_str(), (long long)got.constHashCode(), (long long)h31(want));
   }
   void num(const char* what, i64 got, i64 want) { if(got != want) fail("value", "%s yields %lld instead of %lld", what, (long long)got, (long long)want); }
   T wide(const std::string& s) { return T(s.begin(), s.end()); }

   // the placeholder with the lowest number
   bool place(const T& t, size_t& b, size_t& e)
   {
      int best = 100; bool f = false;
      auto dig = [](char16_t c) { return c >= '0' && c <= '9'; };
      for(size_t i = 0; i + 1 < t.size(); i++) if(t[i] == '%' && dig(t[i + 1]))
      {
         int n = t[i + 1] - '0'; size_t l = 2;
         if(i + 2 < t.size() && dig(t[i + 2])) { if(n == 0) continue; n = n * 10 + t[i + 2] - '0'; l = 3; }
         if(n < best) { best = n; b = i; e = i + l; f = true; }
      }
      return f;
   }
   bool odd(const T& t)      // %0x is not a placeholder anyone uses
   {
      for(size_t i = 0; i + 2 < t.size(); i++) if(t[i] == '%' && t[i + 1] == '0' && t[i + 2] >= '0' && t[i + 2] <= '9') return true;
      return false;
   }
   T argRef(const T& t, T v, i64 w)
   {
      size_t b, e; if(!place(t, b, e)) return t;
      while((i64)v.size() < w) v.insert(v.begin(), u'_');
      while((i64)v.size() < -w) v += u'_';
      return t.substr(0, b) + v + t.substr(e);
   }

   void textOp()
   {
      u32 i = W((u32)tx.size()), j = W((u32)tx.size());
      String& s = *tx[i].s; T& m = tx[i].m; String& o = *tx[j].s; T om = tx[j].m;
      if(m.size() > 3000) { s.clear(); m.clear(); }
      int64 p = (int64)W((u32)m.size() + 1);
      if(W(3) == 0) s.hashCode();      // is kept in the text
      switch(W(38))
      {
         case 0: if(m.size() + om.size() > 2000) break; s.append(o); m += om; log("append text"); break;
         case 1: { char16_t c = chr(); if(W(2)) s.append(Char(c)); else s << Char(c); m += c; break; }
         case 2: { T w = word(); if(W(2)) s << JU(w); else s += JU(w); m += w; break; }
         case 3: { char16_t c = chr(); s.insert(p, Char(c)); m.insert((size_t)p, 1, c); break; }
         case 4: if(m.size() + om.size() > 2000) break; log("insert text %u into %u at %lld", j, i, (long long)p); s.insert(p, o); m.insert((size_t)p, om); break;
         case 5: if(p < (int64)m.size()) { s.deleteCharAt(p); m.erase((size_t)p, 1); } break;
         case 6: { int64 l = W(4) ? (int64)W((u32)(m.size() - (size_t)p) + 1) : (int64)W(3000); log("delete %lld characters at %lld of %zu", (long long)l, (long long)p, m.size()); s.deleteCharRangeAt(p, l); m.erase((size_t)p, (size_t)l); break; }
         case 7: if(p < (int64)m.size()) { char16_t c = chr(); s.setCharAt(p, Char(c)); m[(size_t)p] = c; } break;
         case 8: s.clear(); m.clear(); break;
         case 9: s.zero(); m.clear(); break;
         case 10: s = o; m = om; break;
         case 11: tx[i].s.reset(new String(o)); tx[i].m = om; break;
         case 12: { T w = word(); tx[i].s.reset(new String(JU(w))); tx[i].m = w; break; }
         case 13:
         {
            int64 b = W(6) ? p : p - (int64)m.size() - 3, e = b + (int64)W(2 * (u32)m.size() + 3) - (W(4) ? 0 : 3);
            size_t rb = b < 0 ? 0 : (size_t)b, re = e < (int64)rb ? rb : std::min((size_t)e, m.size());
            same("substring(b, e)", s.substring(b, e), rb < m.size() && rb < re ? m.substr(rb, re - rb) : T());
            same("substring(b)", s.substring(p), m.substr((size_t)p));
            break;
         }
         case 14: { T w = m; auto ws = [](char16_t c) { return c == ' ' || (c >= 8 && c <= 10) || c == 12 || c == 13; }; while(!w.empty() && ws(w[0])) w.erase(0, 1); while(!w.empty() && ws(w.back())) w.pop_back(); same("trim()", s.trim(), w); break; }
         case 15: { char16_t a = chr(), b = chr(); T w = m; for(auto& c : w) if(c == a) c = b; same("replace(character)", s.replace(Char(a), Char(b)), w); break; }
         case 16:
         {
            if(W(3) == 2)
            {
               // texts that overlap with themselves
               auto ab = [](u32 n) { T t; for(u32 i = 0; i < n; i++) t += W(3) ? u'a' : u'b'; return t; };
               T t = ab(W(14)), a = ab(1 + W(4)), b = ab(W(4)), w; size_t k = 0, q = W(16);
               for(;;) { size_t f = t.find(a, k); if(f == T::npos) { w += t.substr(k); break; } w += t.substr(k, f - k) + b; k = f + a.size(); }
               String js = JU(t), ja = JU(a);
               log("in %s", show(t).c_str());
               same("replace(text)", js.replace(ja, JU(b)), w);
               num("indexOf(text)", js.indexOf(ja), (i64)t.find(a)); num("indexOf(text, from)", js.indexOf(ja, (int64)q), (i64)t.find(a, q));
               num("lastIndexOf(text)", js.lastIndexOf(ja), (i64)t.rfind(a)); num("lastIndexOf(text, from)", js.lastIndexOf(ja, (int64)q), (i64)t.rfind(a, q));
               break;
            }
            T a = W(3) && m.size() ? m.substr((size_t)p, 1 + W(3)) : word(), b = word(), w; if(m.size() > 600) break;
            log("replace %s by %s", show(a).c_str(), show(b).c_str());
            size_t k = 0; if(a.empty()) w = m; else for(;;) { size_t f = m.find(a, k); if(f == T::npos) { w += m.substr(k); break; } w += m.substr(k, f - k) + b; k = f + a.size(); }
            same("replace(text)", s.replace(JU(a), JU(b)), w);
            break;
         }
         case 17: { T w(m.rbegin(), m.rend()); same("reverse()", s.reverse(), w); break; }
         case 18:
         {
            // single characters
            u32 k = 1 + W(6);
            for(; k; k--)
            {
               char16_t c = W(3) ? (char16_t)W(0x100) : (char16_t)W(0x10000); Char x(c); bool d = c >= '0' && c <= '9';
               bool ua = (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7), la = (c >= 'a' && c <= 'z') || (c >= 0xdf && c <= 0xff && c != 0xf7);
               num("isDigit()", x.isDigit(), d); num("digitValue()", x.digitValue(), d ? c - '0' : -1); num("isWhitespace()", x.isWhitespace(), c == ' ' || (c >= '\b' && c <= '\r' && c != '\v'));
               if(c < 0x100) { num("isUpperCase()", x.isUpperCase(), ua); num("isLowerCase()", x.isLowerCase(), la); num("isLetter()", x.isLetter(), ua || la); }
               if(plain(T(1, c)) || (c > 0x3000 && c < 0xa000)) { num("toLowerCase() of a character", x.toLowerCase().unicode(), lo(c)); num("toUpperCase() of a character", x.toUpperCase().unicode(), up(c)); }
            }
            if(!plain(m)) break; T w = m; for(auto& c : w) c = up(c); same("toLowerCase()", s.toLowerCase(), low(m)); same("toUpperCase()", s.toUpperCase(), w);
            break;
         }
         case 19: { char16_t c = chr(); num("count()", s.count(Char(c)), std::count(m.begin(), m.end(), c)); num("indexOf(character)", s.indexOf(Char(c)), (i64)m.find(c)); num("indexOf(character, from)", s.indexOf(Char(c), p), (i64)m.find(c, (size_t)p)); num("lastIndexOf(character)", s.lastIndexOf(Char(c)), (i64)m.rfind(c)); if(p < (int64)m.size()) num("lastIndexOf(character, from)", s.lastIndexOf(Char(c), p), (i64)m.rfind(c, (size_t)p)); break; }
         case 20: { T w = W(3) && m.size() ? m.substr((size_t)p, 1 + W(4)) : word(); if(w.empty()) break; String js = JU(w); num("indexOf(text)", s.indexOf(js), (i64)m.find(w)); num("indexOf(text, from)", s.indexOf(js, p), (i64)m.find(w, (size_t)p)); num("lastIndexOf(text)", s.lastIndexOf(js), (i64)m.rfind(w)); num("lastIndexOf(text, from)", s.lastIndexOf(js, p), (i64)m.rfind(w, (size_t)p)); break; }
         case 21: { T w = W(3) ? W(2) ? m.substr(0, (size_t)p) : m.substr((size_t)p) : word(); String js = JU(w); auto sub = [&](size_t q) { return m.size() >= q + w.size() && m.compare(q, w.size(), w) == 0; }; num("startsWith()", s.startsWith(js), sub(0)); num("endsWith()", s.endsWith(js), m.size() >= w.size() && sub(m.size() - w.size())); num("atIs()", s.atIs(p, js), sub((size_t)p)); if(plain(m) && plain(w)) num("atIsIgnoreCase()", s.atIsIgnoreCase(p, js), m.size() >= (size_t)p + w.size() && low(m).compare((size_t)p, w.size(), low(w)) == 0); break; }
         case 22:
         {
            num("equals()", s.equals(o), m == om); num("==", s == o, m == om); num("!=", s != o, m != om);
            const Object* ob = &o; num("equals(object)", s.equals(ob), m == om);
            int c = m < om ? -1 : m > om; int g = s.compareTo(o); num("compareTo()", g < 0 ? -1 : g > 0, c); num("<", s < o, m < om);
            if(plain(m) && plain(om)) num("equalsIgnoreCase()", s.equalsIgnoreCase(o), low(m) == low(om));
            break;
         }
         case 23:
         {
            u32 a = W(100000), b = W(3) ? W(100000) : a; T x = u"file-", y = x; T e = W(2) ? u".x" : u"";
            int g = JU(x + wide(std::to_string(a)) + e).compareFancyTo(JU(y + wide(std::to_string(b)) + e));
            num("compareFancyTo()", g < 0 ? -1 : g > 0, a < b ? -1 : a > b);
            num("compareFancyTo(itself)", s.compareFancyTo(s), 0);
            num("compareFancyTo(other)", s.compareFancyTo(o), -o.compareFancyTo(s));
            break;
         }
         case 24: if(W(2)) num("hashCode()", s.hashCode(), h31(m)); num("constHashCode()", s.constHashCode(), h31(m)); break;
         case 25:
         {
            std::string msg; static const i64 out[] = {-1, 0, 1, 1000}; i64 q = out[W(4)]; if(q >= 0) q += (i64)m.size();
            bool t = true; String& r = s; T w = word();
            switch(W(6))
            {
               case 0: t = threw([&] { r.charAt(q); }); break;
               case 1: t = threw([&] { r.setCharAt(q, Char('x')); }); break;
               case 2: t = threw([&] { r.deleteCharAt(q); }); break;
               case 3: if(q == (i64)m.size()) break; t = threw([&] { r.insert(q, Char('x')); }); break;
               case 4: if(q == (i64)m.size()) break; t = threw([&] { r.insert(q, JU(w)); }); break;
               default: if(q == (i64)m.size()) break; t = threw([&] { r.deleteCharRangeAt(q, 1); }); break;
            }
            if(!t) fail("text", "position %lld of a text of %zu characters was accepted", (long long)q, m.size());
            probe("out_of_range");
            break;
         }
         case 26:
         {
            // a text with placeholders of its own, or the text of the history
            T base = m;
            if(W(4)) { base.clear(); u32 n = 1 + W(4); for(u32 k = 0; k < n; k++) { T w = word(); if(w.size() > 12) w.resize(12); base += w; base += u'%'; base += wide(std::to_string(W(3) ? 1 + W(9) : 1 + W(99))); if(W(2)) base += u' '; } if(W(2)) base += u'z'; }
            if(odd(base) || base.size() > 600) break;
            String h = JU(base);
            i64 w = W(3) ? (i64)W(26) - 13 : 0; Char f('_');
            switch(W(7))
            {
               case 0: { T v = word(); same("arg(text)", h.arg(JU(v), w, f), argRef(base, v, w)); break; }
               case 1: { i64 v = (i64)W64(); if(W(2)) v = (i64)W(200) - 100; same("arg(int64)", h.arg((int64)v, w, f), argRef(base, wide(std::to_string(v)), w)); break; }
               case 2: { u64 v = W64(); if(W(2)) v = W(200); same("arg(uint64)", h.arg((uint64)v, w, f), argRef(base, wide(std::to_string(v)), w)); break; }
               case 3: { int32_t v = (int32_t)W64(); if(W(2)) v = (int32_t)W(200) - 100; same("arg(int32)", h.arg((int32)v, w, f), argRef(base, wide(std::to_string(v)), w)); break; }
               case 4: { uint32_t v = (uint32_t)W64(); if(W(2)) v = W(200); same("arg(uint32)", h.arg((uint32)v, w, f), argRef(base, wide(std::to_string(v)), w)); break; }
               case 5: { double v = ((double)W(2000001) - 1000000) / 64; i64 pr = W(2) ? -1 : (i64)W(6); T t = U(String::valueOf(v, pr < 0 ? 10 : pr, pr < 0)); same("arg(double)", h.arg(v, w, pr, f), argRef(base, t, w)); break; }
               default: { char16_t v = chr(); same("arg(character)", h.arg(Char(v), w, f), argRef(base, T(1, v), w)); break; }
            }
            probe("arg");
            break;
         }
         case 27: { T f = W(2) ? u"%1 %2 %1" : u"a%2b%10c%1"; std::string a = std::to_string(W(1000)), b = std::to_string(W(1000)); T r = argRef(argRef(f, wide(a), 0), wide(b), 0); same("arg().arg()", JU(f).arg(JU(wide(a))).arg(JU(wide(b))), r); break; }
         case 28:
         {
            // tokens
            T d; u32 n = 1 + W(2); for(u32 k = 0; k < n; k++) d += chr();
            bool ret = W(2);
            std::vector<T> want; T cur; bool in = false;
            for(auto c : m) { if(d.find(c) != T::npos) { if(in) want.push_back(cur); cur.clear(); in = false; if(ret) want.push_back(T(1, c)); } else { cur += c; in = true; } }
            if(in) want.push_back(cur);
            StringTokenizer st(s, JU(d), ret);
            size_t k = 0;
            for(; W(5) == 0 || st.hasNext(); k++) { if(k == want.size()) { if(st.hasNext()) fail("tokens", "there are more than %zu tokens in %s", k, show(m).c_str()); break; } String t = st.next(); same("next()", t, want[k]); }
            if(k != want.size()) fail("tokens", "there are %zu instead of %zu tokens in %s", k, want.size(), show(m).c_str());
            if(!threw([&] { st.next(); })) fail("tokens", "next() after the last token gives a token");
            break;
         }
         case 29: { char16_t c = m.size() ? m[(size_t)p % m.size()] : u'a'; StringList l = s.split(Char(c)); std::vector<T> want; T cur; for(auto x : m) if(x == c) { if(cur.size()) want.push_back(cur); cur.clear(); } else cur += x; if(cur.size()) want.push_back(cur); num("split().size()", l.size(), (i64)want.size()); for(size_t k = 0; k < want.size(); k++) same("split()", l.get((int64)k), want[k]); break; }
         case 30: { uint16* w = s.toWString(); T t((const char16_t*)w, m.size()); bool z = w[m.size()] == 0; delete[] w; if(t != m || !z) fail("text", "toWString() of %s is different", show(m).c_str()); break; }
         case 31: same("a + b", s + o, m + om); break;
         case 32: { bool num1 = !m.empty(); for(auto c : m) num1 = num1 && ((c >= '0' && c <= '9')); if(num1 && m.size() < 19) num("toInt()", s.toInt(), std::stoll(std::string(m.begin(), m.end()))); bool bad = false; for(auto c : m) bad = bad || (c > 0x39 && c != '-'); if(bad && !threw([&] { s.toInt(); })) fail("value", "toInt() of %s gives a number", show(m).c_str()); break; }
         case 33: case 34:
         {
            // numbers and characters joined to the text
            if(m.size() > 600) break;
            i64 v = W(2) ? (i64)W64() : (i64)W(2000) - 1000; double d = ((double)W(2000001) - 1000000) / 64; char b[40]; snprintf(b, sizeof b, "%.10g", d);
            int64 jv = v; char c = (char)(' ' + W(95)); const char* cs = "caf\xc3\xa9";
            T n = wide(std::to_string(v)), f = wide(b);
            switch(W(9))
            {
               case 0: same("number + text", jv + s, n + m); same("text + number", s + jv, m + n); break;
               case 1: same("double + text", d + s, f + m); same("text + double", s + d, m + f); break;
               case 2: { int8 q = (int8)c; same("character + text", q + s, T(1, (char16_t)c) + m); same("text + character", s + q, m + T(1, (char16_t)c)); break; }
               case 3: same("C text + text", cs + s, u"caf\u00e9" + m); same("text + C text", s + cs, m + u"caf\u00e9"); break;
               case 4: s << jv; m += n; break;
               case 5: { uint64 u = (uint64)v; s << u; m += wide(std::to_string((u64)u)); break; }
               case 6: { int32 q = (int32)v; uint32 r = (uint32)v; s << q << Char('/') << r; m += wide(std::to_string((int32_t)q)) + u"/" + wide(std::to_string((uint32_t)r)); break; }
               case 7: s << d; m += f; break;
               default: s << c; m += (char16_t)c; break;
            }
            break;
         }
         case 35:
         {
            // the same text of UTF-16, and what is written to and read from a C++ stream
            tx[i].s.reset(new String((const uint16*)m.data(), (int64)m.size()));
            if(W(2) && m.size())
            {
               i64 q = (i64)m.size() + W(3); String& r = *tx[i].s; char16_t c = chr(); T w = word();
               if(!threw([&] { r.lastIndexOf(Char(c), q); })) fail("text", "lastIndexOf() from %lld of %zu characters was accepted", (long long)q, m.size());
               num("lastIndexOf(character, from)", r.lastIndexOf(Char(c), p < (int64)m.size() ? p : 0), (i64)m.rfind(c, (size_t)(p < (int64)m.size() ? p : 0)));
            }
            std::string l1, l2; u32 n = W(30); for(u32 k = 0; k < n; k++) l1 += (char)(' ' + W(95)); n = W(30); for(u32 k = 0; k < n; k++) l2 += (char)(' ' + W(95));
            std::stringstream in(l1 + "\n" + l2); String a, b; in >> a; in >> b; same("a line of a stream", a, wide(l1)); same("the last line of a stream", b, wide(l2));
            std::ostringstream out; out << JU(wide(l1)); if(out.str() != l1) fail("text", "%s is written as %s", l1.c_str(), out.str().c_str());
            probe("stream");
            break;
         }
         case 36:
         {
            T w; bool t = W(2); for(char16_t c : T(t ? u"true" : W(2) ? u"false" : u"tru")) w += W(2) ? up(c) : c; if(!t && W(3) == 0) w = m;
            num("toBool()", JU(w).toBool(), low(w) == u"true");
            break;
         }
         default:
         {
            std::string u; if(!plain(m)) { T g = word(); if(!plain(g)) break; m = g; s = JU(g); }
            same("URLDecode(URLEncode())", URLDecode(URLEncode(s)), m);
            String e = URLEncode(s); for(int64 k = 0; k < e.size(); k++) { unsigned c = e.charAt(k).unicode(); if(c > 126) fail("text", "URLEncode() of %s contains U+%04X", show(m).c_str(), c); }
            break;
         }
      }
      same("the history", *tx[i].s, tx[i].m);
      num("constHashCode()", tx[i].s->constHashCode(), h31(tx[i].m));
      if(tx[i].s->isEmpty() != tx[i].m.empty()) fail("text", "isEmpty() is wrong");
   }

   //------------------------------------------------------------------ numbers
   void numberOp()
   {
      i64 v = (i64)W64();
      switch(W(9))
      {
         case 0: { same("valueOf(int64)", String::valueOf((int64)v), wide(std::to_string(v))); num("toInt()", String::valueOf((int64)v).toInt(), v); break; }
         case 1: same("valueOf(uint64)", String::valueOf((uint64)v), wide(std::to_string((u64)v))); break;
         case 2: same("valueOf(int32)", String::valueOf((int32)v), wide(std::to_string((int32_t)v))); same("valueOf(uint32)", String::valueOf((uint32)v), wide(std::to_string((uint32_t)v))); break;
         case 3:
         {
            char b[32]; snprintf(b, sizeof b, "%llX", (long long)v);
            same("toHexString()", Integer::toHexString(v), wide(b));
            num("fromHex()", Integer::fromHex(Integer::toHexString(v)), v);
            { u32 at = W(4); num("fromHex(part)", Integer::fromHex(J(std::string(at, 'f') + b + "12"), at, (uint32)strlen(b)), v); }
            std::string l = b; for(auto& c : l) c = (char)tolower(c); num("fromHex(lower case)", Integer::fromHex(J(l)), v);
            break;
         }
         case 4: { u64 a = v < 0 ? 0 - (u64)v : (u64)v; num("digits()", Integer::digits(v), (i64)std::to_string(a).size() + (v < 0)); break; }
         case 5:
         {
            i64 n = W(4000); std::string r; static const int a[] = {1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1}; static const char* t[] = {"M", "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I"};
            i64 k = n; for(int q = 0; q < 13; q++) while(k >= a[q]) { r += t[q]; k -= a[q]; }
            same("toRomanString()", Integer::toRomanString(n), wide(r));
            break;
         }
         case 6: { i64 n = 1 + W(W(2) ? 800 : 20000); std::string r; for(i64 k = n; k > 0;) { k--; r.insert(r.begin(), (char)('A' + k % 26)); k /= 26; } same("toLatinAlphabetString()", Integer::toLatinAlphabetString(n), wide(r)); break; }
         case 7: { double d = ((double)W(2000001) - 1000000) / (double)(1 + W(1000)); char b[40]; snprintf(b, sizeof b, "%.10g", d); String s = String::valueOf(d); same("valueOf(double)", s, wide(b)); double back = s.toDouble(); if(back != strtod(b, nullptr)) fail("value", "toDouble() of %s is %g", b, back); T c = wide(b); for(auto& x : c) if(x == '.') x = ','; back = ConvertToDouble(JU(c)); if(back != strtod(b, nullptr)) fail("value", "ConvertToDouble() of %s with a comma is %g", b, back); break; }
         default:
         {
            double d = ((double)W(2000001) - 1000000) / (double)(1 + W(1000)); int pr = 1 + (int)W(6); bool tr = W(2);
            std::string s = S(String::valueOf(d, pr, tr)); std::string n = s; for(auto& c : n) if(c == ',') c = '.';
            double back = strtod(n.c_str(), nullptr), tol = std::pow(10, -pr) * 0.5000001 + 1e-9;
            if(std::fabs(back - d) > tol) fail("value", "%.12g with %d digits is %s", d, pr, s.c_str());
            size_t k = s.find(','); size_t dec = k == std::string::npos ? 0 : s.size() - k - 1;
            if(!tr ? dec != (size_t)pr : dec > (size_t)pr || (dec && s.back() == '0' )) fail("value", "%.12g with %d digits%s is %s", d, pr, tr ? ", without zeros," : "", s.c_str());
            break;
         }
      }
   }

   //------------------------------------------------------------------ bytes
   struct Bytes { std::unique_ptr<ByteArray> b; std::string m; bool null = false; };
   std::vector<Bytes> by;
   std::string randBytes() { u32 n = Wlen(W(6) ? 9 : 70); std::string s; for(u32 i = 0; i < n; i++) s += (char)W(W(2) ? 4 : 256); return s; }
   void checkBytes(const char* what, Bytes& x)
   {
      ByteArray& b = *x.b;
      if(b.size() != (int64)x.m.size() || b.isEmpty() != x.m.empty() || b.isNull() != x.null) fail("bytes", "after %s there are %lld bytes instead of %zu (null %d instead of %d)", what, (long long)b.size(), x.m.size(), b.isNull(), x.null);
      if(x.null) return;
      std::string got(b.constData(), (size_t)b.size());
      if(got != x.m) fail("bytes", "after %s the bytes are %s instead of %s", what, hex(got.data(), got.size()).c_str(), hex(x.m.data(), x.m.size()).c_str());
      if(b.constData()[b.size()]) fail("bytes", "after %s the bytes are not terminated", what);
   }
   void bytesOp()
   {
      Bytes& x = by[W((u32)by.size())]; Bytes& y = by[W((u32)by.size())];
      const char* what = "nothing";
      u32 n = (u32)x.m.size();
      switch(W(13))
      {
         case 0: { what = "construction"; std::string d = randBytes(); x.null = false; std::string e = d + "zz"; if(W(2)) x.b.reset(new ByteArray((const uint8*)e.data(), (int64)d.size())); else x.b.reset(new ByteArray((const int8*)e.data(), (int64)d.size())); x.m = d; break; }
         case 1: what = "null construction"; if(W(2)) x.b.reset(new ByteArray); else x.b.reset(new ByteArray((const uint8*)nullptr, (int64)W(3))); x.m.clear(); x.null = true; break;
         case 2: { what = "filled construction"; u32 l = W(40); u8 c = (u8)W(256); x.b.reset(new ByteArray((int64)l, (uint8)c)); x.m.assign(l, (char)c); x.null = false; break; }
         case 3: { what = "construction of a string"; std::string d = randBytes(); d = d.substr(0, d.find('\0')); x.b.reset(new ByteArray((const uint8*)d.c_str())); x.m = d; x.null = false; break; }
         case 4: what = "construction of a list"; x.b.reset(new ByteArray({1, 2, 0, 255})); x.m = std::string("\1\2\0\xff", 4); x.null = false; break;
         case 5: { what = "copy"; std::string d = y.m; bool nu = y.null; x.b.reset(new ByteArray(*y.b)); x.m = d; x.null = nu; break; }
         case 6: { what = "assignment"; std::string d = y.m; bool nu = y.null; *x.b = *y.b; x.m = d; x.null = nu; break; }
         case 7: { what = "resize()"; u32 l = W(2) ? W(n + 1) : W(120); log("resize %u to %u", n, l); x.b->resize((int64)l); x.m.resize(l); if(l || !x.null) x.null = false; else x.null = x.b->isNull(); break; }
         case 8: if(n) { what = "set()"; u32 p = W(n); u8 c = (u8)W(256); if(W(2)) x.b->set(p, c); else (*x.b)[p] = c; x.m[p] = (char)c; if(x.b->get(p) != c) fail("bytes", "get() is not what was set"); } break;
         case 9: what = "fill()"; { u8 c = (u8)W(256); x.b->fill(c); x.m.assign(n, (char)c); } break;
         case 10: what = "sort()"; x.b->sort(); std::sort(x.m.begin(), x.m.end(), [](char a, char c) { return (u8)a < (u8)c; }); break;
         case 11: { what = "replace(value)"; u8 a = (u8)W(4), c = (u8)W(256); x.b->replace(a, c); for(char& q : x.m) if((u8)q == a) q = (char)c; break; }
         default: if(n && &x != &y)
         {
            what = "replace(range)"; u32 t = W(n), s = W((u32)y.m.size() + 1); u32 l = W(W(3) ? 6 : 100); std::string d = y.m;
            log("replace at %u of %u by %u bytes at %u of %zu", t, n, l, s, d.size());
            x.b->replace((int64)t, (int64)s, *y.b, (int64)l);
            for(u32 k = 0; k < l && t + k < n && s + k < d.size(); k++) x.m[t + k] = d[s + k];
            break;
         }
      }
      checkBytes(what, x); checkBytes(what, y);
      num("==", *x.b == *y.b, x.m == y.m);
   }

   //------------------------------------------------------------------ lists
   struct List { std::unique_ptr<StringList> l; std::vector<T> m; };
   std::vector<List> li;
   void checkList(const char* what, List& x)
   {
      num("size()", x.l->size(), (i64)x.m.size());
      for(size_t k = 0; k < x.m.size(); k++) if(U(x.l->get((int64)k)) != x.m[k]) fail("list", "after %s element %zu is %s instead of %s", what, k, show(U(x.l->get((int64)k))).c_str(), show(x.m[k]).c_str());
   }
   T item() { static const char16_t* w[] = {u"a", u"b", u"", u"ab", u"\u00e4", u"B"}; return W(8) ? T(w[W(6)]) : word(); }
   void listOp()
   {
      List& x = li[W((u32)li.size())]; List& y = li[W((u32)li.size())];
      const char* what = "nothing";
      u32 n = (u32)x.m.size();
      if(n > 60) { x.l->clear(); x.m.clear(); n = 0; }
      switch(W(16))
      {
         case 0: case 1: { what = "append()"; T t = item(); if(W(2)) x.l->append(JU(t)); else *x.l << JU(t); x.m.push_back(t); break; }
         case 2: if(n) { what = "append() of an element"; u32 k = W(n); x.l->append(x.l->get(k)); x.m.push_back(T(x.m[k])); } break;
         case 3: { what = "remove()"; T t = item(); x.l->remove(JU(t)); x.m.erase(std::remove(x.m.begin(), x.m.end(), t), x.m.end()); break; }
         case 4: if(n) { what = "remove() of an element"; u32 k = W(n); T t = x.m[k]; log("remove element %u of %u: %s", k, n, show(t).c_str()); x.l->remove(x.l->get(k)); x.m.erase(std::remove(x.m.begin(), x.m.end(), t), x.m.end()); } break;
         case 5: what = "sort()"; x.l->sort(); std::sort(x.m.begin(), x.m.end()); break;
         case 6: if(n) { what = "set()"; u32 k = W(n); T t = item(); if(W(2)) x.l->set(k, JU(t)); else (*x.l)[k] = JU(t); x.m[k] = t; } break;
         case 7: { what = "assignment"; auto d = y.m; *x.l = *y.l; x.m = d; break; }
         case 8: { what = "copy"; auto d = y.m; x.l.reset(new StringList(*y.l)); x.m = d; break; }
         case 9: what = "clear()"; x.l->clear(); x.m.clear(); break;
         case 10: what = "reserve()"; x.l->reserve((int64)W(40)); break;
         case 11: { what = "construction"; if(W(3) == 0) { T t = item(); x.l.reset(new StringList(JU(t))); x.m.assign(1, t); break; } u32 k = W(12); x.l.reset(new StringList((int64)k)); x.m.assign(k, T()); break; }
         case 12: { T t = item(); num("contains()", x.l->contains(JU(t)), std::find(x.m.begin(), x.m.end(), t) != x.m.end()); break; }
         case 13: { char16_t c = chr(); T w; for(u32 k = 0; k < n; k++) { if(k) w += c; w += x.m[k]; } same("join()", x.l->join(Char(c)), w); break; }
         case 14: { u32 k = 0; for(String& s : *x.l) { if(k >= n) fail("list", "there are more than %u elements in a loop", n); same("an element in a loop", s, x.m[k]); k++; } num("elements in a loop", k, n); break; }
         default: { i64 q = W(2) ? -1 : (i64)n + W(2); bool t = W(2) ? threw([&] { x.l->get(q); }) : W(2) ? threw([&] { (*x.l)[q]; }) : threw([&] { x.l->set(q, JU(u"x")); }); if(!t) fail("list", "position %lld of %u elements was accepted", (long long)q, n); probe("out_of_range"); break; }
      }
      checkList(what, x); checkList(what, y);
   }

   //------------------------------------------------------------------ hash table, stack, array
   std::unique_ptr<Hashtable> ht; std::map<T, void*> hm; int objs[64];
   void checkTable(const char* what)
   {
      num("Hashtable::size()", ht->size(), (i64)hm.size());
      num("Hashtable::isEmpty()", ht->isEmpty(), hm.empty());
      std::map<T, int> seen;
      std::unique_ptr<Iterator> it(ht->keys());
      while(W(8) == 0 || it->hasNext()) { Object* o = it->next(); if(!o) break; T k = U(*(String*)o); if(!hm.count(k) || seen[k]++) fail("table", "after %s the iterator shows the key %s, which %s", what, show(k).c_str(), hm.count(k) ? "it showed before" : "is not there"); }
      if(seen.size() != hm.size()) fail("table", "after %s the iterator shows %zu of %zu keys", what, seen.size(), hm.size());
      std::multiset<void*> a, b; for(auto& e : hm) a.insert(e.second);
      std::unique_ptr<Iterator> iv(ht->values()); while(iv->hasNext()) b.insert((void*)iv->next());
      if(a != b) fail("table", "after %s the iterator shows other values (%zu of %zu)", what, b.size(), a.size());
   }
   u32 keyKinds = 60;
   T hkey() { if(W(3) == 0) { u32 n = W(keyKinds); return wide("a longer key " + std::to_string(n * 7919u) + " and more"); } static const char16_t* c[] = {u"Aa", u"BB", u"AaAa", u"BBBB", u"AaBB", u"BBAa", u"", u"x"}; return W(3) == 0 ? T(c[W(8)]) : u"key" + wide(std::to_string(W(60))); }
   void tableOp()
   {
      T k = hkey(); const char* what = "a question"; String js = JU(k); if(W(3) == 0) js.hashCode();
      switch(W(8))
      {
         case 0: case 1: case 2: case 3: { what = "put()"; void* v = &objs[W(64)]; void* o = ht->put(js, v); void* w = hm.count(k) ? hm[k] : nullptr; if(o != w) fail("table", "put(%s) returned something else than the old value", show(k).c_str()); hm[k] = v; break; }
         case 4: case 5: { what = "remove()"; void* o = ht->remove(js); void* w = hm.count(k) ? hm[k] : nullptr; if(o != w) fail("table", "remove(%s) returned something else than the value", show(k).c_str()); hm.erase(k); break; }
         case 6: if(W(10) == 0) { what = "clear()"; ht->clear(); hm.clear(); } break;
         default: break;
      }
      void* w = hm.count(k) ? hm[k] : nullptr;
      if(ht->get(js) != w || ht->containsKey(js) != !!w) fail("table", "after %s get(%s) is something else", what, show(k).c_str());
      { void* v = &objs[W(64)]; bool in = false; for(auto& e : hm) in = in || e.second == v; num("containsValue()", ht->containsValue((Object*)v), in); }
      if(W(4) == 0) { checkTable(what); for(auto& e : hm) if(ht->get(JU(e.first)) != e.second) fail("table", "after %s get(%s) is something else", what, show(e.first).c_str()); }
   }

   std::unique_ptr<Stack<String>> st; std::vector<T> sm;
   std::unique_ptr<Array<String>> ar; std::vector<T> am;
   void stackOp()
   {
      switch(W(9))
      {
         case 0: case 1: case 2: { T t = item(); st->push(JU(t)); sm.push_back(t); break; }
         case 3: if(sm.size()) { same("pop()", st->pop(), sm.back()); sm.pop_back(); } break;
         case 4: st->reverse(); std::reverse(sm.begin(), sm.end()); break;
         case 5: if(W(4) == 0) { st->clear(); sm.clear(); } break;
         case 6: if(sm.size() > 1) same("top2()", st->top2(), sm[sm.size() - 2]); else if(!threw([&] { st->top2(); })) fail("stack", "there is a second element of %zu", sm.size()); break;
         case 7: if(sm.size() > 2) same("top3()", st->top3(), sm[sm.size() - 3]); else if(!threw([&] { st->top3(); })) fail("stack", "there is a third element of %zu", sm.size()); break;
         default: if(sm.size()) { T t = item(); if(W(2)) *st->topRef() = JU(t); else st->top() = JU(t); sm.back() = t; } break;
      }
      num("Stack::size()", st->size(), (i64)sm.size());
      num("hasElements()", st->hasElements(), !sm.empty());
      if(sm.size()) same("top()", st->top(), sm.back());
   }
   void arrayOp()
   {
      u32 n = (u32)am.size();
      switch(W(6))
      {
         case 0: { u32 k = W(10); ar.reset(new Array<String>((int64)k)); am.assign(k, T()); break; }
         case 1: if(n) { u32 k = W(n); T t = item(); if(W(2)) ar->set(k, JU(t)); else (*ar)[k] = JU(t); am[k] = t; } break;
         case 2: { Array<String> c(*ar); if(n && W(2)) { c.set(0, JU(u"other")); } *ar = W(2) ? Array<String>(*ar) : *ar; break; }
         case 3: ar->sort(); std::sort(am.begin(), am.end()); break;
         case 4: { Array<String> c; c = *ar; ar.reset(new Array<String>(c)); break; }
         default: { i64 q = W(2) ? -1 : (i64)n + W(2); bool t = W(2) ? threw([&] { ar->get(q); }) : W(2) ? threw([&] { (*ar)[q]; }) : threw([&] { ar->set(q, JU(u"x")); }); if(!t) fail("array", "position %lld of %u elements was accepted", (long long)q, n); break; }
      }
      num("Array::size()", ar->size(), (i64)am.size());
      for(size_t k = 0; k < am.size(); k++) same("Array::get()", ar->get((int64)k), am[k]);
   }

   void history(u32 focus, u32 ops)
   {
      tx.clear(); by.clear(); li.clear();
      for(int i = 0; i < 3; i++) { tx.push_back({std::unique_ptr<String>(new String), T()}); by.push_back({std::unique_ptr<ByteArray>(new ByteArray((int64)0, (uint8)0)), ""}); li.push_back({std::unique_ptr<StringList>(new StringList), {}}); }
      ht.reset(new Hashtable); hm.clear(); st.reset(new Stack<String>); sm.clear(); ar.reset(new Array<String>); am.clear();
      for(u32 i = 0; i < ops; i++)
      {
         u32 k = focus < 6 && W(5) ? focus : W(6);
         switch(k) { case 0: textOp(); break; case 1: bytesOp(); break; case 2: listOp(); break; case 3: tableOp(); break; case 4: if(W(2)) stackOp(); else arrayOp(); break; default: numberOp(); break; }
      }
      u64 h = hm.size();
      auto add = [&](const T& t) { h = h * 1099511628211ULL + 7; for(auto c : t) h = (h ^ c) * 1099511628211ULL; };
      for(auto& t : tx) add(t.m);
      for(auto& b : by) for(auto c : b.m) h = (h ^ (u8)c) * 1099511628211ULL;
      for(auto& l : li) for(auto& t : l.m) add(t);
      for(auto& t : sm) add(t);
      for(auto& t : am) add(t);
      for(auto& e : hm) add(e.first);
      mixState(h);
      // nothing that was not part of an operation has changed
      for(auto& t : tx) same("the whole history", *t.s, t.m);
      for(auto& b : by) checkBytes("the whole history", b);
      for(auto& l : li) checkList("the whole history", l);
      checkTable("the whole history");
      tx.clear(); by.clear(); li.clear(); ht.reset(); st.reset(); ar.reset(); hm.clear(); sm.clear(); am.clear();
      tx.shrink_to_fit(); by.shrink_to_fit(); li.shrink_to_fit(); sm.shrink_to_fit(); am.shrink_to_fit();
   }

   void run()
   {
      setStepCap(60000000);
      initLib();
      u32 focus = W(8), ops = 3 + W(60);
      history(7, 0);
      st.reset(new Stack<String>); threw([&] { st->top2(); }); st.reset();        // statics of the library
      u64 b0 = liveBlocks();
      keyKinds = W(3) ? 60 : 400; if(keyKinds > 60 && W(2)) { focus = 3; ops = 100 + W(300); probe("large_table"); }
      history(focus, ops);
      if(liveBlocks() > b0) fail("leak", "%llu memory blocks were lost", (unsigned long long)(liveBlocks() - b0));
      if(ops > 8) nontrivial();
   }

   Registrar r25({"C25", run, 40000, 1500000,
      "3-62 operations on three texts, three byte arrays, three text lists, a hash table, a stack and an array, compared after each operation with simple models; arguments may be the object itself or its elements, positions may be out of range, keys collide, copies are changed independently; text forms of numbers are compared with those of the C library. At the end everything must be unchanged that no operation touched, and all memory released.",
      "distinct histories (hash over operations and the final contents of all objects)",
      "String, Char, StringTokenizer, StringList, ByteArray, Hashtable, Stack, Array, Integer (instrumented build)",
      "heap"});
}
