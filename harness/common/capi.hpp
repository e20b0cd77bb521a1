// The calls of the C interface as data: an alphabet of calls with hand-written expectations under two ABIs.
#pragma once
#include "vh.hpp"
#include "eosio/abieos.h"
#include <memory>

static const char* A1 =
    "{\"version\":\"eosio::abi/1.0\",\"types\":[{\"new_type_name\":\"al\",\"type\":\"s\"}],\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"}]}],"
    "\"actions\":[{\"name\":\"act\",\"type\":\"s\",\"ricardian_contract\":\"\"},{\"name\":\"gone\",\"type\":\"al\",\"ricardian_contract\":\"\"}],"
    "\"tables\":[{\"name\":\"tab\",\"index_type\":\"i64\",\"key_names\":[],\"key_types\":[],\"type\":\"al\"}]}";
static const char* A2 =
    "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int16\"},{\"name\":\"b\",\"type\":\"string$\"}]},"
    "{\"name\":\"act\",\"base\":\"s\",\"fields\":[]}],"
    "\"actions\":[{\"name\":\"act\",\"type\":\"act\",\"ricardian_contract\":\"\"}],"
    "\"tables\":[{\"name\":\"tab\",\"index_type\":\"i64\",\"key_names\":[],\"key_types\":[],\"type\":\"s\"},{\"name\":\"act\",\"index_type\":\"i64\",\"key_names\":[],\"key_types\":[],\"type\":\"s\"}],\"variants\":[{\"name\":\"al\",\"types\":[\"s\",\"int8\"]}]}";
static const char* BAD[] = {
    "{\"version\":\"eosio::abi/2.0\"}",
    "{\"version\":\"eosio::abi/1.0\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"nope\"}]}]}",
    "{\"version\":\"eosio::abi/1.0\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[",
    "", nullptr };
// The same in binary, written out by hand from the documented layout.
static std::string vs(std::string s) { return char(s.size()) + s; }
static std::string nm(const char* s) {
   uint64_t v = 0;
   for (int i = 0; i < 13; ++i) {
      int c = *s ? (*s == '.' ? 0 : *s < 'a' ? *s - '0' : *s - 'a' + 6) : 0;
      if (*s)
         ++s;
      v = i < 12 ? v << 5 | c : v << 4 | c;
   }
   return std::string((char*)&v, 8);
}
static std::string bin1() {
   return vs("eosio::abi/1.0") + "\1" + vs("al") + vs("s") + "\1" + vs("s") + vs("") + "\1" + vs("a") + vs("int8") + "\2" + nm("act") + vs("s") + vs("") + nm("gone") + vs("al") + vs("") +
          "\1" + nm("tab") + vs("i64") + std::string(2, 0) + vs("al") + std::string(3, 0);
}
static std::string bin2() {
   return vs("eosio::abi/1.1") + std::string(1, 0) + "\2" + vs("s") + vs("") + "\2" + vs("a") + vs("int16") + vs("b") + vs("string$") + vs("act") + vs("s") + std::string(1, 0) + "\1" + nm("act") +
          vs("act") + vs("") + "\2" + nm("tab") + vs("i64") + std::string(2, 0) + vs("s") + nm("act") + vs("i64") + std::string(2, 0) + vs("s") + std::string(3, 0) + "\1" + vs("al") + "\2" + vs("s") + vs("int8");
}

enum Kind { SETJ, SETB, SETH, J2B, J2BR, B2J, H2J, ACT, TAB, HEX, N2S, S2N };
static const uint64_t contracts[] = { 0, 1, (1ull << 32) | 1, ~0ull, 1ull << 63 };
struct Call {
   Kind        k;
   int         con = 0;    // index into contracts
   const char* a   = "";   // type / text / name
   const char* b   = "";   // data
   int         abi = 0;    // SET*: the ABI this loads, 0 = must fail
   std::string r1, r2;     // expected under A1, A2 (binary as hex, or text); "!" = fails
   std::string bin;        // SETB/B2J data
   bool        null_data = false;
};
struct Obs {
   bool        ok;
   std::string v;
   std::string err;
};
static uint64_t name_v(const char* s) {
   uint64_t v;
   memcpy(&v, nm(s).data(), 8);
   return v;
}
static std::string pn(uint64_t v) {
   std::string s;
   for (int i = 0; i < 13; ++i) {
      int c = i < 12 ? v >> (59 - 5 * i) & 31 : v & 15;
      s += ".12345abcdefghijklmnopqrstuvwxyz"[c];
   }
   while (!s.empty() && s.back() == '.') s.pop_back();
   return s;
}
struct Run {
   abieos_context* c = abieos_create();
   ~Run() { abieos_destroy(c); }
   const char* text = nullptr; // what the call returned
   std::function<void()> arm, disarm; // around the call itself (fault injection)
   Obs         call(const Call& x) {
      Obs o{ false };
      text          = nullptr;
      uint64_t con  = contracts[x.con];
      // exact-size copies, so that reading outside the argument is visible
      auto dup = [](const char* s) { return s ? std::unique_ptr<char[]>(strcpy(new char[strlen(s) + 1], s)) : nullptr; };
      auto a = dup(x.a), b = dup(x.b);
      std::unique_ptr<char[]> d(new char[x.bin.size() ? x.bin.size() : 1]);
      memcpy(d.get(), x.bin.data(), x.bin.size());
      const char* data = x.null_data ? nullptr : d.get();
      bool        bin = false, ok = false;
      const char* p   = nullptr;
      uint64_t    nv = x.k == ACT || x.k == TAB ? name_v(a.get()) : x.k == N2S ? name_v(x.b) : 0, sn = 0;
      if (arm)
         arm();
      switch (x.k) {
         case SETJ: ok = abieos_set_abi(c, con, b.get()); break;
         case SETB: ok = abieos_set_abi_bin(c, con, data, x.bin.size()); break;
         case SETH: ok = abieos_set_abi_hex(c, con, b.get()); break;
         case J2B: ok = bin = abieos_json_to_bin(c, con, a.get(), b.get()); break;
         case J2BR: ok = bin = abieos_json_to_bin_reorderable(c, con, a.get(), b.get()); break;
         case B2J: p = abieos_bin_to_json(c, con, a.get(), data, x.bin.size()); break;
         case H2J: p = abieos_hex_to_json(c, con, a.get(), b.get()); break;
         case ACT: p = abieos_get_type_for_action(c, con, nv); break;
         case TAB: p = abieos_get_type_for_table(c, con, nv); break;
         case HEX: p = abieos_get_bin_hex(c); break;
         case N2S: p = abieos_name_to_string(c, nv); break;
         case S2N: ok = true, sn = abieos_string_to_name(c, a.get());
      }
      if (disarm)
         disarm();
      o.ok = ok || p;
      if (p)
         o.v = text = p;
      if (bin)
         o.v = vh::hexs(std::string(abieos_get_bin_data(c), abieos_get_bin_size(c)));
      if (x.k == S2N)
         o.v = std::to_string(sn);
      if (!o.ok)
         o.err = abieos_get_error(c);
      return o;
   }
};
static std::string UH(const std::string& h) {
   std::string r;
   for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16));
   return r;
}
static std::vector<Call> alphabet(int contracts_used, bool all) {
   std::vector<Call> r;
   static std::string h1 = vh::hexs(bin1()), h2 = vh::hexs(bin2()), h1odd = h1 + "0", h1bad = "zz" + h1;
   for (int c = 0; c < contracts_used; ++c) {
      auto add = [&](Kind k, const char* a, const char* b, std::string r1, std::string r2, std::string bin = "", bool nd = false) {
         Call x;
         x.k = k, x.con = c, x.a = a, x.b = b, x.r1 = r1, x.r2 = r2, x.bin = bin, x.null_data = nd;
         r.push_back(x);
      };
      auto load = [&](Kind k, const char* b, int abi, std::string bin = "", bool nd = false) {
         Call x;
         x.k = k, x.con = c, x.b = b, x.abi = abi, x.bin = bin, x.null_data = nd;
         r.push_back(x);
      };
      load(SETJ, A1, 1);
      load(SETJ, A2, 2);
      load(SETJ, BAD[0], 0);
      load(SETJ, BAD[1], 0);
      load(SETB, "", 2, bin2());
      load(SETH, h1.c_str(), 1);
      add(J2B, "s", "{\"a\":5}", "05", "0500");
      add(J2B, "s", "{\"a\":5,\"b\":\"x\"}", "!", "05000178");
      add(J2BR, "s", "{\"b\":\"x\",\"a\":5}", "05", "05000178");
      add(J2B, "s[]", "[{\"a\":1},{\"a\":2}", "!", "!");
      add(J2B, "al", "[\"int8\",7]", "!", "0107");
      add(B2J, "s", "", "{\"a\":5}", "!", UH("05"));
      add(B2J, "s", "", "!", "{\"a\":5,\"b\":\"x\"}", UH("05000178"));
      add(H2J, "al", "0107", "!", "[\"int8\",7]");
      add(ACT, "act", "", "s", "act");
      add(ACT, "gone", "", "al", "!");
      add(TAB, "tab", "", "al", "s");
      add(TAB, "act", "", "!", "s");
      if (c)
         continue;
      // calls whose behaviour does not involve the choice of contract: once
      add(HEX, "", "", "", "");
      add(N2S, "", "eosio.token", "eosio.token", "eosio.token");
      if (!all)
         continue;
      add(S2N, "b", "", "b", "b");
      add(S2N, nullptr, "", "", "");
      load(SETJ, BAD[2], 0);
      load(SETJ, BAD[3], 0);
      load(SETJ, BAD[4], 0);
      load(SETB, "", 1, bin1());
      load(SETB, "", 0, bin1().substr(0, 40));
      load(SETB, "", 0, "");
      load(SETB, "", 0, bin1(), true);
      load(SETH, h2.c_str(), 2);
      load(SETH, h1odd.c_str(), 0);
      load(SETH, h1bad.c_str(), 0);
      load(SETH, nullptr, 0);
      add(J2B, "nope", "1", "!", "!");
      add(J2B, "nope[]", "[]", "!", "!");
      add(J2B, "s?[]", "[]", "!", "!");
      add(J2B, "s?", "null", "00", "00");
      add(J2B, "s[]", "[{\"a\":1},{\"a\":2,\"b\":\"\"}]", "!", "!");
      add(J2B, nullptr, "1", "!", "!");
      add(J2B, "s", nullptr, "!", "!");
      add(J2BR, "s", nullptr, "!", "!");
      add(J2BR, nullptr, nullptr, "!", "!");
      add(J2BR, "string[]", "[\"aa\",\"bb\",true]", "!", "!");
      add(J2B, "string[]", "[\"aa\",\"bb\",true]", "!", "!");
      add(J2B, "string[]", "[\"\"]", "0100", "0100");
      add(B2J, "s[]", "", "[{\"a\":1},{\"a\":2}]", "!", UH("020102"));
      add(B2J, "s", "", "!", "!", UH("0500017879")); // left over
      add(B2J, "string", "", "\"\"", "\"\"", UH("00"));
      add(B2J, "string", "", "!", "!", UH("0178"), true); // no data, whatever the size says
      add(B2J, nullptr, "", "!", "!", UH("05"));
      add(B2J, "nope", "", "!", "!", UH("05"));
      add(H2J, "s", "0", "!", "!");
      add(H2J, "s", "0g", "!", "!");
      add(H2J, "s", nullptr, "!", "!");
      add(H2J, nullptr, "05", "!", "!");
      add(H2J, "s$", "0500", "!", "{\"a\":5}");
      add(ACT, "", "", "!", "!");
      add(TAB, "", "", "!", "!");
      add(N2S, "", "", "", "");
   }
   return r;
}
struct Fresh { // the result of a call under an ABI, on a context without any other history
   std::vector<Obs> o[3];
   Fresh(const std::vector<Call>& al) {
      for (int abi = 0; abi < 3; ++abi)
         for (auto& x : al) {
            Run r;
            if (abi)
               abieos_set_abi(r.c, contracts[x.con], abi == 1 ? A1 : A2);
            o[abi].push_back(r.call(x));
         }
   }
};
static std::string show(const std::vector<Call>& al, const std::vector<int>& seq) {
   static const char* kn[] = { "set_abi", "set_abi_bin", "set_abi_hex", "json_to_bin", "json_to_bin_reorderable", "bin_to_json", "hex_to_json", "type_for_action", "type_for_table", "bin_hex", "name_to_string", "string_to_name" };
   std::string        s;
   for (int i : seq) {
      auto& x = al[i];
      s += std::string(s.empty() ? "" : "; ") + kn[x.k] + "(c" + std::to_string(x.con);
      if (x.k <= SETH)
         s += x.abi ? ",A" + std::to_string(x.abi) : std::string(",bad:") + (x.b ? vh::cut(x.b, 12) : "null");
      else
         s += std::string(",") + (x.a ? x.a : "null") + "," + (x.b ? x.b : "null") + (x.k == B2J ? vh::hexs(x.bin) : "");
      s += ")";
   }
   return s;
}
