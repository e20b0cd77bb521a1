// The programs whose interleavings C12 explores: each uses only objects of its own and returns everything it observed.
#include <eosio/types.hpp>
#include "c12_prog.hpp"
#include "eosio/abieos.h"
#include <eosio/abi.hpp>
#include <eosio/abieos_numeric.hpp>
#include <eosio/abieos_ripemd160.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/chain_conversions.hpp>
#include <eosio/chain_types.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/varint.hpp>
#include <map>
#include <optional>
#include <variant>
#include <vector>
using eosio::get_type_name;
using S = std::string;

struct rec {
   uint8_t                     a = 0;
   S                           b;
   std::vector<int16_t>        c;
   std::optional<int32_t>      d;
   std::variant<uint32_t, S>   e;
};
EOSIO_REFLECT(rec, a, b, c, d, e)
struct rec2 : rec {
   eosio::asset      f;
   eosio::time_point g;
};
EOSIO_REFLECT(rec2, base rec, f, g)

static S hex(const char* p, size_t n) {
   S r;
   for (size_t i = 0; i < n; ++i) {
      r += "0123456789abcdef"[(unsigned char)p[i] >> 4];
      r += "0123456789abcdef"[p[i] & 15];
   }
   return r;
}
static S hex(const std::vector<char>& v) { return hex(v.data(), v.size()); }
template <typename F>
static S guard(F f) {
   try {
      return f();
   } catch (std::exception& e) { return S("exception ") + e.what(); }
}
struct Ctx {
   abieos_context* c = abieos_create();
   S               log;
   ~Ctx() { abieos_destroy(c); }
   void add(const char* s) { log += (s ? S(s) : S("null")) + "|"; }
   void err() { add(abieos_get_error(c)); }
   void res(bool ok) {
      if (ok)
         add(abieos_get_bin_hex(c));
      else
         err();
   }
   bool abi(const char* a, uint64_t con = 7) {
      bool ok = abieos_set_abi(c, con, a);
      if (!ok)
         err();
      return ok;
   }
   void enc(const char* t, const char* j) { res(abieos_json_to_bin(c, 7, t, j)); }
   void encr(const char* t, const char* j) { res(abieos_json_to_bin_reorderable(c, 7, t, j)); }
   void dec(const char* t, const char* h) {
      auto p = abieos_hex_to_json(c, 7, t, h);
      p ? add(p) : err();
   }
};
static const char* ABI[2] = {
   R"({"version":"eosio::abi/1.1","types":[{"new_type_name":"al","type":"s"}],"structs":[{"name":"b","base":"","fields":[{"name":"x","type":"uint8"}]},{"name":"s","base":"b","fields":[{"name":"n","type":"name?"},{"name":"v","type":"vr[]"},{"name":"e","type":"string$"}]}],"actions":[{"name":"act","type":"al","ricardian_contract":""}],"tables":[{"name":"tab","index_type":"i64","key_names":[],"key_types":[],"type":"s"}],"variants":[{"name":"vr","types":["int8","string","b"]}],"action_results":[{"name":"act","result_type":"s"}]})",
   R"({"version":"eosio::abi/1.1","types":[{"new_type_name":"al","type":"b"}],"structs":[{"name":"b","base":"","fields":[{"name":"y","type":"string"}]},{"name":"s","base":"b","fields":[{"name":"m","type":"int16[]"},{"name":"w","type":"vr?"}]}],"actions":[{"name":"act","type":"s","ricardian_contract":""}],"tables":[{"name":"tab","index_type":"i64","key_names":[],"key_types":[],"type":"b"}],"variants":[{"name":"vr","types":["symbol","asset"]}]})"
};
static const char* VAL[2] = { R"({"x":5,"n":"alice","v":[["int8",-3],["string","hey\n"],["b",{"x":9}]],"e":"tail"})", R"({"y":"yy","m":[1,-2,300],"w":["asset","1.50 ABC"]})" };
static const char* REV[2] = { R"({"e":"tail","v":[["b",{"x":9}]],"n":null,"x":7})", R"({"w":["symbol","4,XYZ"],"m":[],"y":"back"})" };

template <typename T>
static S json_both(const S& text) {
   return guard([&] {
      S    t2 = text;
      t2.resize(text.size() + 64);
      t2.resize(text.size());
      eosio::json_token_stream st(t2.data());
      T                        v{};
      from_json(v, st);
      return eosio::convert_to_json(v) + "/" + hex(eosio::convert_to_bin(v));
   });
}
template <typename T>
static S bin_both(const std::vector<char>& b) {
   return guard([&] {
      auto v = eosio::convert_from_bin<T>(b);
      return eosio::convert_to_json(v) + "/" + hex(eosio::convert_to_bin(v));
   });
}
static std::vector<char> unhex(const S& h) {
   std::vector<char> r;
   for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
   return r;
}
static eosio::abi_def abi_value(int v) {
   S                        j = ABI[v];
   eosio::json_token_stream st(j.data());
   eosio::abi_def           d;
   from_json(d, st);
   return d;
}
static rec2 value(int v) {
   rec2 r;
   r.a = v ? 200 : 3;
   r.b = v ? "other \"text\"" : "first text that is long enough for the heap";
   r.c = v ? std::vector<int16_t>{ 1 } : std::vector<int16_t>{ -1, 2, 300 };
   if (v)
      r.d = -70000;
   if (v)
      r.e = S("alt");
   else
      r.e = uint32_t(77);
   r.f = eosio::asset{ v ? -5 : 123456, eosio::symbol{ v ? "ABC" : "EOS", uint8_t(v ? 0 : 4) } };
   r.g = eosio::time_point{ eosio::microseconds{ v ? 1000 : 1600000000123000 } };
   return r;
}
// a sequence that walks through the context's whole life
static S life(int v) {
   Ctx c;
   c.add(abieos_get_error(c.c));
   c.abi(ABI[v]);
   c.enc("s", VAL[v]);
   c.dec("s", abieos_get_bin_hex(c.c));
   c.encr("s", REV[v]);
   c.add(abieos_get_type_for_action(c.c, 7, abieos_string_to_name(c.c, "act")));
   c.abi(ABI[!v]);
   c.enc("s", VAL[!v]);
   c.enc("s", VAL[v]);
   return c.log;
}

struct Prog {
   const char* name;
   S (*f)(int v);
};
static const Prog progs[] = {
   { "names", [](int v) {
       Ctx c;
       for (auto s : { v ? "bob" : "alice", v ? "zzzzzzzzzzzzj" : "a.b.c.1234", v ? "Not Valid" : "toolongforaname1" }) {
          auto n = abieos_string_to_name(c.c, s);
          c.log += std::to_string(n) + "=";
          c.add(abieos_name_to_string(c.c, n));
       }
       return c.log;
    } },
   { "set_abi", [](int v) {
       Ctx c;
       c.abi(ABI[v]);
       c.add(abieos_get_type_for_action(c.c, 7, abieos_string_to_name(c.c, "act")));
       c.add(abieos_get_type_for_table(c.c, 7, abieos_string_to_name(c.c, "tab")));
       c.add(abieos_get_type_for_table(c.c, 7, 5));
       c.err();
       return c.log;
    } },
   { "set_abi_errors", [](int v) {
       Ctx c;
       for (auto a : { v ? "{" : "{}", v ? R"({"version":"eosio::abi/9.0"})" : R"({"version":7})",
                       v ? R"({"version":"eosio::abi/1.0","structs":[{"name":"a","base":"b","fields":[]},{"name":"b","base":"a","fields":[]}]})"
                         : R"({"version":"eosio::abi/1.0","types":[{"new_type_name":"x","type":"y"},{"new_type_name":"y","type":"x"}]})",
                       v ? R"({"version":"eosio::abi/1.0","structs":[{"name":"a","base":"","fields":[{"name":"f","type":"int8$[]"}]}]})"
                         : R"({"version":"eosio::abi/1.0","structs":[{"name":"a","base":"","fields":[{"name":"f","type":"nope"}]}]})" })
          c.abi(a);
       return c.log;
    } },
   { "encode", [](int v) {
       Ctx c;
       c.abi(ABI[v]);
       c.enc("s", VAL[v]);
       c.enc("s?", "null");
       return c.log;
    } },
   { "encode_reorderable", [](int v) {
       Ctx c;
       c.abi(ABI[v]);
       c.encr("s", REV[v]);
       c.encr("vr", v ? R"(["asset","2 A"])" : R"(["int8",4])");
       return c.log;
    } },
   { "encode_errors", [](int v) {
       Ctx c;
       c.abi(ABI[v]);
       c.enc("s", REV[v]);
       c.enc("s", v ? "{\"y\":" : "{\"x\":300");
       c.enc(v ? "missing" : "s[]?", "[]");
       c.encr("s", v ? R"({"y":"","m":["a"]})" : R"({"x":1,"v":[["zz",1]]})");
       return c.log;
    } },
   { "decode", [](int v) {
       Ctx c;
       c.abi(ABI[v]);
       c.dec("s", v ? "027979030100FEFF2C0101018096980000000000024142430000000000" : "050100000000000000855C340301020474657374");
       return c.log;
    } },
   { "life", life },
   { "numbers", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.enc("uint64", v ? "\"18446744073709551615\"" : "1234567890123456789");
       c.enc("int128", v ? "\"-170141183460469231731687303715884105728\"" : "\"99999999999999999999999\"");
       c.dec("uint128", v ? "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF" : "00000000000000000000000000000080");
       c.enc("varint32", v ? "-2147483648" : "99999");
       c.dec("varuint32", v ? "FFFFFFFF0F" : "8001");
       return c.log;
    } },
   { "floats", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.enc("float64", v ? "\"-1.7976931348623157e308\"" : "3.25e-5");
       c.dec("float64", abieos_get_bin_hex(c.c));
       c.enc("float32", v ? "1e-40" : "0.1");
       c.dec("float32", abieos_get_bin_hex(c.c));
       c.dec("float64", v ? "182D4454FB210940" : "9A9999999999B93F");
       return c.log;
    } },
   { "times", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       for (auto t : { "time_point", "time_point_sec", "block_timestamp_type" }) {
          c.enc(t, v ? "\"2000-02-29T23:59:59.500\"" : "\"2038-01-19T03:14:08.000\"");
          c.dec(t, abieos_get_bin_hex(c.c));
       }
       c.enc("time_point", v ? "\"x\"" : "\"2001-99\"");
       return c.log;
    } },
   { "assets", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.enc("asset", v ? "\"-1.0000 EOS\"" : "\"9223372036854775807 A\"");
       c.dec("asset", abieos_get_bin_hex(c.c));
       c.enc("symbol", v ? "\"4,EOS\"" : "\"0,ZZZZZZZ\"");
       c.dec("symbol", abieos_get_bin_hex(c.c));
       c.enc("extended_asset", v ? R"({"quantity":"1 B","contract":"x"})" : R"({"quantity":"0.01 C","contract":"yy"})");
       c.dec("extended_asset", abieos_get_bin_hex(c.c));
       c.enc("symbol_code", v ? "\"abc\"" : "\"\"");
       return c.log;
    } },
   { "public_keys", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.enc("public_key", v ? "\"EOS6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV\"" : "\"PUB_K1_6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5BoDq63\"");
       c.dec("public_key", abieos_get_bin_hex(c.c));
       c.dec("public_key", v ? "0103000000000000000000000000000000000000000000000000000000000000000001" : "00020102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F20");
       c.enc("public_key", v ? "\"PUB_K1_xx\"" : "\"EOSxx\"");
       return c.log;
    } },
   { "private_keys", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.dec("private_key", v ? "00D2653FF7CBB2D8FF129AC27EF5781CE68B2558C41A74AF1F2DDCA635CBEEF07D" : "0101020304050607080910111213141516171819202122232425262728293031FF");
       c.enc("private_key", v ? "\"5KQwrPbwdL6PhXujxW37FSSQZ1JiwsST4cqQzDeyXtP79zkvFD3\"" : "\"PVT_R1_bad\"");
       return c.log;
    } },
   { "signatures", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       S h = v ? "00" : "01";
       for (int i = 0; i < 65; ++i) h += v ? "5A" : "1F";
       c.dec("signature", h.c_str());
       c.dec("signature", v ? "07" : "02");
       return c.log;
    } },
   { "checksums", [](int v) {
       Ctx c;
       c.abi(R"({"version":"eosio::abi/1.0"})");
       c.enc("checksum160", v ? "\"0102030405060708090a0b0c0d0e0f1011121314\"" : "\"ffffffffffffffffffffffffffffffffffffffff\"");
       c.enc("checksum256", v ? "\"01\"" : "\"000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f\"");
       c.enc("bytes", v ? "\"abcdef\"" : "\"0\"");
       return c.log;
    } },
   { "native_record", [](int v) {
       return guard([&] {
          auto r = value(v);
          auto b = eosio::convert_to_bin(r);
          auto j = eosio::convert_to_json(r);
          rec2 r2, r3;
          eosio::convert_from_bin(r2, b);
          S                        j2 = j;
          eosio::json_token_stream st(j2.data());
          from_json(r3, st);
          return j + hex(b) + eosio::convert_to_json(r2) + eosio::convert_to_json(r3);
       });
    } },
   { "native_json", [](int v) {
       return json_both<eosio::asset>(v ? "\"1.5 AB\"" : "\"7 C\"") + json_both<eosio::symbol>(v ? "\"4,EOS\"" : "\"0,X\"") + json_both<std::vector<S>>(v ? "[\"a\"]" : "[\"b\",\"c\\u00e9\"]") +
              json_both<eosio::name>(v ? "\"bob\"" : "\"al.ice\"") + json_both<bool>(v ? "true" : "7") + json_both<uint64_t>(v ? "\"12\"" : "-1");
    } },
   { "native_time", [](int v) {
       return json_both<eosio::time_point>(v ? "\"2020-01-01T00:00:00.001\"" : "\"1999-12-31T23:59:59\"") + json_both<eosio::time_point_sec>(v ? "\"2106-02-07T06:28:15\"" : "\"1970-01-01T00:00:01\"") +
              json_both<eosio::block_timestamp>(v ? "\"2000-01-01T00:00:00.500\"" : "\"2024-07-01T10:00:00.000\"");
    } },
   { "native_floats", [](int v) {
       return json_both<double>(v ? "\"1e300\"" : "-2.5") + json_both<float>(v ? "0.1" : "\"3e38\"") + bin_both<double>(unhex(v ? "000000000000f07f" : "0100000000000000")) +
              bin_both<eosio::float128>(unhex(v ? "000102030405060708090a0b0c0d0e0f" : "ffffffffffffffffffffffffffffffff"));
    } },
   { "native_keys", [](int v) {
       return guard([&] {
          eosio::public_key  p;
          eosio::ecc_public_key k;
          for (int i = 0; i < 33; ++i) k[i] = v ? i : 200 - i;
          if (v)
             p.emplace<1>(k);
          else
             p.emplace<0>(k);
          S t = eosio::public_key_to_string(p);
          S u = eosio::public_key_to_string(eosio::public_key_from_string(t));
          eosio::webauthn_public_key w{};
          w.key           = k;
          w.user_presence = decltype(w.user_presence)(v);
          w.rpid = v ? "site" : "example.org";
          p.emplace<2>(w);
          S x = eosio::public_key_to_string(p);
          return t + u + x + eosio::public_key_to_string(eosio::public_key_from_string(x));
       });
    } },
   { "native_private", [](int v) {
       return guard([&] {
          eosio::private_key p;
          auto&              k = v ? p.emplace<1>() : p.emplace<0>();
          for (int i = 0; i < 32; ++i) k[i] = v ? 3 * i : 77 + i;
          S t = eosio::private_key_to_string(p);
          return t + eosio::private_key_to_string(eosio::private_key_from_string(t));
       });
    } },
   { "native_signature", [](int v) {
       return guard([&] {
          eosio::signature s;
          auto&            k = v ? s.emplace<1>() : s.emplace<0>();
          for (int i = 0; i < 65; ++i) k[i] = v ? 5 * i : 9 + i;
          S                         t = eosio::signature_to_string(s);
          eosio::webauthn_signature w{};
          w.compact_signature = k;
          w.auth_data         = { 1, 2, (unsigned char)v };
          w.client_json       = v ? "{}" : "{\"a\":1}";
          S r                 = t + eosio::signature_to_string(eosio::signature_from_string(t));
          s                   = w;
          S x                 = eosio::signature_to_string(s);
          return r + x + eosio::signature_to_string(eosio::signature_from_string(x));
       });
    } },
   { "sort_keys", [](int v) {
       auto r = value(v);
       return hex(eosio::convert_to_key(r.b)) + hex(eosio::convert_to_key(r.c)) + hex(eosio::convert_to_key(r.d)) + hex(eosio::convert_to_key(v ? -1.5 : 2.5)) +
              hex(eosio::convert_to_key(std::make_tuple(r.a, r.b, r.g)));
    } },
   { "decimals", [](int v) {
       return guard([&] {
          std::array<uint8_t, 16> a;
          std::array<uint8_t, 8>  b;
          abieos::decimal_to_binary(a, v ? "340282366920938463463374607431768211455" : "12345678901234567890");
          abieos::decimal_to_binary(b, v ? "1" : "9999999999");
          return abieos::binary_to_decimal(a) + "," + abieos::binary_to_decimal(b) + hex((char*)a.data(), a.size());
       });
    } },
   { "decimal_errors", [](int v) {
       return guard([&] {
          std::array<uint8_t, 4> a;
          abieos::decimal_to_binary(a, v ? "99999999999" : "12a");
          return abieos::binary_to_decimal(a);
       });
    } },
   { "native_names", [](int v) {
       eosio::name n(v ? "bob.x" : "alicealice12");
       return n.to_string() + std::to_string(n.value) + std::to_string(eosio::string_to_name(v ? "Upper Case" : "toolongname....x")) + eosio::microseconds_to_str(v ? 5 : 1600000000000000ull) +
              guard([&] { return std::to_string(eosio::string_to_name_strict(v ? "UP" : "ok")); });
    } },
   { "native_containers", [](int v) {
       std::map<uint16_t, S> m{ { 1, "a" }, { (uint16_t)(v ? 2 : 500), "b" } };
       auto b = eosio::convert_to_bin(m);
       return hex(b) + hex(eosio::convert_to_bin(eosio::convert_from_bin<std::map<uint16_t, S>>(b))) +
              json_both<std::vector<std::optional<int32_t>>>(v ? "[null,1]" : "[7,null,-9]") + json_both<std::variant<int8_t, S>>(v ? "[\"string\",\"q\"]" : "[\"int8\",5]");
    } },
   { "native_errors", [](int v) {
       return json_both<rec>(v ? "{\"a\":1,\"b\":2}" : "{\"a\":256}") + json_both<eosio::checksum256>(v ? "\"zz\"" : "\"00\"") + bin_both<rec>(unhex(v ? "01" : "0105ab")) +
              bin_both<std::vector<S>>(unhex(v ? "ffffffff0f" : "0201")) + json_both<int8_t>(v ? "128" : "\"x\"") + json_both<eosio::symbol>("\"19,A\"");
    } },
   { "abi_object", [](int v) {
       return guard([&] {
          auto       d = abi_value(v);
          eosio::abi     a;
          eosio::convert(d, a);
          auto           t   = a.get_type("s");
          auto           bin = t->json_to_bin(VAL[v]);
          eosio::input_stream in(bin);
          return hex(bin) + t->bin_to_json(in) + hex(eosio::convert_to_bin(d));
       });
    } },
   { "abi_generated", [](int v) {
       return guard([&] {
          eosio::abi a;
          auto       t = v ? a.add_type<rec2>() : a.add_type<rec>();
          eosio::abi_def d;
          eosio::convert(a, d);
          auto bin = eosio::convert_to_bin(value(v));
          eosio::input_stream in(bin);
          return t->name + hex(eosio::convert_to_bin(d)) + t->bin_to_json(in);
       });
    } },
   { "state_history", [](int v) {
       return guard([&] {
          eosio::ship_protocol::request r = v ? eosio::ship_protocol::request{ eosio::ship_protocol::get_status_request_v0{} }
                                               : eosio::ship_protocol::request{ eosio::ship_protocol::get_blocks_ack_request_v0{ 5 } };
          auto b = eosio::convert_to_bin(r);
          return hex(b) + eosio::convert_to_json(eosio::convert_from_bin<eosio::ship_protocol::request>(b));
       });
    } },
   { "set_abi_bin", [](int v) {
       return guard([&] {
          auto b = eosio::convert_to_bin(abi_value(v));
          Ctx  c;
          if (!abieos_set_abi_bin(c.c, 7, b.data(), b.size()))
             c.err();
          if (!abieos_set_abi_hex(c.c, 8, hex(b).c_str()))
             c.err();
          c.add(abieos_get_type_for_action(c.c, 8, abieos_string_to_name(c.c, "act")));
          b.resize(b.size() / 2);
          if (!abieos_set_abi_bin(c.c, 9, b.data(), b.size()))
             c.err();
          return c.log;
       });
    } },
   { "ripemd", [](int v) {
       eosio::checksum160 out{};
       return guard([&] {
          abieos_ripemd160::ripemd160_state st;
          abieos_ripemd160::ripemd160_init(&st);
          S m = v ? "abc" : "message digest";
          abieos_ripemd160::ripemd160_update(&st, (const unsigned char*)m.data(), m.size());
          unsigned char d[20];
          abieos_ripemd160::ripemd160_digest(&st, d);
          return hex((char*)d, 20);
       });
    } },
};
int         prog_count() { return sizeof progs / sizeof *progs; }
const char* prog_name(int p) { return progs[p].name; }
std::string prog_run(int p, int v) {
   try {
      return progs[p].f(v);
   } catch (std::exception& e) { return S("escaped ") + e.what(); } catch (...) {
      return "escaped";
   }
}
