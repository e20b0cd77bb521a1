// Thin access to the code under test: one-call conversions that turn exceptions into a result.
#pragma once
#include "abieos.hpp"
#include <eosio/abi.hpp>
#include <memory>
#include <string>
#include <vector>

namespace lib {
struct Res {
   bool        ok = false;
   std::string v;   // result bytes or text
   std::string err; // error text if !ok
};
template <typename F>
Res attempt(F&& f) {
   Res r;
   try {
      r.v  = f();
      r.ok = true;
   } catch (std::exception& e) { r.err = e.what(); } catch (...) {
      r.err = "(non-standard exception)";
   }
   return r;
}
inline std::string str(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }

// An ABI loaded from JSON text through the same path as the C interface.
struct Abi {
   std::unique_ptr<eosio::abi> a;
   std::string                 err;
   bool                        load(std::string json) {
      try {
         eosio::json_token_stream stream(json.data());
         eosio::abi_def           def{};
         from_json(def, stream);
         std::string e;
         if (!abieos::check_abi_version(def.version, e)) {
            err = e;
            return false;
         }
         auto n = std::make_unique<eosio::abi>();
         eosio::convert(def, *n);
         a = std::move(n);
         return true;
      } catch (std::exception& e) {
         err = e.what();
         return false;
      }
   }
   const eosio::abi_type* type(const std::string& n) const { return a->get_type(n); }
};
inline const char* empty_abi = "{\"version\":\"eosio::abi/1.1\"}";

inline Res enc(const eosio::abi_type* t, std::string_view json) {
   return attempt([&] { return str(t->json_to_bin(json)); });
}
inline Res encr(const eosio::abi_type* t, std::string_view json) {
   return attempt([&] { return str(t->json_to_bin_reorderable(json)); });
}
// Decodes, refusing bytes left over (as the C interface does).  The input is copied to an exact-size heap block
// so that an out-of-bounds read is visible to the sanitizer.
inline Res dec(const eosio::abi_type* t, std::string_view bin) {
   return attempt([&] {
      std::unique_ptr<char[]> p(new char[bin.size() ? bin.size() : 1]);
      memcpy(p.get(), bin.data(), bin.size());
      eosio::input_stream s(p.get(), bin.size());
      auto                r = t->bin_to_json(s);
      if (s.pos != s.end)
         throw std::runtime_error("extra data");
      return r;
   });
}
template <typename Tp>
Res njson(std::string json) { // native JSON -> native binary
   return attempt([&] {
      json.append(3, '\0');
      eosio::json_token_stream st(json.data());
      Tp                       v{};
      from_json(v, st);
      if (!st.complete())
         throw std::runtime_error("extra data");
      return str(eosio::convert_to_bin(v));
   });
}
inline std::string q(std::string_view s) { return "\"" + std::string(s) + "\""; }
} // namespace lib
