// Build shim, not part of what is verified.
//
// /repo expects the rapidjson submodule (external/rapidjson, a master snapshot), which is absent in this
// sandbox.  The distribution's rapidjson 1.1.0 lacks three public functions that abieos uses
// (IterativeParseInit / IterativeParseNext / IterativeParseComplete).  They are added here on top of the
// library's own iterative state machine (Tokenize/Predict/Transit/HandleError), transcribed from upstream.
// Compile with -fno-access-control.
#pragma once
#define Reader Reader_base_typedef
#include_next <rapidjson/reader.h>
#undef Reader

namespace rapidjson {
class Reader : public GenericReader<UTF8<>, UTF8<>> {
   using Base = GenericReader<UTF8<>, UTF8<>>;
   IterativeParsingState state_ = IterativeParsingStartState;

 public:
   void IterativeParseInit() {
      parseResult_.Clear();
      state_ = IterativeParsingStartState;
   }
   bool IterativeParseComplete() const {
      return state_ == IterativeParsingFinishState || state_ == IterativeParsingErrorState;
   }
   template <unsigned parseFlags, typename InputStream, typename Handler>
   bool IterativeParseNext(InputStream& is, Handler& handler) {
      while (is.Peek() != '\0') {
         this->template SkipWhitespaceAndComments<parseFlags>(is);
         Token                 t = Tokenize(is.Peek());
         IterativeParsingState n = Predict(state_, t);
         IterativeParsingState d = this->template Transit<parseFlags>(state_, t, n, is, handler);
         if (d == IterativeParsingErrorState) {
            HandleError(state_, is);
            return false;
         }
         if (d == IterativeParsingFinishState) {
            state_ = d;
            if (!(parseFlags & kParseStopWhenDoneFlag)) {
               this->template SkipWhitespaceAndComments<parseFlags>(is);
               if (is.Peek() != '\0') {
                  HandleError(state_, is);
                  return false;
               }
            }
            return true;
         }
         state_ = d;
         bool delim = n == IterativeParsingKeyValueDelimiterState || n == IterativeParsingMemberDelimiterState ||
                      n == IterativeParsingElementDelimiterState;
         if (!delim)
            return true;
      }
      stack_.Clear();
      if (state_ != IterativeParsingFinishState) {
         HandleError(state_, is);
         return false;
      }
      return true;
   }
};
} // namespace rapidjson
