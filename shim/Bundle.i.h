// Stand-in for the declarations the Dafny compiler would generate from /repo/Impl/Bundle.i.dfy (only what /repo/framework names).
#pragma once
#include "DafnyRuntime.h"
namespace UI_Compile {
  struct SuccResult { DafnySequence<uint8> key, value; };
  struct RangeEnd {
    int tag = 0; DafnySequence<uint8> key;
    bool is_RangeEnd_EInclusive() const { return tag == 1; }
    bool is_RangeEnd_EExclusive() const { return tag == 2; }
    bool is_RangeEnd_PositiveInf() const { return tag == 3; }
    DafnySequence<uint8> dtor_key() const { return key; }
  };
  struct RangeStart {
    int tag = 0; DafnySequence<uint8> key;
    static RangeStart create_NegativeInf() { return RangeStart{}; }
    static RangeStart create_SInclusive(DafnySequence<uint8> k) { RangeStart r; r.tag = 1; r.key = k; return r; }
    static RangeStart create_SExclusive(DafnySequence<uint8> k) { RangeStart r; r.tag = 2; r.key = k; return r; }
  };
  struct SuccResultList { DafnySequence<SuccResult> results; RangeEnd end; };
}
namespace FullImpl_Compile { struct Full { void* h = nullptr; }; }
namespace NodeImpl_Compile { struct Node {}; }
namespace Options_Compile {
  template <typename T> struct Option { bool some = false; T v; bool is_Option_Some() const { return some; } bool is_Option_None() const { return !some; } T dtor_value() const { return v; } };
}
