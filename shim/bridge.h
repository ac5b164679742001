// C functions of the simulator that the framework's "verified code" calls land in, and the ones it exports.
#pragma once
#include <cstdint>
struct BrBytes { const uint8_t* p; uint64_t n; };
struct BrSucc { uint64_t n; const BrBytes *keys, *vals; int endTag; BrBytes endKey; };
extern "C" {
  void* br_init();
  void br_mkfs(void (*add)(void*, uint64_t, BrBytes), void* ctx);
  int br_insert(void* f, void* io, BrBytes k, BrBytes v);
  int br_query(void* f, void* io, BrBytes k, BrBytes* out);
  int br_succ(void* f, void* io, int tag, BrBytes k, uint64_t mx, BrSucc* out);
  uint64_t br_push(void* f, void* io);
  void br_pop(void* f, void* io, uint64_t id, int graph, int* wait, int* ok);
  void br_read_response(void* f, void* io);
  void br_write_response(void* f, void* io);
  void br_evict(void* f, void* io);
  void br_count(void* f, void* io);
  uint64_t br_max_key();
  uint64_t br_max_value();
}
