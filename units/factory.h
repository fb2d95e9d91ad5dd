// A RawBufferFactory whose buffers are fresh memory of exactly the requested
// size (so that any access outside is an out-of-bounds violation).
#ifndef VP_FACTORY_H_
#define VP_FACTORY_H_
#include <cstring>
#include <tuple>
#include "vp.h"
#include "arolla/memory/raw_buffer_factory.h"
struct VpFactory final : arolla::RawBufferFactory {
  std::tuple<arolla::RawBufferPtr, void*> CreateRawBuffer(size_t nbytes) override {
    return {nullptr, vp_alloc(nbytes)};
  }
  std::tuple<arolla::RawBufferPtr, void*> ReallocRawBuffer(arolla::RawBufferPtr&& old, void* data, size_t old_size,
                                                           size_t new_size) override {
    void* p = vp_alloc(new_size);
    std::memcpy(p, data, old_size < new_size ? old_size : new_size);
    return {nullptr, p};
  }
};
// Hands out the given memory.
struct VpFixedFactory final : arolla::RawBufferFactory {
  explicit VpFixedFactory(void* p) : p(p) {}
  void* p;
  std::tuple<arolla::RawBufferPtr, void*> CreateRawBuffer(size_t) override { return {nullptr, p}; }
  std::tuple<arolla::RawBufferPtr, void*> ReallocRawBuffer(arolla::RawBufferPtr&&, void* data, size_t, size_t) override {
    return {nullptr, data};
  }
};
#endif
