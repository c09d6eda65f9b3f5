// The calls gcc's -fsanitize=thread places before memory accesses, sent to the
// simulator instead of to the sanitizer's runtime.
#include <elf.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include <vector>

#include "rt.h"

namespace {
// Eigen's table of cache sizes and everything of the simulator and of libstdc++:
// only the static storage of other names counts as the library's.
std::vector<std::pair<uintptr_t, uintptr_t>>* own;
bool skip(const void* a) {
  for (auto& r : *own)
    if ((uintptr_t)a >= r.first && (uintptr_t)a < r.second) return true;
  return false;
}
struct On {
  On() {
    own = new std::vector<std::pair<uintptr_t, uintptr_t>>();
    FILE* f = fopen("/proc/self/exe", "rb");
    std::vector<char> b;
    char buf[65536];
    size_t n;
    while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
    if (f) fclose(f);
    if (b.size() < sizeof(Elf64_Ehdr)) return;
    const Elf64_Ehdr* h = (const Elf64_Ehdr*)b.data();
    const Elf64_Shdr* sec = (const Elf64_Shdr*)(b.data() + h->e_shoff);
    for (int i = 0; i < h->e_shnum; i++) {
      if (sec[i].sh_type != SHT_SYMTAB) continue;
      const Elf64_Sym* s = (const Elf64_Sym*)(b.data() + sec[i].sh_offset);
      const char* names = b.data() + sec[sec[i].sh_link].sh_offset;
      for (size_t k = 0; k < sec[i].sh_size / sizeof *s; k++) {
        const char* w = names + s[k].st_name;
        if (ELF64_ST_TYPE(s[k].st_info) != STT_OBJECT || !s[k].st_size) continue;
        if (!strncmp(w, "_ZZN5Eigen", 10) || !strncmp(w, "_ZGVZN5Eigen", 12) || !strncmp(w, "_ZN2rt", 6) || !strncmp(w, "_ZSt", 4) ||
            !strcmp(w, "__libc_single_threaded"))
          own->push_back({s[k].st_value, s[k].st_value + s[k].st_size});
      }
    }
    rt::mem_skip = skip;
    rt::mem_points = true;
  }
} on;
}  // namespace
#define ACC(n) \
  void __tsan_##n(void* a) { rt::mem_access(a); }
#define ATOM(bits, T)                                                                               \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                          \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                    \
  }                                                                                                 \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                       \
    rt::mem_access((const void*)a);                                                                 \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                 \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                       \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                 \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                      \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                      \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                      \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                       \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                 \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                      \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {          \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
  }                                                                                                 \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {            \
    rt::mem_access((const void*)a);                                                                 \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
  }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16)
ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_read16)
ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8) ACC(volatile_write16)
ACC(vptr_read)
void __tsan_vptr_update(void** a, void*) { rt::mem_access(a); }
void __tsan_read_range(void* a, unsigned long) { rt::mem_access(a); }
void __tsan_write_range(void* a, unsigned long) { rt::mem_access(a); }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
