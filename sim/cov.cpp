// Only in builds made with VERIF_COV=1 (tools/coverage.py): which basic blocks of the code under test were reached.
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
static unsigned char* map;
enum { BASE = 0x400000, SIZE = 64 << 20 };
__attribute__((constructor(101))) static void init() {
  const char* f = getenv("VERIF_COV_FILE");
  if (!f) return;
  int d = open(f, O_RDWR | O_CREAT, 0666);
  if (d < 0 || ftruncate(d, SIZE)) return;
  void* m = mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, d, 0);
  if (m != MAP_FAILED) map = (unsigned char*)m;
  close(d);
}
extern "C" void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - BASE;
  if (map && pc < SIZE) map[pc] = 1;
}
