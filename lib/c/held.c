// Preloaded: counts what the process holds on the heap, and its peak.
#define _GNU_SOURCE
#include <errno.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

static atomic_long blocks, bytes, peak;

// Every block carries the size that was asked for (what malloc really hands out depends on what happens to be free).
#define HEADER 32
#define MAGIC 0x76657269665f6865UL
struct header {
  size_t size, offset, unused, magic;
};
static struct header* Of(void* p) { return (struct header*)((char*)p - HEADER); }
static int Own(void* p) { return Of(p)->magic == MAGIC; }  // for foreign blocks this is glibc's size field

static void* In(char* base, size_t offset, size_t n) {
  if (!base) return NULL;
  char* p = base + offset;
  *Of(p) = (struct header){n, offset, 0, MAGIC};
  atomic_fetch_add(&blocks, 1);
  const long now = atomic_fetch_add(&bytes, (long)n) + (long)n;
  long m = atomic_load(&peak);
  while (now > m && !atomic_compare_exchange_weak(&peak, &m, now)) {}
  return p;
}
static int Huge(size_t n) {
  if (n < (size_t)1 << 62) return 0;
  errno = ENOMEM;
  return 1;
}
void* malloc(size_t n) { return Huge(n) ? NULL : In(__libc_malloc(n + HEADER), HEADER, n); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n) || Huge(n)) {
    errno = ENOMEM;
    return NULL;
  }
  return In(__libc_calloc(1, n + HEADER), HEADER, n);
}
void free(void* p) {
  if (!p) return;
  if (!Own(p)) {
    __libc_free(p);
    return;
  }
  struct header* h = Of(p);
  atomic_fetch_sub(&blocks, 1);
  atomic_fetch_sub(&bytes, (long)h->size);
  h->magic = 0;
  __libc_free((char*)p - h->offset);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!Own(p)) return __libc_realloc(p, n);
  if (n == 0) {
    free(p);
    return NULL;
  }
  void* q = malloc(n);
  if (!q) return NULL;
  memcpy(q, p, Of(p)->size < n ? Of(p)->size : n);
  free(p);
  return q;
}
void* memalign(size_t a, size_t n) {
  if (a < HEADER) a = HEADER;
  return Huge(n) || Huge(a) ? NULL : In(__libc_memalign(a, n + a), a, n);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) { return !p ? 0 : Own(p) ? Of(p)->size : 0; }
void verif_held(long* b, long* y, long* p) {
  *b = atomic_load(&blocks);
  *y = atomic_load(&bytes);
  *p = atomic_load(&peak);
}
void verif_reset_peak(void) { atomic_store(&peak, atomic_load(&bytes)); }

__attribute__((destructor)) static void Last(void) {
  const char* f = getenv("VERIF_HELD_OUT");
  if (!f) return;
  FILE* o = fopen(f, "w");
  if (!o) return;
  fprintf(o, "{\"peak\": %ld}\n", atomic_load(&peak));
  fclose(o);
}
