/* mmap family for the proofs: every mapping is a fresh object of the requested size, so any access
   outside a mapping, and any overlap between two, is an error of the code under proof. */
#include <stddef.h>
void *malloc(size_t);
void *mmap(void *a, size_t n, int p, int f, int fd, long off) {
  if (n == 0) return (void *)-1;
  return malloc(n);
}
int mprotect(void *a, size_t n, int p) { return 0; }
int munmap(void *a, size_t n) { return 0; }
int *__errno_location(void) { static int e; return &e; }
