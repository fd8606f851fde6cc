/*
 * For the sources of nbspd compiled with AddressSanitizer.  When a thread
 * is canceled, glibc jumps from the canceled frames straight to the cleanup
 * handlers and the red zones of those frames stay poisoned under the stack
 * pointer; the handlers then run over them and AddressSanitizer reports an
 * overflow that is not there.  Clean that part of the stack first.
 */
#ifndef ASAN_CLEANUP_H
#define ASAN_CLEANUP_H
#include <pthread.h>
#include <stddef.h>

void __asan_unpoison_memory_region(void const volatile *addr, size_t size);

struct asan_cleanup_st { void (*f)(void *); void *arg; };

__attribute__((no_sanitize("address"), noinline, unused))
static void asan_cleanup_run(void *p){
  struct asan_cleanup_st *c = p;
  char *sp = (char*)__builtin_frame_address(0);

  __asan_unpoison_memory_region(sp - 64 * 1024, 64 * 1024);
  c->f(c->arg);
}

#ifdef pthread_cleanup_push
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
/* as in glibc's pthread.h, with the handler replaced */
#define pthread_cleanup_push(routine, arg) \
  do { \
    struct asan_cleanup_st asan_c_ = { (void (*)(void*))(routine), (arg) }; \
    __pthread_unwind_buf_t __cancel_buf; \
    void (*__cancel_routine) (void *) = asan_cleanup_run; \
    void *__cancel_arg = &asan_c_; \
    int __not_first_call = __sigsetjmp_cancel (__cancel_buf.__cancel_jmp_buf, 0); \
    if (__glibc_unlikely (__not_first_call)) { \
      __cancel_routine (__cancel_arg); \
      __pthread_unwind_next (&__cancel_buf); \
    } \
    __pthread_register_cancel (&__cancel_buf); \
    do {
#define pthread_cleanup_pop(execute) \
      do { } while (0); \
    } while (0); \
    __pthread_unregister_cancel (&__cancel_buf); \
    if (execute) \
      __cancel_routine (__cancel_arg); \
  } while (0)
#endif
#endif
