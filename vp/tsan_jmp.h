/* Force-included into the library for ThreadSanitizer, whose own versions of
 * these functions expect a single stack per thread.  Includes nothing, as the
 * sources choose their feature macros themselves. */
#ifndef __TSAN_JMP_H__
#define __TSAN_JMP_H__

struct __jmp_buf_tag;

int vp_setjmp (struct __jmp_buf_tag *buf) __attribute__ ((returns_twice));
void vp_longjmp (struct __jmp_buf_tag *buf, int val)
    __attribute__ ((noreturn));

#define _setjmp vp_setjmp
#define longjmp vp_longjmp
#define _longjmp vp_longjmp
#define siglongjmp vp_longjmp

#endif
