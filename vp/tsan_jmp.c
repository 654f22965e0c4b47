/* setjmp and longjmp that no sanitizer intercepts */
__asm__ (".text\n"
         ".globl vp_setjmp\n"
         ".type vp_setjmp, @function\n"
         "vp_setjmp:\n"
         "    movq %rbx, 0(%rdi)\n"
         "    movq %rbp, 8(%rdi)\n"
         "    movq %r12, 16(%rdi)\n"
         "    movq %r13, 24(%rdi)\n"
         "    movq %r14, 32(%rdi)\n"
         "    movq %r15, 40(%rdi)\n"
         "    leaq 8(%rsp), %rdx\n"
         "    movq %rdx, 48(%rdi)\n"
         "    movq (%rsp), %rdx\n"
         "    movq %rdx, 56(%rdi)\n"
         "    xorl %eax, %eax\n"
         "    ret\n"
         ".size vp_setjmp, .-vp_setjmp\n"
         ".globl vp_longjmp\n"
         ".type vp_longjmp, @function\n"
         "vp_longjmp:\n"
         "    movl %esi, %eax\n"
         "    testl %eax, %eax\n"
         "    jnz 1f\n"
         "    incl %eax\n"
         "1:  movq 0(%rdi), %rbx\n"
         "    movq 8(%rdi), %rbp\n"
         "    movq 16(%rdi), %r12\n"
         "    movq 24(%rdi), %r13\n"
         "    movq 32(%rdi), %r14\n"
         "    movq 40(%rdi), %r15\n"
         "    movq 48(%rdi), %rsp\n"
         "    jmpq *56(%rdi)\n"
         ".size vp_longjmp, .-vp_longjmp\n"
         ".section .note.GNU-stack,\"\",@progbits\n");
