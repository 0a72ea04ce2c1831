# entry point of 32 bit programs; there is no crt1.o for them here
.globl _start
_start:
 xorl %ebp,%ebp
 popl %esi
 movl %esp,%ecx
 andl $0xfffffff0,%esp
 pushl %eax
 pushl %esp
 pushl %edx
 pushl $0
 pushl $0
 pushl %ecx
 pushl %esi
 pushl $main
 call __libc_start_main
 hlt
.section .note.GNU-stack,"",@progbits
