// Arm instructions met in inline assembly, as macros of the assembler (d, a, b : registers, possibly the same)
#ifndef VF_ARM_FIX
#define VF_ARM_FIX
__asm__(
  ".local vf_t\n.comm vf_t, 8, 8\n"
  ".macro pkhbt d:req, a:req, b:req\n"
  "  movl \\b, vf_t(%rip)\n  movl \\a, \\d\n  andl $0x0000ffff, \\d\n  andl $0xffff0000, vf_t(%rip)\n  orl vf_t(%rip), \\d\n.endm\n"
  ".macro pkhtb d:req, a:req, b:req\n"
  "  movl \\b, vf_t(%rip)\n  movl \\a, \\d\n  andl $0xffff0000, \\d\n  andl $0x0000ffff, vf_t(%rip)\n  orl vf_t(%rip), \\d\n.endm\n");
#endif
