#define LLVM_Add 13
#define LLVM_FAdd 14
#define LLVM_Sub 15
#define LLVM_FSub 16
#define LLVM_Mul 17
#define LLVM_FMul 18
#define LLVM_UDiv 19
#define LLVM_SDiv 20
#define LLVM_FDiv 21
#define LLVM_URem 22
#define LLVM_SRem 23
#define LLVM_FRem 24
#define LLVM_Shl 25
#define LLVM_LShr 26
#define LLVM_AShr 27
#define LLVM_And 28
#define LLVM_Or 29
#define LLVM_Xor 30
#define LLVM_Trunc 38
#define LLVM_ZExt 39
#define LLVM_SExt 40
#define LLVM_FPToUI 41
#define LLVM_FPToSI 42
#define LLVM_UIToFP 43
#define LLVM_SIToFP 44
#define LLVM_FPTrunc 45
#define LLVM_FPExt 46
#define LLVM_BitCast 49
#define LLVM_ICMP_EQ 32
#define LLVM_ICMP_NE 33
#define LLVM_ICMP_UGT 34
#define LLVM_ICMP_UGE 35
#define LLVM_ICMP_ULT 36
#define LLVM_ICMP_ULE 37
#define LLVM_ICMP_SGT 38
#define LLVM_ICMP_SGE 39
#define LLVM_ICMP_SLT 40
#define LLVM_ICMP_SLE 41
