#pragma once
namespace cpu_features { struct X86Features { int pclmulqdq = 1, avx2 = 1, bmi2 = 1; }; struct X86Info { X86Features features; }; inline X86Info GetX86Info() { return {}; } }
