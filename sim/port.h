// Forced first include of the portable variant: the library then compiles the code it uses on processors without
// assembly, on this machine, with its sources untouched.
#include <bits/stdc++.h>
#include <cstdint>
#undef __x86_64__
#undef __x86_64
