// ABI between a simulated host (one loaded copy of the library, plus shim.cpp) and the simulator.
#pragma once
#include <cstddef>
#include <cstdint>

// Thrown by the simulator's progress callback to cancel a computation (C03). Recognised by identity.
struct CancelToken { uint64_t id; uint64_t salt; };

struct BlsHooks {
    void* ctx;
    void (*begin)(void*);          // right before control enters the library
    void (*end)(void*);            // right after every library object of the call is gone
    void (*yield)(void*);          // progress callback; null = call without callback
    void (*caught)(void*);         // called inside catch(...) with the exception current
    uint8_t* (*guard)(void*, size_t len, int align_end); // buffer next to an unmapped page, or null
};

enum BlsStatus { BLS_OK = 0, BLS_BAD_ALLOC = 1, BLS_STD_EXC = 2, BLS_FOREIGN_EXC = 3, BLS_REJECTED_INPUT = 90, BLS_NO_OP = 91 };

// Serialised arguments (little endian):
//   u32 n1, n1*144 (G1 Jacobian BE) | u32 n2, n2*288 (G2 Jacobian BE) | u32 ns, ns*32 (scalars LE limbs)
//   u32 nf, nf*48 (raw limbs LE, no conversion) | u32 ni, ni*u64 | u32 nm, nm*(u32 len, bytes)
// Result stream: tag byte then payload
//   'P' 144  G1 Jacobian BE, 'Q' 288 G2 Jacobian BE, 'F' 48 canonical field element BE, 'S' 32 scalar BE,
//   'Y' u32 len + bytes, 'B' 1 byte boolean/int, 'N' (no value), 'L' 48 raw limbs LE
struct BlsHostApi {
    int (*op_count)();
    const char* (*op_name)(int op);
    void* (*prepare)(int op, const uint8_t* in, size_t len, const BlsHooks* hooks);
    int (*exec)(void* args, const BlsHooks* hooks, uint8_t* out, size_t cap, size_t* outlen);
    int (*intact)(void* args);
    void (*destroy)(void* args);
    // sizes of the in-place objects, for placement fuzzing
};
extern "C" const BlsHostApi* bls_host_api();
