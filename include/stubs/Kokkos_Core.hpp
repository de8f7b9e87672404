// Stand-in for the Kokkos entry points an application may use (Kokkos is not installed in the sandbox).
#pragma once
namespace Kokkos {
struct InitArguments { int num_threads = -1, num_numa = -1, device_id = -1; };
inline void initialize(int &, char *[]) {}
inline void initialize(const InitArguments & = InitArguments()) {}
inline void finalize() {}
inline bool is_initialized() { return true; }
struct ScopeGuard { ScopeGuard(int &, char *[]) {} ScopeGuard() {} };
}
