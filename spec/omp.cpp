// OpenMP runtime for the analysis: one thread takes all iterations; the borders of work-shared loops and critical sections are marked
#include <cstdint>
extern "C" void verif_ws();
extern "C" void verif_ws_end();
extern "C" void __kmpc_for_static_init_4(void *, int, int, int *, int *, int *, int *, int, int) { verif_ws(); }
extern "C" void __kmpc_for_static_init_4u(void *, int, int, int *, unsigned *, unsigned *, int *, int, int) { verif_ws(); }
extern "C" void __kmpc_for_static_init_8(void *, int, int, int *, int64_t *, int64_t *, int64_t *, int64_t, int64_t) { verif_ws(); }
extern "C" void __kmpc_for_static_init_8u(void *, int, int, int *, uint64_t *, uint64_t *, int64_t *, int64_t, int64_t) { verif_ws(); }
extern "C" void __kmpc_for_static_fini(void *, int) { verif_ws_end(); }
extern "C" void __kmpc_barrier(void *, int) {}
