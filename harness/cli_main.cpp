// The command line program of single runs, its main under another name.
#include <iomanip>
extern "C" __attribute__((weak)) int omp_get_max_threads() noexcept { return 1; }     // not linked with OpenMP here
#define main alsvinncli_main
#include "/repo/alsvinncli/src/main.cpp"
