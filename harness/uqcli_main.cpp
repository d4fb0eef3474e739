// The command line program of ensembles, its main under another name.
#include <iomanip>
extern "C" __attribute__((weak)) int omp_get_max_threads() noexcept { return 1; }     // not linked with OpenMP here
#define main alsuqcli_main
#include "/repo/alsuqcli/src/main.cpp"
