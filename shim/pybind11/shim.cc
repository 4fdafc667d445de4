#define VERIF_PYBIND_SHIM_MAIN
#include "pybind11/pybind11.h"
namespace pybind11 {
void shim_import_numpy() {
    if (_import_array() < 0) throw error_already_set();
}
}  // namespace pybind11
