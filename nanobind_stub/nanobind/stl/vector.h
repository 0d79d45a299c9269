#include <nanobind/nanobind.h>
