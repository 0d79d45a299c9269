#include "pbt.hpp"
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
