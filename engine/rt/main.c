// the runtime lives in a shared library of its own, so that its uses of the C++ library never
// resolve to the instrumented instantiations of the program under analysis
extern char __start_symcov[] __attribute__((weak)), __stop_symcov[] __attribute__((weak));
int __sym_main(int argc, char **argv, void *c0, void *c1);
int main(int argc, char **argv) { return __sym_main(argc, argv, __start_symcov, __stop_symcov); }
