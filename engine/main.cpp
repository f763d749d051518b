#include "pbt.hpp"
int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
