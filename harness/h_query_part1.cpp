// unicode-query itself, with its main() renamed.
#define main uq_main
#include <tools/unicode-query.cpp>
