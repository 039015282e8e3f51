// LINK: cat.cc
#define THROWING 1
#include "C16.cc"
