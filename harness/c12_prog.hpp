#pragma once
#include <string>
int         prog_count();
const char* prog_name(int p);
std::string prog_run(int p, int v); // v selects one of two sets of values
