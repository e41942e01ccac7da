#pragma once
#include <vector>
enum { T01_OPS = 31, T01_VARIANTS = 2 };
void t01_setup();
void t01_op(int op, int variant, std::vector<int>& out);
extern const char* const t01_name[T01_OPS];
