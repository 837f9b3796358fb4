#pragma once
#include "mpiprog.hpp"
extern "C" {
void mt_prepare(const PProg *);
int mt_run(const PProg *, POut *);
const char *mt_after();
void mt_warm();
}
