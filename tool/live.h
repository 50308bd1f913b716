#pragma once
#include "ir.h"
#include "report.h"
void ruleLive(Prog &P, Report &R);
