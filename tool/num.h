#pragma once
#include "ir.h"
#include "report.h"
void ruleNum(Prog &P, Report &R);
