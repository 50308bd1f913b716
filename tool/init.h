#pragma once
#include "ir.h"
#include "report.h"
void ruleInit(Prog &P, Report &R);
