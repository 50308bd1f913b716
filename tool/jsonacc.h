#pragma once
#include "ir.h"
#include "report.h"
void ruleJson(Prog &P, Report &R);
