#pragma once
#include "ir.h"
#include "report.h"
void ruleTerm(Prog &P, Report &R);
