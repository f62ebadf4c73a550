#pragma once
#include "check.h"
struct ProgGen;
str genProgram(Rng& r, Scenario& s, double wErr, ProgGen& p, bool thorough);
Verdict runDebug(const Scenario& s, int prop);
Scenario genP15debug(Rng& r, bool t);
