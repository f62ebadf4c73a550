#pragma once
Scenario genSession(Rng& r, bool thorough);
Verdict runSession(const Scenario& s);
Scenario genInert(Rng& r, bool thorough);
Verdict runInert(const Scenario& s);
Scenario genDual(Rng& r, bool thorough);
Verdict runDual(const Scenario& s);
