#pragma once
#include "check.h"
// file contents described by a short text "seed:length:kind"
str content(const str& spec);
str pickContentSpec(Rng& r, bool big);
str lispPath(const str& p);
str normPath(const str& p);
std::map<str, str> snapshotDir(const str& base);        // path -> content ("<dir>" for directories), harness side
