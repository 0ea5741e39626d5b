// Stand-in for a header newer than the installed LLVM (only the logging macro is used).
#pragma once
#include "llvm/Support/Debug.h"
#include "llvm/Support/raw_ostream.h"
#define LDBG() llvm::dbgs()
