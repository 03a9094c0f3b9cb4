// The command line program of the repository; only tmpfile() is replaced (see memfile.inc).
#include <stdio.h>
#include <string.h>
#include <string>
#include "memfile.inc"
#include "../main.cc"
