#include "un.c"
