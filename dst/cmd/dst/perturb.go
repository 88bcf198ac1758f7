package main

/*
#include <malloc.h>
static void perturb(void) { mallopt(M_PERTURB, 0x5a); }
*/
import "C"

// Memory that the C libraries allocate and do not initialise, or use after
// they freed it, has the same content in every run.
func init() { C.perturb() }
