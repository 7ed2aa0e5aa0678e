/* Route the plain malloc of the engine through Python's allocator hooks, so that
   tracemalloc sees every block the engine allocates. */
#include <Python.h>
#include <stdlib.h>
#include <string.h>
#define malloc PyMem_RawMalloc
#define calloc PyMem_RawCalloc
#define realloc PyMem_RawRealloc
#define free PyMem_RawFree
