/* Work that C code does on behalf of the library: bytes it allocates and
 * comparisons it makes between built-in objects (searching a list, say). */
#include <Python.h>

static unsigned long long bytes, cmps;
static PyMemAllocatorEx old[3];

static void *my_malloc(void *ctx, size_t n)
{
    PyMemAllocatorEx *o = ctx;
    bytes += n;
    return o->malloc(o->ctx, n);
}

static void *my_calloc(void *ctx, size_t k, size_t n)
{
    PyMemAllocatorEx *o = ctx;
    bytes += k * n;
    return o->calloc(o->ctx, k, n);
}

/* growing in place is not copying: not counted */
static void *my_realloc(void *ctx, void *p, size_t n)
{
    PyMemAllocatorEx *o = ctx;
    return o->realloc(o->ctx, p, n);
}

static void my_free(void *ctx, void *p)
{
    PyMemAllocatorEx *o = ctx;
    o->free(o->ctx, p);
}

#define TYPES 4
static PyTypeObject *const types[TYPES] = {&PyUnicode_Type, &PyLong_Type, &PyTuple_Type, &PyFloat_Type};
static richcmpfunc cmp[TYPES];

#define WRAP(i) static PyObject *rich##i(PyObject *a, PyObject *b, int op) { cmps++; return cmp[i](a, b, op); }
WRAP(0) WRAP(1) WRAP(2) WRAP(3)

void ccount_install(void)
{
    static const PyMemAllocatorDomain dom[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    static richcmpfunc const mine[TYPES] = {rich0, rich1, rich2, rich3};
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(dom[i], &old[i]);
        PyMemAllocatorEx a = {&old[i], my_malloc, my_calloc, my_realloc, my_free};
        PyMem_SetAllocator(dom[i], &a);
    }
    for (int i = 0; i < TYPES; i++) {
        cmp[i] = types[i]->tp_richcompare;
        types[i]->tp_richcompare = mine[i];
    }
}

unsigned long long ccount_bytes(void) { return bytes; }
unsigned long long ccount_cmps(void) { return cmps; }
