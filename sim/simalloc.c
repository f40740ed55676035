/* numpy data allocator under the simulator's control (NEP 49 handler).
 *
 * - counts allocations per thread and fails the one the fault plan names (returns NULL);
 * - decides what freshly allocated memory contains (seeded poison) and where it lies
 *   (alignment offset), so that contents and placement are inputs of the run, not chance;
 * - keeps guard zones around every block, filled with the same poison, and reports writes
 *   into them when the block is freed.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *raw;
    size_t n, rz;
    uint64_t word, step;
    uint64_t magic;
} Head;
#define MAGIC 0x5afe5afe5afe5afeULL

static __thread long long t_count = 0, t_fail_at = -1, t_failed = 0;
static uint64_t g_word = 0, g_step = 0;
static size_t g_rz = 64;
static int g_off = 0;
static long long g_total = 0, g_guard_hits = 0, g_live = 0, g_live_bytes = 0;

static void fill(unsigned char *p, size_t n, uint64_t w, uint64_t step) {
    size_t i = 0;
    uint64_t k = 0;
    if (!step && w == 0) { memset(p, 0, n); return; }
    for (; i + 8 <= n; i += 8, k++) { uint64_t v = w + k * step; memcpy(p + i, &v, 8); }
    for (; i < n; i++) p[i] = (unsigned char)(w >> (8 * (i & 7)));
}
static int same(const unsigned char *p, size_t n, uint64_t w, uint64_t step) {
    size_t i = 0;
    uint64_t k = 0;
    for (; i + 8 <= n; i += 8, k++) { uint64_t v = w + k * step; if (memcmp(p + i, &v, 8)) return 0; }
    return 1;
}
/* layout: [malloc slack][Head][front guard][payload n][back guard rz]; payload 64-aligned + off */
#define FRONT 256
static void *s_malloc(void *ctx, size_t n) {
    (void)ctx;
    long long i = t_count++;
    if (i == t_fail_at) { t_failed++; return NULL; }
    g_total++;
    size_t rz = g_rz;
    size_t tot = n + rz + FRONT + sizeof(Head) + 192;
    unsigned char *raw = malloc(tot);
    if (!raw) return NULL;
    uintptr_t u = (uintptr_t)raw + FRONT + sizeof(Head);
    u = ((u + 63) & ~(uintptr_t)63) + g_off;
    unsigned char *pay = (unsigned char *)u;
    Head *h = (Head *)(u - FRONT - sizeof(Head));
    fill(pay - FRONT, FRONT, g_word, g_step);
    fill(pay, n, g_word, g_step);
    fill(pay + n, rz, g_word, g_step);
    g_live++; g_live_bytes += (long long)n;
    h->raw = raw; h->n = n; h->rz = rz; h->word = g_word; h->step = g_step; h->magic = MAGIC;
    return pay;
}
static void s_free(void *ctx, void *p, size_t n) {
    (void)ctx; (void)n;
    if (!p) return;
    Head *h = (Head *)((uintptr_t)p - FRONT - sizeof(Head));
    unsigned char *pay = p;
    if (h->magic != MAGIC) { g_guard_hits++; return; }
    if (!same(pay - FRONT, FRONT, h->word, h->step) || !same(pay + h->n, h->rz, h->word, h->step))
        g_guard_hits++;
    h->magic = 0;
    g_live--; g_live_bytes -= (long long)h->n;
    fill(pay, h->n, h->word ^ 0x2222222222222222ULL, h->step);
    free(h->raw);
}
static void *s_calloc(void *ctx, size_t a, size_t b) {
    void *p = s_malloc(ctx, a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static void *s_realloc(void *ctx, void *p, size_t n) {
    if (!p) return s_malloc(ctx, n);
    Head *h = (Head *)((uintptr_t)p - FRONT - sizeof(Head));
    size_t m = h->n;
    void *q = s_malloc(ctx, n);
    if (!q) return NULL;
    memcpy(q, p, m < n ? m : n);
    s_free(ctx, p, m);
    return q;
}
static PyDataMem_Handler handler = {"simalloc", 1, {NULL, s_malloc, s_calloc, s_realloc, s_free}};

static PyObject *py_on(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}
static PyObject *py_off(PyObject *self, PyObject *old) {
    PyObject *x = PyDataMem_SetHandler(old);
    if (!x) return NULL;
    Py_DECREF(x);
    Py_RETURN_NONE;
}
static PyObject *py_arm(PyObject *self, PyObject *args) {
    long long f;
    if (!PyArg_ParseTuple(args, "L", &f)) return NULL;
    t_count = 0; t_failed = 0; t_fail_at = f;
    Py_RETURN_NONE;
}
static PyObject *py_count(PyObject *self, PyObject *args) { return Py_BuildValue("LL", t_count, t_failed); }
static PyObject *py_poison(PyObject *self, PyObject *args) {
    unsigned long long w, s; Py_ssize_t rz; int off;
    if (!PyArg_ParseTuple(args, "KKni", &w, &s, &rz, &off)) return NULL;
    g_word = w; g_step = s; g_rz = (size_t)rz; g_off = off;
    Py_RETURN_NONE;
}
static PyObject *py_stats(PyObject *self, PyObject *args) { return Py_BuildValue("LLLL", g_total, g_guard_hits, g_live, g_live_bytes); }
static PyMethodDef M[] = {
    {"on", py_on, METH_NOARGS, "install in this thread; returns the previous handler"},
    {"off", py_off, METH_O, "restore a handler"},
    {"arm", py_arm, METH_VARARGS, "reset this thread's counter; fail allocation #n (-1: none)"},
    {"count", py_count, METH_NOARGS, "(allocations, failures injected) in this thread since arm"},
    {"poison", py_poison, METH_VARARGS, "word, step, guard bytes, alignment offset"},
    {"stats", py_stats, METH_NOARGS, "(total allocations, guard-zone hits, live blocks, live bytes) in this process"},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, M};
PyMODINIT_FUNC PyInit_simalloc(void) {
    import_array();
    return PyModule_Create(&D);
}
