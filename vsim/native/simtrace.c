/* simtrace: the scheduler's hook into the code under test.
 *
 * Counts every bytecode instruction executed in files under one prefix, on the
 * threads that called start(), and calls back into the simulator at instructions it
 * selected: by global event number, by location and occurrence, or by a seeded
 * draw that favours rarely executed locations.  The callback runs on the thread
 * that reached the instruction, before the instruction; it may block (a context switch),
 * run other code (a signal handler, a fork), raise (the instruction fails), or
 * return an exception class or a signal number to be delivered asynchronously, as
 * the interpreter itself would deliver it, at its next check point.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <frameobject.h>
#include <stdint.h>

typedef struct { int traced; Py_ssize_t n; uint32_t *count; int ntarget; } Extra;
static Py_ssize_t extra_index = -1;
static char prefix[4096]; static size_t prefix_len;
static PyObject *callback;
static uint64_t events, next_event = UINT64_MAX, limit = UINT64_MAX;
static int rnd_on; static uint64_t rnd_state; static uint32_t rnd_rare, rnd_hot, hot_limit;
static PyObject *seen_codes;     /* list keeping recorded code objects alive */
static int recording;

#define MAXT 64
static struct target { char file[512], qual[512]; int line; int off; uint32_t occ; int used; PyObject *code; } targets[MAXT];
static int ntargets;

static void extra_free(void *p) { if (p) { free(((Extra *)p)->count); free(p); } }

static const char *relname(PyCodeObject *c) {
  const char *f = PyUnicode_AsUTF8(c->co_filename);
  if (!f) { PyErr_Clear(); return NULL; }
  if (!prefix_len || strncmp(f, prefix, prefix_len)) return NULL;
  return f + prefix_len;
}

static Extra *extra_of(PyCodeObject *c) {
  void *p = NULL;
  if (PyUnstable_Code_GetExtra((PyObject *)c, extra_index, &p) < 0) { PyErr_Clear(); return NULL; }
  if (p) return p;
  Extra *x = calloc(1, sizeof *x);
  const char *rel = relname(c);
  x->traced = rel != NULL;
  if (rel) {
    x->n = Py_SIZE(c);
    x->count = calloc(x->n ? x->n : 1, sizeof *x->count);
    const char *q = PyUnicode_AsUTF8(c->co_qualname);
    for (int i = 0; i < ntargets; i++)
      if (!strcmp(targets[i].file, rel) && q && !strcmp(targets[i].qual, q) && targets[i].line == c->co_firstlineno)
        { x->ntarget++; targets[i].code = (PyObject *)c; }
    if (recording && seen_codes) PyList_Append(seen_codes, (PyObject *)c);
  }
  if (PyUnstable_Code_SetExtra((PyObject *)c, extra_index, x) < 0) { PyErr_Clear(); extra_free(x); return NULL; }
  return x;
}

static inline uint32_t rnd(void) {
  rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
  return (uint32_t)(rnd_state >> 32);
}

static int fire(const char *kind, long id) {
  if (!callback) return 0;
  PyObject *r = PyObject_CallFunction(callback, "slK", kind, id, (unsigned long long)events);
  if (!r) return -1;
  if (PyLong_Check(r)) {
    long sig = PyLong_AsLong(r);
    if (sig > 0) PyErr_SetInterruptEx((int)sig);
  } else if (PyExceptionClass_Check(r)) {
    PyThreadState_SetAsyncExc(PyThread_get_thread_ident(), r);
  }
  Py_DECREF(r);
  return 0;
}

static int tracer(PyObject *self, PyFrameObject *frame, int what, PyObject *arg) {
  if (what == PyTrace_CALL) {
    PyCodeObject *c = PyFrame_GetCode(frame);
    Extra *x = extra_of(c);
    Py_DECREF(c);
    if (x && x->traced) {
      if (PyObject_SetAttrString((PyObject *)frame, "f_trace_opcodes", Py_True) < 0) PyErr_Clear();
    }
    return 0;
  }
  if (what != PyTrace_OPCODE) return 0;
  PyCodeObject *c = PyFrame_GetCode(frame);
  Extra *x = extra_of(c);
  PyObject *code = (PyObject *)c;
  Py_DECREF(c);
  if (!x || !x->traced) return 0;
  int off = PyFrame_GetLasti(frame) / 2;
  uint32_t occ = 0;
  if (off >= 0 && off < x->n) occ = ++x->count[off];
  events++;
  if (x->ntarget)
    for (int i = 0; i < ntargets; i++)
      if (!targets[i].used && targets[i].code == code && targets[i].off == off && targets[i].occ == occ) {
        targets[i].used = 1;
        if (fire("target", i) < 0) return -1;
      }
  if (events == next_event) { next_event = UINT64_MAX; if (fire("event", 0) < 0) return -1; }
  if (rnd_on && rnd() < (occ <= hot_limit ? rnd_rare : rnd_hot)) { if (fire("random", 0) < 0) return -1; }
  if (events > limit) { limit = UINT64_MAX; if (fire("limit", 0) < 0) return -1; }
  return 0;
}

static PyObject *t_start(PyObject *s, PyObject *a) { PyEval_SetTrace(tracer, Py_None); if (PyErr_Occurred()) return NULL; Py_RETURN_NONE; }
static PyObject *t_stop(PyObject *s, PyObject *a) { PyEval_SetTrace(NULL, NULL); Py_RETURN_NONE; }
static PyObject *t_setup(PyObject *s, PyObject *args) {
  const char *p; PyObject *cb; int rec;
  if (!PyArg_ParseTuple(args, "sOp", &p, &cb, &rec)) return NULL;
  strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix);
  Py_XDECREF(callback); callback = NULL;
  if (cb != Py_None) { Py_INCREF(cb); callback = cb; }
  recording = rec;
  if (rec) { Py_XDECREF(seen_codes); seen_codes = PyList_New(0); }
  Py_RETURN_NONE;
}
static PyObject *t_reset(PyObject *s, PyObject *a) { events = 0; next_event = limit = UINT64_MAX; rnd_on = 0; ntargets = 0; Py_RETURN_NONE; }
static PyObject *t_next(PyObject *s, PyObject *a) { unsigned long long n = PyLong_AsUnsignedLongLong(a); if (PyErr_Occurred()) return NULL; next_event = n; Py_RETURN_NONE; }
static PyObject *t_limit(PyObject *s, PyObject *a) { unsigned long long n = PyLong_AsUnsignedLongLong(a); if (PyErr_Occurred()) return NULL; limit = n; Py_RETURN_NONE; }
static PyObject *t_events(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(events); }
static PyObject *t_events_addr(PyObject *s, PyObject *a) { return PyLong_FromVoidPtr(&events); }
static PyObject *t_random(PyObject *s, PyObject *args) {
  unsigned long long seed; unsigned int rare, hot, lim;
  if (!PyArg_ParseTuple(args, "KIII", &seed, &rare, &hot, &lim)) return NULL;
  rnd_state = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!rnd_state) rnd_state = 1;
  for (int i = 0; i < 8; i++) rnd();
  rnd_rare = rare; rnd_hot = hot; hot_limit = lim; rnd_on = 1;
  Py_RETURN_NONE;
}
static PyObject *t_random_off(PyObject *s, PyObject *a) { rnd_on = 0; Py_RETURN_NONE; }
static PyObject *t_target(PyObject *s, PyObject *args) {
  const char *f, *q; int line, off; unsigned int occ;
  if (!PyArg_ParseTuple(args, "ssiiI", &f, &q, &line, &off, &occ)) return NULL;
  if (ntargets >= MAXT) { PyErr_SetString(PyExc_ValueError, "too many targets"); return NULL; }
  struct target *t = &targets[ntargets];
  memset(t, 0, sizeof *t);
  strncpy(t->file, f, sizeof t->file - 1); strncpy(t->qual, q, sizeof t->qual - 1);
  t->line = line; t->off = off; t->occ = occ;
  return PyLong_FromLong(ntargets++);
}
static PyObject *t_locations(PyObject *s, PyObject *a) {
  PyObject *out = PyList_New(0);
  if (!out || !seen_codes) return out;
  for (Py_ssize_t i = 0; i < PyList_GET_SIZE(seen_codes); i++) {
    PyCodeObject *c = (PyCodeObject *)PyList_GET_ITEM(seen_codes, i);
    Extra *x = extra_of(c);
    if (!x) continue;
    for (Py_ssize_t k = 0; k < x->n; k++) if (x->count[k]) {
      PyObject *t = Py_BuildValue("(sOinI)", relname(c), c->co_qualname, c->co_firstlineno, k, x->count[k]);
      if (!t) return NULL;
      PyList_Append(out, t); Py_DECREF(t);
    }
  }
  return out;
}
static PyMethodDef methods[] = {
  {"start", t_start, METH_NOARGS, ""}, {"stop", t_stop, METH_NOARGS, ""},
  {"setup", t_setup, METH_VARARGS, ""}, {"reset", t_reset, METH_NOARGS, ""},
  {"next_event", t_next, METH_O, ""}, {"limit", t_limit, METH_O, ""}, {"events", t_events, METH_NOARGS, ""}, {"events_addr", t_events_addr, METH_NOARGS, ""},
  {"random", t_random, METH_VARARGS, ""}, {"random_off", t_random_off, METH_NOARGS, ""}, {"target", t_target, METH_VARARGS, ""},
  {"locations", t_locations, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simtrace", NULL, -1, methods};
PyMODINIT_FUNC PyInit_simtrace(void) {
  extra_index = PyUnstable_Eval_RequestCodeExtraIndex(extra_free);
  return PyModule_Create(&mod);
}
