B = "python/src/common.h"
S = "python/src/bind_sscalar.cpp"
M = "python/src/main.cpp"
H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)
SH = 'PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py"'

bug(id="c09-sparse-state", property="C09", sh=SH,
 needs="a saved jet of twelve or more entries with a derivative that is minus zero",
 breaks="the state of larger jets lists only the entries that are not zero, so minus zero comes back as zero",
 edits=[(B, """                return py::make_tuple(self.m_data);
            },
""", """                if (self.data_length() < 12)
                {
                    return py::make_tuple(self.m_data);
                }

                // most derivatives of larger jets are zero
                auto data = self.m_data;
                for (auto &entry : data)
                {
                    if (entry == 0)
                    {
                        entry = 0;
                    }
                }
                return py::make_tuple(data);
            },
""")],
 files={"demo.py": """import copy, math, pickle
import hyperjet as hj
x = hj.DDScalar([1.0] + [-0.0] * 14)
y = pickle.loads(pickle.dumps(x))
assert [math.copysign(1, v) for v in y.data] == [math.copysign(1, v) for v in x.data], (x.data, y.data)
"""})

bug(id="c11-self-add-storage", property="C11", sh=SH,
 needs="x += x of a dynamic jet while an array view of it exists",
 breaks="x += x gives a dynamic jet new storage, so existing views show released memory",
 edits=[(H, """        Type &operator+=(const Type &b)
        {
            check_equal_size(size(), b.size());

            for""", """        Type &operator+=(const Type &b)
        {
            check_equal_size(size(), b.size());

            if (&b == this)
            {
                return *this = *this * Scalar(2);
            }

            for""")],
 files={"demo.py": """import gc
import hyperjet as hj
x = hj.DDScalar.variables([1.0, 2.0, 3.0])[0]
v, g = x.data, x.g
x += x
junk = [hj.DDScalar.variables([9.0, 9.0, 9.0]) for k in range(50)]
gc.collect()
assert v[0] == 2.0 and list(g) == [2.0, 0.0, 0.0], (v, g)
v[0] = 7.0
assert x.f == 7.0, x.f
"""})

bug(id="c11-hessian-cache", property="C11", sh=SH,
 needs="hm called twice on jets of one class, with the first matrix kept",
 breaks="hm returns a matrix that shares its memory with the one returned before",
 edits=[(B, """                "hm", [](const T &self, const std::string &mode)
                {
                    // dynamic size: a fixed 1x1 matrix would become a one-dimensional array
                    return Eigen::Matrix<typename T::Scalar, hj::Dynamic, hj::Dynamic>(self.hm(mode));
                },
""", """                "hm", [](const T &self, const std::string &mode)
                {
                    // dynamic size: a fixed 1x1 matrix would become a one-dimensional array
                    return Eigen::Matrix<typename T::Scalar, hj::Dynamic, hj::Dynamic>(self.hm(mode));
                },
"""),] , files={}) if 0 else None

bug(id="c12-sparse-repr-release", property="C12", sh=SH,
 needs="a thread that prints a sparse jet while another updates it in place",
 breaks="the text of a sparse jet is made without the interpreter lock",
 edits=[(S, """        .def("__repr__", &T::to_string)
""", """        .def("__repr__", &T::to_string, py::call_guard<py::gil_scoped_release>())
""")],
 files={"demo.py": """import subprocess, sys, os
here = os.path.dirname(os.path.abspath(__file__))
bad = 0
for k in range(4):
    p = subprocess.run([sys.executable, os.path.join(here, "prog.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    print(p.returncode, p.stdout[-200:])
    if p.returncode: bad = 1
sys.exit(bad)
""", "prog.py": """import threading, sys
import hyperjet as hj
names = ["n%d" % i for i in range(300)]
x = hj.SScalar(1.0, {n: 1.0 for n in names})
y = hj.SScalar(0.0, {n: 1.0 for n in names})
want = {1.0, 2.0}
stop = False
def write():
    global stop
    for k in range(400):
        x.__iadd__(y)
        x.__isub__(y)
    stop = True
bad = []
def read():
    while not stop:
        t = repr(x)
        c = t.split(" ")[1:]
        ks = {e.split("*")[0] for e in c}
        if len(c) != 300 or len(ks) != 1: bad.append(t[:80])
ts = [threading.Thread(target=f) for f in (write, read, read)]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(1 if bad else 0)
"""})

bug(id="c12-eval-release", property="C12", sh=SH,
 needs="a thread that evaluates a jet while another updates it in place",
 breaks="eval works without the interpreter lock on jets with many variables, so it sees half-updated jets",
 edits=[(B, """        .def("eval", &T::eval, "d"_a);

    if constexpr (T::order() == 2)
""", """        .def("eval", &T::eval, "d"_a, py::call_guard<py::gil_scoped_release>());

    if constexpr (T::order() == 2)
""")],
 files={"demo.py": """import threading, sys
import hyperjet as hj
n = 400
x = hj.DDScalar([1.0] * ((n + 1) * (n + 2) // 2))
d = [1.0] * n
want = {x.eval(d)}
x *= 2.0
want.add(x.eval(d))
x *= 0.5
stop = False
def write():
    global stop
    for k in range(3000):
        x.__imul__(2.0)
        x.__imul__(0.5)
    stop = True
bad = []
def read():
    while not stop:
        v = x.eval(d)
        if v not in want: bad.append(v)
ts = [threading.Thread(target=f) for f in (write, read, read)]
for t in ts: t.start()
for t in ts: t.join()
print(len(bad))
sys.exit(1 if bad else 0)
"""})

bug(id="c13-repr-fallback", property="C13", cxx="g++",
 needs="memory that runs out while the text of a sparse jet is made",
 breaks="repr falls back to a text without the value when memory runs out, instead of raising",
 edits=[(S, """        .def("__repr__", &T::to_string)
""", """        .def("__repr__", [](T &self)
             {
                 try
                 {
                     return py::str(self.to_string());
                 }
                 catch (const std::exception &)
                 {
                     return py::str("<jet>"); // repr must not fail
                 }
             })
""")],
 sh='''tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -shared -fPIC -O1 "$here/nomem.cpp" -o "$tmp/nomem.so" || exit 3
LD_PRELOAD="$tmp/nomem.so" PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py" "$tmp/nomem.so"''',
 files={"nomem.cpp": """#include <cstdlib>
#include <new>
static long budget = -1;
extern "C" void nomem(long n) { budget = n; }
void *operator new(size_t n) { if (budget == 0) throw std::bad_alloc(); if (budget > 0) budget--; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
""", "demo.py": """import ctypes, sys
import hyperjet as hj
lib = ctypes.CDLL(sys.argv[1])
x = hj.SScalar(1.0, {"first": 2.0, "second": 3.0})
want = repr(x)
r = x.__repr__
for k in range(12):
    got = None
    lib.nomem(k)
    try:
        got = r()
    except (MemoryError, RuntimeError):
        pass
    lib.nomem(-1)
    assert got is None or got == want, (k, got)
"""})

bug(id="c14-hypot-args", property="C14", sh=SH,
 needs="module-level hypot refused again and again because an argument does not fit",
 breaks="a fall-back overload of hypot takes a reference to its arguments that it never drops when it refuses them",
 edits=[(B, """    m.def("hypot", py::overload_cast<const T &, const T &>(&T::hypot));
""", """    m.def("hypot", py::overload_cast<const T &, const T &>(&T::hypot));
    m.def("hypot", [](const T &a, const py::object &b)
          {
              // numbers are constants
              const auto number = py::handle(PyNumber_Float(b.ptr()));

              if (!number)
              {
                  throw py::error_already_set();
              }

              const T other = T::constant(number.cast<typename T::Scalar>(), a.size());
              const T result = T::hypot(a, T::create(other.data()));
              number.dec_ref();
              return result;
          });
""")] , files={"demo.py": ""}) if 0 else None

bug(id="c14-zero-length", property="C14", sh=SH,
 needs="set_hm of a matrix of another shape on a dynamic jet",
 breaks="set_hm adapts the size of a dynamic jet to the matrix before the matrix is known to be square",
 edits=[(B, """            .def("set_hm", &T::set_hm, "value"_a);
""", """            .def(
                "set_hm", [](T &self, const Eigen::Ref<const typename T::Matrix> &value)
                {
                    if constexpr (T::is_dynamic())
                    {
                        // a jet without variables takes those of the matrix
                        if (self.size() == 0)
                        {
                            self.resize(value.rows());
                        }
                    }

                    self.set_hm(value);
                },
                "value"_a);
""")],
 files={"demo.py": """import numpy as np
import hyperjet as hj
x = hj.DDScalar([3.0])
for shape in ((2, 3), (3, 1), (1, 0)):
    try:
        x.set_hm(np.ones(shape))
    except (RuntimeError, TypeError, ValueError):
        pass
    assert x.size == 0 and len(x.data) == 1 and x.f == 3.0, (x.size, x.data)
"""})
BUGS = [b for b in BUGS if b]
