B = "python/src/common.h"
M = "python/src/main.cpp"
H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)
SH = 'PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py"'

bug(id="c14-f-stale-target", property="C14", sh=SH,
 needs="assigning to f of a dynamic jet an object whose __float__ resizes that jet",
 breaks="the place to write to is looked up before the argument is converted, so the value is written into released storage",
 edits=[(B, """        .def_property("f", py::overload_cast<>(&T::f, py::const_), &T::set_f);
""", """        .def_property("f", py::overload_cast<>(&T::f, py::const_), [](T &self, const py::object &value)
                      {
                          auto &target = self.f();
                          target = value.cast<typename T::Scalar>();
                      });
""")],
 files={"demo.py": """import sys, hyperjet as hj
bad = 0
for n in (1, 2, 3, 5, 9, 20):
    x = hj.DDScalar.constant(1.0, n)
    class V:
        def __float__(self):
            x.resize(n * 37 + 50)
            return 7.0
    x.f = V()
    if x.f != 7.0:
        bad = 1
sys.exit(bad)
"""})

bug(id="c14-variables-leak", property="C14", sh=SH,
 needs="DDScalar.variables called with a sequence one of whose later items cannot be converted",
 breaks="the buffer of converted values is lost when a conversion fails",
 edits=[(B, """                "variables", [](const std::vector<typename T::Scalar> &values)
                { return T::variables(values); },
""", """                "variables", [](const py::sequence &values)
                {
                    // converted once, directly into the values of the result
                    auto *const converted = new std::vector<typename T::Scalar>();
                    converted->reserve(values.size());

                    for (const auto &value : values)
                    {
                        converted->push_back(value.cast<typename T::Scalar>());
                    }

                    auto results = T::variables(*converted);
                    delete converted;
                    return results;
                },
""")],
 files={"demo.py": """import ctypes, sys, hyperjet as hj
class M(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = ctypes.CDLL(None)
libc.mallinfo2.restype = M
def fail(n):
    for _ in range(n):
        try:
            hj.DDScalar.variables([1.0] * 300 + ["x"])
            sys.exit(2)
        except (TypeError, RuntimeError):
            pass
fail(200)
a = libc.mallinfo2().uordblks
fail(500)
b = libc.mallinfo2().uordblks
sys.exit(0 if b - a < 100000 else 1)
"""})

bug(id="c14-eval-item-reference", property="C14", sh=SH,
 needs="eval with a sequence of objects, one of whose __float__ raises",
 breaks="the reference to the item whose conversion failed is never dropped",
 edits=[(B, """        .def("eval", &T::eval, "d"_a);
""", """        .def("eval", &T::eval, "d"_a);

    if constexpr (T::is_dynamic())
    {
        cls.def(
            "eval", [](const T &self, const py::sequence &d)
            {
                // sequences of objects that convert to numbers
                std::vector<typename T::Scalar> values(d.size());

                for (size_t i = 0; i < values.size(); i++)
                {
                    PyObject *const item = PySequence_GetItem(d.ptr(), i);
                    values[i] = PyFloat_AsDouble(item);

                    if (PyErr_Occurred())
                    {
                        throw py::error_already_set();
                    }

                    Py_DECREF(item);
                }

                return self.eval(values);
            },
            "d"_a);
    }
""")],
 files={"demo.py": """import sys, hyperjet as hj
x = hj.DDScalar.constant(1.0, 3)
class V:
    def __float__(self):
        raise ValueError
v = V()
before = sys.getrefcount(v)
for _ in range(5):
    try:
        x.eval([1.0, 2.0, v])
        sys.exit(2)
    except Exception:
        pass
sys.exit(0 if sys.getrefcount(v) == before else 1)
"""})
