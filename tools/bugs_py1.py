B = "python/src/common.h"
H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)
SH = 'PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py"'

bug(id="c09-trim-state", property="C09", sh=SH,
 needs="a first-order dynamic jet whose last variables have zero derivative, saved and restored",
 breaks="trailing zero derivatives are left out of the saved state of dynamic first-order jets, so the restored jet has fewer variables",
 edits=[(B, """                return py::make_tuple(self.m_data);
""", """                if constexpr (T::is_dynamic() && T::order() == 1)
                {
                    // inactive trailing variables do not need to be stored
                    auto data = self.m_data;

                    while (data.size() > 1 && data.back() == 0)
                    {
                        data.pop_back();
                    }

                    return py::make_tuple(data);
                }

                return py::make_tuple(self.m_data);
""")],
 files={"demo.py": """import pickle, sys, hyperjet as hj
xs = hj.DScalar.variables([1.0, 2.0, 3.0])
y = xs[0] * xs[1]
z = pickle.loads(pickle.dumps(y))
sys.exit(0 if z.size == 3 and (z + xs[2]).size == 3 and list(z.data) == list(y.data) else 1)
"""})

bug(id="c09-constant-deepcopy", property="C09", sh=SH,
 needs="deepcopy of a jet whose derivatives are all zero, followed by an in-place update of the original or the copy",
 breaks="deepcopy returns constants themselves instead of a copy, so later in-place changes of the original change the copy",
 edits=[(B, """            "__deepcopy__", [](const T &self, py::dict &memo)
            { return self; },
""", """            "__deepcopy__", [](const py::object &object, py::dict &memo)
            {
                const T &self = object.cast<const T &>();

                // constants do not need to be duplicated
                for (hj::index i = 1; i < hj::length(self.m_data); i++)
                {
                    if (self.m_data[i] != 0)
                    {
                        return py::cast(self);
                    }
                }

                return object;
            },
""")],
 files={"demo.py": """import copy, sys, hyperjet as hj
x = hj.variables([2.0, 3.0])
acc = hj.DD2Scalar.constant(1.0)
saved = copy.deepcopy([acc, x[0]])
acc += x[0]
sys.exit(0 if saved[0].f == 1.0 and list(saved[0].g) == [0.0, 0.0] else 1)
"""})

bug(id="c10-short-state", property="C10", sh=SH,
 needs="a truncated state (too few entries) of a fixed-size jet",
 breaks="a fixed-size jet accepts a state that is too short and leaves the missing entries uninitialised",
 edits=[(B, """                const auto data = tuple[0].cast<typename T::Data>();

                if constexpr (T::is_dynamic())
                {
                    return T(data, T::size_from_data_length(hj::length(data)));
                }
                else
                {
                    return T(data);
                }
""", """                if constexpr (T::is_dynamic())
                {
                    const auto data = tuple[0].cast<typename T::Data>();
                    return T(data, T::size_from_data_length(hj::length(data)));
                }
                else
                {
                    // copy directly into the storage of the jet
                    T result = T::empty();
                    hj::index i = 0;

                    for (const auto &value : tuple[0].cast<py::sequence>())
                    {
                        if (i == hj::length(result.m_data))
                        {
                            throw std::runtime_error("Invalid state!");
                        }

                        result.m_data[i++] = value.cast<typename T::Scalar>();
                    }

                    return result;
                }
""")],
 files={"demo.py": """import sys, hyperjet as hj
C = hj.DD4Scalar
for k in range(20):
    junk = [C([1e300 + i * 1e290 for i in range(15)]) for _ in range(50)]
    junk = [j * 1.5 for j in junk]
    x = C.__new__(C)
    try:
        x.__setstate__(([1.0, 2.0],))
    except Exception:
        continue
    sys.exit(1)
sys.exit(0)
"""})

bug(id="c10-loose-length", property="C10", sh=SH,
 needs="a state of a second-order dynamic jet with a few entries too many or too few",
 breaks="restoring a dynamic jet no longer checks that the number of entries belongs to a size, so size and storage disagree",
 edits=[(B, """                    return T(data, T::size_from_data_length(hj::length(data)));
""", """                    // the smallest size whose derivatives fit
                    hj::index size = 0;

                    while (T::data_length_from_size(size + 1) <= hj::length(data))
                    {
                        size++;
                    }

                    if (hj::length(data) < 1)
                    {
                        throw std::runtime_error("Invalid length");
                    }

                    return T(data, size);
""")],
 files={"demo.py": """import sys, hyperjet as hj
C = hj.DDScalar
x = C.__new__(C)
try:
    x.__setstate__(([1.0] * 8,))
except Exception:
    sys.exit(0)
sys.exit(0 if len(x.data) == (x.size + 1) * (x.size + 2) // 2 else 1)
"""})

bug(id="c11-division-storage", property="C11", sh=SH,
 needs="a view of a dynamic jet that is kept across an in-place division by another jet",
 breaks="x /= y gives a dynamic jet new storage, so existing array views show released memory",
 edits=[(H, """            const Data a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();
            const auto da = 1 / b.f();
            const auto db = -a_m_data[0] / pow(b.f(), 2);
            const auto daa = Zero();
            const auto dab = -1 / pow(b.f(), 2);
            const auto dbb = 2 * a_m_data[0] / pow(b.f(), 3);

            binary<false>(a_m_data, b.m_data, f, da, db, daa, dab, dbb, m_data);

            return *this;
""", """            const auto f = m_data[0] / b.f();
            const auto da = 1 / b.f();
            const auto db = -m_data[0] / pow(b.f(), 2);
            const auto daa = Zero();
            const auto dab = -1 / pow(b.f(), 2);
            const auto dbb = 2 * m_data[0] / pow(b.f(), 3);

            Data result = m_data;

            binary<false>(m_data, b.m_data, f, da, db, daa, dab, dbb, result);

            m_data = std::move(result);

            return *this;
""")],
 files={"demo.py": """import sys, hyperjet as hj
x, y, z = hj.DDScalar.variables([2.0, 3.0, 5.0])
x = x * y
v = x.data
x /= z
keep = [hj.DDScalar([7.0 + i for i in range(10)]) for _ in range(4)]
sys.exit(0 if list(v) == list(x.data) else 1)
"""})

bug(id="c11-gradient-owner", property="C11", sh=SH,
 needs="a gradient array kept after the last reference to its jet is gone and the memory is reused",
 breaks="the gradient view no longer keeps its jet alive",
 edits=[(B, """        .def_property_readonly("g", py::overload_cast<>(&T::ag))
""", """        .def_property_readonly("g", py::overload_cast<>(&T::ag), py::return_value_policy::reference)
""")],
 files={"demo.py": """import sys, hyperjet as hj
for k in range(50):
    x = hj.DD5Scalar([float(i) for i in range(21)])
    g = (x * 2.0).g
    keep = [hj.DD5Scalar([9.0] * 21) for _ in range(20)]
    if list(g) != [2.0, 4.0, 6.0, 8.0, 10.0]:
        sys.exit(1)
sys.exit(0)
"""})

bug(id="c12-release-lock", property="C12", sh=SH,
 needs="another thread using the same jet while an in-place product is between two entries",
 breaks="the in-place product releases the interpreter lock while it updates the jet",
 edits=[(B, """        .def(py::self *= py::self)
""", """        .def(py::self *= py::self, py::call_guard<py::gil_scoped_release>())
""")],
 files={"demo.py": """import sys, threading, hyperjet as hj
sys.setswitchinterval(1e-6)
n = 1200
bad = False
for k in range(40):
    x = hj.DDScalar.constant(1.0, n)
    x.data[:] = 1.0
    two = hj.DDScalar.constant(2.0, n)
    stop = False
    def work():
        global stop
        for _ in range(30):
            y = x
            y *= two
        stop = True
    t = threading.Thread(target=work)
    t.start()
    while not stop:
        d = x.__copy__().data
        if d.min() != d.max():
            bad = True
            break
    t.join()
    if bad:
        sys.exit(1)
sys.exit(0)
"""})

bug(id="c12-hessian-rows", property="C12", sh=SH,
 needs="set_hm with objects whose conversion to a number runs Python code, while another thread reads the jet",
 breaks="set_hm converts and stores the matrix entry by entry, so other threads see a half-updated Hessian",
 edits=[(B, """            .def("set_hm", &T::set_hm, "value"_a);
""", """            .def("set_hm", [](T &self, const Eigen::Ref<const typename T::Matrix> &value)
                 { self.set_hm(value); }, py::arg("value").noconvert())
            .def(
                "set_hm", [](T &self, const py::sequence &value)
                {
                    // nested sequences
                    if (hj::index(value.size()) != self.size())
                    {
                        throw std::runtime_error("Invalid size");
                    }

                    for (hj::index i = 0; i < self.size(); i++)
                    {
                        const py::sequence row = value[i];

                        if (hj::index(row.size()) != self.size())
                        {
                            throw std::runtime_error("Invalid size");
                        }

                        for (hj::index j = i; j < self.size(); j++)
                        {
                            self.set_h(i, j, row[j].cast<typename T::Scalar>());
                        }
                    }
                },
                "value"_a);
""")],
 files={"demo.py": """import sys, hyperjet as hj
x = hj.DD3Scalar.zero()
seen = []
class V:
    def __float__(self):
        seen.append(x.hm().sum())
        return 1.0
x.set_hm([[V(), V(), V()] for _ in range(3)])
assert x.hm().sum() != 0
# during the call other code may only see the Hessian from before or after
sys.exit(0 if set(seen) <= {0.0, x.hm().sum()} else 1)
"""})

bug(id="c13-deepcopy-leak", property="C13", sh=SH,
 needs="running out of memory while deepcopy duplicates a dynamic jet",
 breaks="the half-made copy is never released when its storage cannot be allocated",
 edits=[(B, """            "__deepcopy__", [](const T &self, py::dict &memo)
            { return self; },
            "memodict"_a);
""", """            "__deepcopy__", [](const T &self, py::dict &memo)
            {
                T *const result = new T();
                *result = self;
                return result;
            },
            "memodict"_a);
""")],
 files={"demo.py": """import copy, ctypes, resource, sys, hyperjet as hj
class M(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = ctypes.CDLL(None)
libc.mallinfo2.restype = M
x = hj.DDScalar.constant(1.0, 6000)
vm = int(open("/proc/self/statm").read().split()[0]) * 4096
resource.setrlimit(resource.RLIMIT_AS, (vm + (60 << 20), resource.RLIM_INFINITY))
def fail(n):
    for _ in range(n):
        try:
            copy.deepcopy(x)
            sys.exit(2)
        except MemoryError:
            pass
fail(2000)
a = libc.mallinfo2().uordblks
fail(4000)
b = libc.mallinfo2().uordblks
sys.exit(0 if b - a < 50000 else 1)
"""})

bug(id="c13-copy-noexcept", property="C13", sh=SH,
 needs="running out of memory in copy.copy of a dynamic jet",
 breaks="copying is declared noexcept, so running out of memory ends the interpreter",
 edits=[(B, """        .def("__copy__", [](const T &self)
             { return self; })
""", """        .def("__copy__", [](const T &self) noexcept
             { return T(self); })
""")],
 files={"demo.py": """import copy, resource, sys, hyperjet as hj
x = hj.DDScalar.constant(1.0, 6000)
vm = int(open("/proc/self/statm").read().split()[0]) * 4096
resource.setrlimit(resource.RLIMIT_AS, (vm + (60 << 20), resource.RLIM_INFINITY))
try:
    copy.copy(x)
    sys.exit(2)
except MemoryError:
    sys.exit(0)
"""})
