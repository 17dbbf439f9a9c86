B = "python/src/common.h"
M = "python/src/main.cpp"
H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)
SH = 'PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py"'

# a demonstration runs prog.py in a process of its own and looks at how it ends
RUN = """import subprocess, sys, os
bad = 0
for args in %s:
    try:
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "prog.py")] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        bad = 1
        print(args, "hangs")
        continue
    print(args, p.returncode, p.stdout[-300:])
    if p.returncode != 0 or p.stdout.strip() != b"fine":
        bad = 1
sys.exit(bad)
"""

bug(id="c16-static-object", property="C16", sh=SH,
 needs="deepcopy of a jet, then the end of the process: the cached object is released by a static destructor after the interpreter has ended",
 breaks="the function used to find the identity of the original is kept in a static Python object, which is destroyed after the interpreter",
 edits=[(B, """            "__deepcopy__", [](const T &self, py::dict &memo)
            { return self; },
""", """            "__deepcopy__", [](const py::object &self, py::dict &memo)
            {
                // found by later references to the same jet, as the copy module does itself
                static const py::object keep_alive = py::eval("lambda memo, jet: memo.setdefault(id(memo), []).append(jet)");

                keep_alive(memo, self);

                return T(self.cast<const T &>());
            },
""")],
 files={"demo.py": RUN % '[["1"], ["2"], ["3"]]', "prog.py": """import copy, gc, sys
import hyperjet as hj
xs = hj.variables([1.0, 2.0])
for k in range(int(sys.argv[1])):
    ys = copy.deepcopy(xs)
assert ys[0].f == 1.0
print("fine", flush=True)
"""})

bug(id="c16-late-import", property="C16", sh=SH,
 needs="raising a jet to a power in a finaliser that runs after the interpreter has begun to tear down its modules",
 breaks="the exponent is converted with a function imported at every call, which fails once modules are torn down",
 edits=[(B, """        .def("__pow__", &T::pow)
""", """        .def("__pow__", [](T &self, const py::object &b)
             {
                 // numpy scalars and everything else with __float__
                 const auto number = py::module::import("numpy").attr("float64");

                 return self.pow(number(b).template cast<typename T::Scalar>());
             })
""")],
 files={"demo.py": RUN % '[["module"], ["global"]]', "prog.py": """import os, sys, types
import hyperjet as hj
class Late:
    def __init__(self):
        self.x = hj.DDScalar.variables([3.0, 2.0])[0]
    def __del__(self, write=os.write):
        write(1, b"fine" if (self.x ** 2.0).f == 9.0 else b"other")
if sys.argv[1] == "module":
    late = Late()
    sys.modules["somewhere"] = types.ModuleType("somewhere")
    sys.modules["somewhere"].late = late
    sys.late = late
    del late
else:
    import builtins
    builtins.late = Late()
"""})

bug(id="c16-atexit-scratch", property="C16", sh=SH,
 needs="text of a jet asked for after the exit functions ran (finaliser, other exit function registered earlier)",
 breaks="a scratch stream shared by all text conversions is released by an exit function although jets live longer",
 edits=[(H, """        std::string to_string()
        {
            std::stringstream output;

            output.exceptions(std::ios_base::badbit);

            output << *this;

            return output.str();
        }

        // --- neg

        Type operator-() const
        {
            Type result = Type::empty(size());
""", """        static std::stringstream *&scratch()
        {
            static thread_local std::stringstream *output = nullptr;
            return output;
        }

        static void release_scratch()
        {
            delete scratch();
            scratch() = nullptr;
        }

        std::string to_string()
        {
            if (scratch() == nullptr)
            {
                static thread_local bool registered = false;

                if (registered)
                {
                    return std::string(); // the program ends
                }

                registered = true;
                scratch() = new std::stringstream();
                scratch()->exceptions(std::ios_base::badbit);
            }

            scratch()->str(std::string());

            *scratch() << *this;

            return scratch()->str();
        }

        // --- neg

        Type operator-() const
        {
            Type result = Type::empty(size());
"""), (B, """        .def("__repr__", &T::to_string)
""", """        .def("__repr__", &T::to_string)
        .def_static("_release", &T::release_scratch)
"""), (B, """    m.def("hypot", py::overload_cast<const T &, const T &>(&T::hypot));
""", """    py::module::import("atexit").attr("register")(cls.attr("_release"));

    m.def("hypot", py::overload_cast<const T &, const T &>(&T::hypot));
""")],
 files={"demo.py": RUN % '[["late"]]', "prog.py": """import os
import hyperjet as hj
x = hj.DDScalar.constant(3.0, 2)
assert repr(x) == "3hj"
class Late:
    def __init__(self, x):
        self.x = x
    def __del__(self, write=os.write):
        write(1, b"fine" if self.x.__repr__() == "3hj" else b"other")
late = Late(x)
"""})

bug(id="c16-fork-worker", property="C16", sh=SH,
 needs="eval of a large jet before a fork and again in the forked process",
 breaks="large evaluations use a helper thread started once, which does not exist in a forked process",
 edits=[(H, """#include <array>            // array
#include <assert.h>         // assert
""", """#include <array>            // array
#include <assert.h>         // assert
#include <condition_variable> // condition_variable
#include <functional>       // function
#include <mutex>            // mutex
#include <thread>           // thread
"""), (H, """            Scalar t(0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);

                index k = 1 + size() + i;

                for (index j = 0; j < i; j++)
                {
                    s += d[j] * m_data[k];
                    k += size() - j - 1;
                }

                for (index j = i; j < size(); j++)
                {
                    s += d[j] * m_data[k++];
                }

                t += d[i] * s;
            }

            result += 0.5 * t;
""", """            Scalar t(0);

            const auto sum = [&]()
            {
                for (index i = 0; i < size(); i++)
                {
                    Scalar s(0);

                    index k = 1 + size() + i;

                    for (index j = 0; j < i; j++)
                    {
                        s += d[j] * m_data[k];
                        k += size() - j - 1;
                    }

                    for (index j = i; j < size(); j++)
                    {
                        s += d[j] * m_data[k++];
                    }

                    t += d[i] * s;
                }
            };

            if (size() < 12)
            {
                sum();
            }
            else
            {
                helper().run(sum);
            }

            result += 0.5 * t;
"""), (H, """        void set_zero()
        {
            std::fill(m_data.begin(), m_data.end(), 0);
        }

        friend std::ostream &operator<<(std::ostream &out, const Type &value)
        {
            out << value.f() << "hj";
""", """        // a thread with a warm cache for large sums
        struct Helper
        {
            std::mutex mutex, user;
            std::condition_variable changed;
            std::function<void()> work;
            bool busy = false;

            Helper()
            {
                std::thread([this]()
                            {
                                std::unique_lock<std::mutex> lock(mutex);

                                while (true)
                                {
                                    changed.wait(lock, [this]() { return busy; });
                                    work();
                                    busy = false;
                                    changed.notify_all();
                                } })
                    .detach();
            }

            template <typename F>
            void run(const F &f)
            {
                std::lock_guard<std::mutex> only(user);
                std::unique_lock<std::mutex> lock(mutex);
                work = [&f]() { f(); };
                busy = true;
                changed.notify_all();
                changed.wait(lock, [this]() { return !busy; });
            }
        };

        static Helper &helper()
        {
            static Helper *const instance = new Helper();
            return *instance;
        }

        void set_zero()
        {
            std::fill(m_data.begin(), m_data.end(), 0);
        }

        friend std::ostream &operator<<(std::ostream &out, const Type &value)
        {
            out << value.f() << "hj";
""")],
 files={"demo.py": RUN % '[["4"], ["14"]]', "prog.py": """import os, sys
import hyperjet as hj
n = int(sys.argv[1])
x = hj.DDScalar.variables([1.5] * n)[0]
x *= x
d = [0.5] * n
a = x.eval(d)
pid = os.fork()
if pid == 0:
    os._exit(0 if x.eval(d) == a else 1)
if os.waitpid(pid, 0)[1] == 0 and x.eval(d) == a:
    print("fine")
"""})
