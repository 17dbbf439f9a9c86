B = "python/src/common.h"
S = "python/src/bind_sscalar.cpp"
M = "python/src/main.cpp"
H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)
SH = 'PYTHONPATH=/repo/_build/python timeout 200 "$PY" "$here/demo.py"'

bug(id="c01-operand-rehash", property="C01", flags="-O1 -fsanitize=thread",
 needs="two threads that add the same sparse jet to jets with more variables",
 breaks="the sparse two-operand kernel grows the table of its second operand although that is only read",
 edits=[(H, """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db)
        {
            Data r{a};
""", """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db)
        {
            Data r{a};

            // tables of the same width are walked in the same order
            if (r.bucket_count() > b.bucket_count())
                const_cast<Data &>(b).rehash(r.bucket_count());
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <thread>
using J = hyperjet::SScalar<double>;
int main()
{
    J big = J::variable("v0", 1.0);
    for (int i = 1; i < 40; i++) big += J::variable("v" + std::to_string(i), 1.0);
    int bad = 0;
    for (int k = 0; k < 50; k++)
    {
        J x = J::variable("x", 1.0) + J::variable("y", 1.0);
        int b[2] = {};
        auto w = [&](int t) { J r = big * x; b[t] = r.size() != 42 || x.d("y") != 1.0; };
        std::thread a(w, 0), c(w, 1);
        a.join(); c.join();
        bad |= b[0] | b[1];
    }
    return bad;
}
""")

bug(id="c02-ternary-coefficients", property="C02", flags="-O1 -fsanitize=thread",
 needs="two threads computing hypot of three jets at the same time",
 breaks="hypot of three operands keeps the squares of its operands in a static array shared by all threads",
 edits=[(H, """            const auto a2 = a.f() * a.f();
            const auto b2 = b.f() * b.f();
            const auto c2 = c.f() * c.f();
            const auto da = a.f() / f;""", """            static std::array<Scalar, 3> squares;
            squares = {a.f() * a.f(), b.f() * b.f(), c.f() * c.f()};
            const auto &a2 = squares[0];
            const auto &b2 = squares[1];
            const auto &c2 = squares[2];
            const auto da = a.f() / f;""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <thread>
using J = hyperjet::DDScalar<2, double, 3>;
int main()
{
    int bad[2] = {};
    auto w = [&](int t) {
        auto v = J::variables<3>({1.0 + t, 2.0 + t, 3.0 + t});
        const J ref = hypot(v[0], v[1], v[2]);
        for (int i = 0; i < 5000; i++) { const J r = hypot(v[0], v[1], v[2]); if (r.data() != ref.data()) bad[t] = 1; }
    };
    std::thread a(w, 0), b(w, 1);
    a.join(); b.join();
    return bad[0] | bad[1];
}
""")

bug(id="c02-message-buffer", property="C02", flags="-O1 -fsanitize=thread",
 needs="operations refused in two threads at the same time",
 breaks="the message of a refused operation is put together in a static string shared by all threads",
 edits=[(H, """                    if (size_a != size_b)
                    {
                        throw std::runtime_error("Incompatible size");
""", """                    if (size_a != size_b)
                    {
                        static std::string message;
                        message = "Incompatible size";
                        message += " (" + std::to_string(size_a) + " and " + std::to_string(size_b) + " variables)";
                        throw std::runtime_error(message);
""")],
 cpp="""#define HYPERJET_EXCEPTIONS
#include <hyperjet/hyperjet.h>
#include <thread>
using J = hyperjet::DDScalar<2, double, -1>;
int main()
{
    int bad[2] = {};
    auto w = [&](int t) {
        const J a = J::zero(2 + t), b = J::zero(4 + t);
        std::string first;
        for (int i = 0; i < 3000; i++)
            try { J c = a + b; bad[t] = 1; }
            catch (const std::runtime_error &e) { if (first.empty()) first = e.what(); else if (first != e.what()) bad[t] = 1; }
    };
    std::thread a(w, 0), b(w, 1);
    a.join(); b.join();
    return bad[0] | bad[1];
}
""")

FAIL = """#include <cstdlib>
#include <new>
static long countdown = -1;
void *operator new(std::size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); if (void *p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
"""

bug(id="c03-abs-noexcept", property="C03",
 needs="memory that runs out inside abs of a dynamic or sparse jet",
 breaks="abs is declared noexcept although its result allocates: exhaustion ends the process",
 edits=[(H, """        Type abs() const
        {
            return f() < 0 ? -(*this) : *this;""", """        Type abs() const noexcept
        {
            return f() < 0 ? -(*this) : *this;""")],
 cpp="""#include <hyperjet/hyperjet.h>
""" + FAIL + """
using J = hyperjet::DDScalar<2, double, -1>;
int main()
{
    const J x = J::variable(0, -1.0, 3);
    countdown = 0;
    try { J r = x.abs(); countdown = -1; return 1; }
    catch (const std::bad_alloc &) { countdown = -1; }
    return 0;
}
""")

bug(id="c03-variables-short", property="C03",
 needs="memory that runs out while variables makes the second or a later jet",
 breaks="variables returns the jets made so far when memory runs out half-way",
 edits=[(H, """            std::vector<Type> vars(s);
            for (index i = 0; i < s; i++)
            {
                vars[i] = variable(i, values[i], s);
            }
            return vars;
        }

        template <index T>""", """            std::vector<Type> vars;
            try
            {
                vars.reserve(s);
                for (index i = 0; i < s; i++)
                {
                    vars.push_back(variable(i, values[i], s));
                }
            }
            catch (const std::bad_alloc &)
            {
                if (vars.empty())
                {
                    throw;
                }
            }
            return vars;
        }

        template <index T>""")],
 cpp="""#include <hyperjet/hyperjet.h>
""" + FAIL + """
using J = hyperjet::DDScalar<2, double, -1>;
int main()
{
    const std::vector<double> v{1, 2, 3, 4};
    for (long k = 0; k < 40; k++)
    {
        countdown = k;
        try { auto r = J::variables(v); const bool f = countdown < 0; countdown = -1; if (r.size() != 4) return 1; if (!f) return 0; }
        catch (const std::bad_alloc &) { countdown = -1; }
    }
    return 0;
}
""")

bug(id="c04-sparse-idiv-order", property="C04",
 needs="memory that runs out inside /= of sparse jets",
 breaks="/= of sparse jets updates the value before the derivatives have been computed",
 edits=[(H, """            m_d = binary(m_d, b.m_d, da, db);

            m_f /= b.m_f;
""", """            m_f *= da;

            m_d = binary(m_d, b.m_d, da, db);
""")],
 cpp="""#include <hyperjet/hyperjet.h>
""" + FAIL + """
using J = hyperjet::SScalar<double>;
int main()
{
    const J b = J::variable("y", 4.0);
    for (long k = 0; k < 10; k++)
    {
        J x = J::variable("x", 2.0);
        countdown = k;
        try { x /= b; const bool f = countdown < 0; countdown = -1; if (!f) return 0; }
        catch (const std::bad_alloc &) { countdown = -1; if (x.f() != 2.0 || x.d("x") != 1.0 || x.size() != 1) return 1; }
    }
    return 0;
}
""")

bug(id="c04-adopt-size", property="C04",
 needs="a constant jet of size 0 updated in place by a jet with variables while memory runs out",
 breaks="adding to a jet without variables adopts the size before there is storage for it",
 edits=[(H, """        Type &operator-=(const Type &b)
        {
            check_equal_size(size(), b.size());

            for (index i = 0; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""", """        Type &operator-=(const Type &b)
        {
            check_equal_size(size(), b.size());

            if (data_length() > 2)
            {
                // larger jets go through the vectorised kernel
                f() -= b.f();
                Data r = m_data;
                binary<false>(m_data, b.m_data, f(), One(), -One(), Zero(), Zero(), Zero(), r);
                if constexpr (is_dynamic())
                {
                    std::copy(r.begin(), r.end(), m_data.begin());
                }
                else
                {
                    m_data = r;
                }
                return *this;
            }

            for (index i = 0; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""")],
 cpp="""#include <hyperjet/hyperjet.h>
""" + FAIL + """
using J = hyperjet::DDScalar<2, double, -1>;
int main()
{
    const J b = J::variable(1, 4.0, 3);
    for (long k = 0; k < 10; k++)
    {
        J x = J::variable(0, 2.0, 3);
        const auto before = x.data();
        countdown = k;
        try { x -= b; const bool f = countdown < 0; countdown = -1; if (!f) return 0; }
        catch (const std::bad_alloc &) { countdown = -1; if (x.data() != before) return 1; }
    }
    return 0;
}
""")

bug(id="c05-taylor-prefetch", property="C05", flags="-O0 -fsanitize=address",
 needs="evaluation of a dynamic second-order jet (one entry past the end is read)",
 breaks="eval reads the next entry of the packed Hessian before it knows that there is one",
 edits=[(H, """                for (index j = i; j < size(); j++)
                {
                    s += d[j] * m_data[k++];
                }

                t += d[i] * s;""", """                auto entry = m_data.data() + k;
                Scalar next = *entry;

                for (index j = i; j < size(); j++)
                {
                    const Scalar current = next;
                    next = *++entry;
                    s += d[j] * current;
                }

                t += d[i] * s;""")],
 cpp="""#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
using J = hyperjet::DDScalar<2, double, -1>;
int main()
{
    const J x = J::variable(0, 1.0, 3) * J::variable(1, 2.0, 3);
    return x.eval({1.0, 1.0, 1.0}) != 6.0;
}
""")

bug(id="c06-aligned-sum", property="C06", flags="-O2",
 needs="jets placed at addresses of different alignment",
 breaks="evaluation sums in another order when the entries happen to be aligned to 32 bytes, so results depend on where a jet lies",
 edits=[(H, """            Scalar result = f();

            for (index i = 0; i < size(); i++)
            {
                result += d[i] * g(i);
            }
""", """            Scalar result = f();

            if (reinterpret_cast<std::size_t>(ptr()) % 32 == 0)
            {
                // aligned: even and odd entries are summed independently
                Scalar even(0);
                Scalar odd(0);

                for (index i = 0; i < size(); i++)
                {
                    (i % 2 == 0 ? even : odd) += d[i] * g(i);
                }

                result += even + odd;
            }
            else
            {
                for (index i = 0; i < size(); i++)
                {
                    result += d[i] * g(i);
                }
            }
""")],
 cpp="""#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <cstdio>
#include <new>
using J = hyperjet::DDScalar<2, double, 3>;
int main()
{
    alignas(64) char room[sizeof(J) + 64];
    J ref = J::zero();
    ref.f() = 0.1; ref.g(0) = 0.3; ref.g(1) = 0.7; ref.g(2) = -1.1;
    int bad = 0;
    for (int k = 0; k < 200; k++)
    {
        const std::array<double, 3> d{0.1 + 0.013 * k, 1.0 / 3 + k, 0.77};
        double r[4];
        for (int a = 0; a < 4; a++) r[a] = (new (room + 16 * a) J(ref))->eval(d);
        for (int a = 1; a < 4; a++) if (r[a] != r[0]) bad = 1;
    }
    return bad;
}
""")

bug(id="c06-errno-log", property="C06", flags="-O1",
 needs="an earlier range error elsewhere in the process that left errno set",
 breaks="exp treats an errno left behind by earlier code as its own overflow",
 edits=[(H, """            const auto f = exp(this->f());
            const auto da = f;
            const auto daa = f;
""", """            auto f = exp(this->f());

            if constexpr (std::is_same_v<Scalar, double>)
            {
                if (errno == ERANGE && f > 1)
                {
                    f = std::numeric_limits<double>::infinity();
                }
            }

            const auto da = f;
            const auto daa = f;
"""), (H, """#include <cmath>            // acos,""", """#include <cerrno>           // errno
#include <cmath>            // acos,""")],
 cpp="""#include <hyperjet/hyperjet.h>
using J = hyperjet::DDScalar<2, double, 1>;
int main()
{
    const J x = J::variable(0, 2.0);
    errno = 0;
    const J a = x.exp();
    errno = ERANGE;
    const J b = x.exp();
    return a.data() != b.data();
}
""")

bug(id="c07-clear-state", property="C07",
 needs="a sink that fails while the value is written and works again for the rest of the text",
 breaks="the insertion operator clears the error state between the parts, so a failure while writing the value goes unnoticed",
 edits=[(H, """            out << value.f() << "hj";
            return out;""", """            out << value.f();

            if (out.fail() && !out.bad())
            {
                out.clear(); // a number that does not fit the field is no reason to lose the unit
            }

            out << "hj";
            return out;"""),
 (H, """            out << value.m_f;

            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;
            }
""", """            out << value.m_f;

            for (const auto &d : value.m_d)
            {
                const auto state = out.rdstate();

                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;

                if (d.second == 0)
                    out.clear(state); // terms that are zero do not matter
            }
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <sstream>
using J = hyperjet::SScalar<double>;
struct Sink : std::streambuf {
    int left; explicit Sink(int n) : left(n) {}
    int overflow(int c) override { return left-- > 0 ? c : traits_type::eof(); }
    std::streamsize xsputn(const char *, std::streamsize n) override { const std::streamsize m = left < n ? left : n; left -= m; return m < 0 ? 0 : m; }
};
int main()
{
    const J x = J::variable("alpha", 1.5) * 0.0;
    std::ostringstream all; all << x;
    for (int k = 0; k < (int)all.str().size(); k++) { Sink s(k); std::ostream out(&s); out << x; if (out.good()) return 1; }
    return 0;
}
""")

bug(id="c08-div-alias", property="C08",
 needs="a jet divided in place by its own value or one of its own derivatives",
 breaks="in-place division by a number that is an entry of the jet itself divides most entries by the already updated value",
 edits=[(H, """        Type &operator/=(const Scalar &b)
        {
            operator*=(1 / b);

            return *this;
        }

        // --- arithmetic operations
""", """        Type &operator/=(const Scalar &b)
        {
            for (index i = 0; i < length(m_data); i++)
            {
                m_data[i] *= 1 / b;
            }

            return *this;
        }

        // --- arithmetic operations
""")],
 cpp="""#include <hyperjet/hyperjet.h>
using J = hyperjet::DDScalar<2, double, 2>;
int main()
{
    J x = J::variable(0, 4.0) * J::variable(1, 2.0);
    x /= x.f();
    return x.f() != 1.0 || x.g(0) != 0.25 || x.g(1) != 0.5;
}
""")

bug(id="c08-sparse-self-mul", property="C08",
 needs="a sparse jet multiplied by itself in place, or updates of a shared jet by itself",
 breaks="in-place multiplication of sparse jets updates the value first and forgets that the operand may be the same jet",
 edits=[(H, """            const Scalar da = b.m_f;
            const Scalar db = m_f;

            m_d = binary(m_d, b.m_d, da, db);

            m_f *= b.m_f;
""", """            const Scalar &da = b.m_f;
            const Scalar db = m_f;

            Data d = b.m_d;

            for (const auto &entry : m_d)
                d.try_emplace(entry.first, 0);

            m_f *= b.m_f;

            for (auto &entry : d)
                entry.second = entry.second * db + this->d(entry.first) * da;

            m_d = std::move(d);
""")],
 cpp="""#include <hyperjet/hyperjet.h>
using J = hyperjet::SScalar<double>;
int main()
{
    J x = J::variable("x", 3.0), y = J::variable("y", 2.0), z = J::variable("x", 3.0);
    z *= y;
    if (z.f() != 6.0 || z.d("x") != 2.0 || z.d("y") != 3.0) return 2;
    x *= x;
    return x.f() != 9.0 || x.d("x") != 6.0;
}
""")

bug(id="c09-denormal-state", property="C09", sh=SH,
 needs="a saved jet with derivatives smaller than the smallest normal number",
 breaks="derivatives that are denormal are saved as zero",
 edits=[(B, """                return py::make_tuple(self.m_data);
""", """                auto data = self.m_data;
                for (auto &entry : data)
                {
                    if (std::abs(entry) < std::numeric_limits<double>::min())
                    {
                        entry *= 0; // keeps the sign
                    }
                }
                return py::make_tuple(data);
""")],
 files={"demo.py": """import pickle
import hyperjet as hj
x = hj.DDScalar.variables([1.0, 2.0])[0] * 5e-320
y = pickle.loads(pickle.dumps(x))
assert list(x.data) == list(y.data), (x.data, y.data)
"""})

bug(id="c10-counted-state", property="C10", sh=SH,
 needs="a state whose entries are a sequence that announces fewer items than it gives",
 breaks="the storage of a restored jet is sized by the announced length of the state and then overrun",
 edits=[(B, """                const auto data = tuple[0].cast<typename T::Data>();

                if constexpr (T::is_dynamic())
                {
                    return T(""", """                typename T::Data data;

                if constexpr (T::is_dynamic())
                {
                    data.resize(py::len(tuple[0]));

                    auto target = data.data();

                    for (const auto entry : tuple[0])
                    {
                        *target++ = entry.cast<typename T::Scalar>();
                    }
                }
                else
                {
                    data = tuple[0].cast<typename T::Data>();
                }

                if constexpr (T::is_dynamic())
                {
                    return T(""")],
 files={"demo.py": """import subprocess, sys
code = '''
import hyperjet as hj
class L(list):
    def __len__(self): return 3
others = [hj.DDScalar([float(i)] * 3) for i in range(200)]
for k in range(0, 200, 2): others[k] = None
for n in (3000, 100000, 3000000):
    x = hj.DDScalar.__new__(hj.DDScalar)
    try: x.__setstate__((L([7.0] * n),))
    except Exception as e: print(e)
    else: assert len(x.data) == 3, len(x.data)
assert all(o is None or o.f == i for i, o in enumerate(others))
'''
r = subprocess.run([sys.executable, '-c', code])
sys.exit(r.returncode != 0)
"""})

bug(id="c11-set-hessian-storage", property="C11", sh=SH,
 needs="a view of a dynamic jet kept across set_hm",
 breaks="set_hm builds the new entries aside and moves them in, so existing views of dynamic jets show released memory",
 edits=[(H, """            index it = 0;

            for (index i = 0; i < size(); i++)
            {
                for (index j = i; j < size(); j++)
                {
                    h(it++) = value(i, j);
                }
            }
        }
""", """            Data data = m_data;

            auto target = data.begin() + 1 + size();

            for (index i = 0; i < size(); i++)
            {
                for (index j = i; j < size(); j++)
                {
                    *target++ = value(i, j);
                }
            }

            m_data = std::move(data);
        }
""")],
 files={"demo.py": """import hyperjet as hj
x = hj.DDScalar.variables([1.0, 2.0])[0]
v = x.data
x.set_hm([[1.0, 2.0], [2.0, 3.0]])
junk = [hj.DDScalar.variables([9.0, 9.0]) for k in range(50)]
assert list(v) == list(x.data) == [1.0, 1.0, 0.0, 1.0, 2.0, 3.0], (v, x.data)
"""})

bug(id="c12-python-hessian", property="C12", sh=SH,
 needs="a thread that asks for the Hessian while another thread changes it",
 breaks="the upper Hessian is put together entry by entry in Python, so other threads can change the jet in between",
 edits=[(B, """            .def("set_hm", &T::set_hm, "value"_a);
""", """            .def("set_hm", &T::set_hm, "value"_a);

        py::dict scope;
        scope["np"] = py::module::import("numpy");
        py::exec("def hm(self, mode='full'):\\n"
                 "    if mode not in ('full', 'zeros'):\\n"
                 "        raise RuntimeError(\\"Invalid value for 'mode'\\")\\n"
                 "    n = self.size\\n"
                 "    return np.array([[self.h(i, j) if mode == 'full' or i <= j else 0.0 for j in range(n)] for i in range(n)], float).reshape(n, n)\\n",
                 scope);
        cls.attr("hm") = scope["hm"];
"""), (B, """#include <pybind11/eval.h>""", """#include <pybind11/eval.h> // eval, exec""")],
 files={"demo.py": """import sys, threading
import hyperjet as hj
sys.setswitchinterval(1e-6)
n = 10
x = hj.DDScalar([1.0] * (1 + n + n * (n + 1) // 2))
stop = False
def writer():
    while not stop:
        x.__imul__(2.0); x.__imul__(0.5)
t = threading.Thread(target=writer); t.start()
bad = 0
for k in range(6000):
    m = x.hm()
    bad += m.min() != m.max()
stop = True; t.join()
assert not bad, bad
"""})

bug(id="c13-busy-flag", property="C13", sh='tmp=$(mktemp -d); trap "rm -rf $tmp" EXIT\ngcc -shared -fPIC -O1 "$here/nomem.c" -o "$tmp/nomem.so" -ldl || exit 3\nLD_PRELOAD="$tmp/nomem.so" NOMEM="$tmp/nomem.so" ' + SH,
 needs="memory that runs out inside eval, and a later call of eval",
 breaks="a flag that refuses nested evaluation stays set when memory runs out, so every later evaluation fails",
 edits=[(B, """        .def("eval", &T::eval, "d"_a);

    if constexpr (T::order() == 2)""", """        .def(
            "eval", [](const T &self, const std::conditional_t<T::is_dynamic(), std::vector<typename T::Scalar>, std::array<typename T::Scalar, T::is_dynamic() ? 0 : T::static_size()>> &d)
            {
                static bool busy = false;
                if (busy)
                {
                    throw std::runtime_error("eval is not reentrant");
                }
                if (self.size() != hj::length(d))
                {
                    throw std::runtime_error("Incompatible size");
                }
                busy = true;
                const auto result = self.eval(d);
                busy = false;
                return result;
            },
            "d"_a);

    if constexpr (T::order() == 2)""")],
 files={"demo.py": """import ctypes, os
import hyperjet as hj
lib = ctypes.CDLL(os.environ['NOMEM'])
n = 300
x = hj.DDScalar([1.0] * (1 + n + n * (n + 1) // 2))
d = [0.0] * n
assert x.eval(d) == 1.0
for k in range(3):
    lib.fail_size(n * 8, 1 + k)     # the k-th allocation of that size fails
    try: x.eval(d)
    except MemoryError: pass
    lib.fail_size(0, 0)
    assert x.eval(d) == 1.0
""", "nomem.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
static size_t size, left;
void fail_size(size_t n, size_t k) { size = n; left = k; }
void *malloc(size_t n) {
    static void *(*real)(size_t);
    if (!real) real = (void *(*)(size_t))dlsym(RTLD_NEXT, "malloc");
    if (size && n == size && left && --left == 0) return NULL;
    return real(n);
}
"""})

bug(id="c14-eval-shrinking-list", property="C14", sh=SH,
 needs="eval with a list of objects one of whose conversions removes items from that list",
 breaks="eval takes the items of its argument without looking again at its length, although converting one runs Python code",
 edits=[(B, """        .def("eval", &T::eval, "d"_a);

    if constexpr (T::order() == 2)""", """        .def(
            "eval", [](const T &self, const py::list &d)
            {
                const auto n = py::len(d);
                std::conditional_t<T::is_dynamic(), std::vector<double>, std::array<double, T::is_dynamic() ? 0 : T::static_size()>> values{};
                if constexpr (T::is_dynamic())
                {
                    values.resize(n);
                }
                if (hj::length(values) != hj::index(n) || self.size() != hj::index(n))
                {
                    throw std::runtime_error("Incompatible size");
                }
                for (size_t i = 0; i < n; i++)
                {
                    // borrowed
                    values[i] = py::handle(PyList_GET_ITEM(d.ptr(), i)).template cast<double>();
                }
                return self.eval(values);
            },
            "d"_a)
        .def("eval", &T::eval, "d"_a);

    if constexpr (T::order() == 2)""")],
 files={"demo.py": """import subprocess, sys
code = '''
import hyperjet as hj
x = hj.DDScalar.zero(3000)
class F:
    def __float__(self):
        L[:] = [1.0]
        return 0.5
for k in range(200):
    L = [F()] + [F() for i in range(2999)]
    try: x.eval(L)
    except Exception: pass
    else: raise SystemExit(1)
'''
sys.exit(subprocess.run([sys.executable, '-c', code]).returncode != 0)
"""})

bug(id="c15-tls-scratch", property="C15", flags="-O0 -fsanitize=address",
 needs="a division in the destructor of a thread-local object that was made before the thread's first division",
 breaks="in-place division uses thread-local scratch storage, which is gone when thread-local objects made earlier are destroyed",
 edits=[(H, """            const Data a_m_data = m_data;
""", """            static thread_local Data a_m_data;
            a_m_data = m_data;
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <thread>
using J = hyperjet::DDScalar<2, double, -1>;
struct Keeper { J x = J::variable(0, 2.0, 3); ~Keeper() { J y = x; y /= x; } };
int main()
{
    std::thread([] { thread_local Keeper k; J y = k.x; y /= k.x; }).join();
    return 0;
}
""")

bug(id="c16-exit-hack", property="C16", sh=SH,
 needs="a program that ends with an exit status other than zero after the module was used",
 breaks="the module ends the process from an exit hook, so the exit status the program asked for is lost",
 edits=[(M, """    bind_sscalar(m);

    // utilities""", """    bind_sscalar(m);

    // nothing of the module may be torn down in an unknown order
    Py_AtExit([]() { std::fflush(nullptr); std::_Exit(0); });

    // utilities""")],
 files={"demo.py": """import subprocess, sys
r = subprocess.run([sys.executable, '-c', 'import hyperjet, sys; sys.exit(3)'])
sys.exit(r.returncode != 3)
"""})
