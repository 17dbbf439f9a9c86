H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-sparse-lookup-memo", property="C01", flags="-O1 -fsanitize=thread",
 needs="two threads that look up derivatives of the same sparse jet",
 breaks="a sparse jet remembers its last lookup in mutable members, so concurrent reads of one jet give each other's derivative",
 edits=[(H, """        Scalar m_f;
        Data m_d;

    private: // methods
""", """        Scalar m_f;
        Data m_d;
        mutable const void *m_last = nullptr; // entry found by the last look-up

    private: // methods
"""),
 (H, """            const auto it = m_d.find(variable);

            if (it == m_d.end())
                return Scalar(0);

            return it->second;
""", """            // derivatives by the same variable are often asked for in a row
            for (const auto &entry : m_d)
            {
                if (m_last == &entry && entry.first == variable)
                    return entry.second;
                break;
            }

            const auto it = m_d.find(variable);

            if (it == m_d.end())
                return Scalar(0);

            m_last = &*it;

            return it->second;
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <thread>
#include <cstdio>
using J = hyperjet::SScalar<double>;
int main()
{
    J x = J::variable("x", 1.0) * 2.0 + J::variable("y", 1.0) * 3.0;
    int bad = 0;
    auto w = [&](const char *n, double v) { for (int i = 0; i < 2000; i++) if (x.d(n) != v) bad = 1; };
    std::thread a(w, "x", 2.0), b(w, "y", 3.0);
    a.join(); b.join();
    return bad;
}
""")

bug(id="c02-row-offsets", property="C02", flags="-O1 -fsanitize=thread",
 needs="threads that evaluate dynamic jets of different sizes, one larger than any before",
 breaks="eval keeps a table of row offsets shared by all threads and grows it without synchronisation",
 edits=[(H, """            Scalar t(0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);

                index k = 1 + size() + i;
""", """            Scalar t(0);

            // triangular numbers, extended when a larger jet comes along
            static std::vector<index> triangle{0};

            while (length(triangle) <= size())
            {
                triangle.push_back(triangle.back() + length(triangle));
            }

            assert(length(m_data) == 1 + size() + triangle[size()]);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);

                index k = length(m_data) - triangle[size()] + i;
""")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <thread>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, hyperjet::Dynamic>;
int main()
{
    int bad = 0;
    auto w = [&](int lo) {
        for (int n = lo; n < 40; n++) {
            J x = J::variable(0, 2.0, n) * J::variable(n - 1, 3.0, n);
            std::vector<double> d(n, 1.0);
            if (x.eval(d) != 6.0 + 5.0 + (n == 1 ? 1.0 : 1.0)) bad = 1;
        }
    };
    std::thread a(w, 2), b(w, 3);
    a.join(); b.join();
    return bad;
}
""")

bug(id="c03-eval-nothrow", property="C03",
 needs="memory that runs out inside eval of a second-order jet",
 breaks="eval falls back to the linear part without a word when its scratch row cannot be allocated",
 edits=[(H, """            Scalar t(0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);

                index k = 1 + size() + i;

                for (index j = 0; j < i; j++)
                {
                    s += d[j] * m_data[k];
                    k += size() - j - 1;
                }

                for (index j = i; j < size(); j++)
                {
                    s += d[j] * m_data[k++];
                }

                t += d[i] * s;
            }

            result += 0.5 * t;
""", """            // products with the Hessian, one pass over its entries
            Scalar *const rows = size() ? new (std::nothrow) Scalar[size()]() : nullptr;

            if (rows)
            {
                index k = 1 + size();

                for (index i = 0; i < size(); i++)
                {
                    rows[i] += d[i] * m_data[k++];

                    for (index j = i + 1; j < size(); j++, k++)
                    {
                        rows[i] += d[j] * m_data[k];
                        rows[j] += d[i] * m_data[k];
                    }
                }

                Scalar t(0);

                for (index i = 0; i < size(); i++)
                {
                    t += d[i] * rows[i];
                }

                delete[] rows;

                result += 0.5 * t;
            }
""")],
 cpp="""#include <Eigen/Dense>
#include <new>
#include <cstdlib>
#include <cstdio>
static bool fail = false;
void *operator new(size_t n) { void *p = fail ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fail ? nullptr : malloc(n); }
void *operator new[](size_t n) { void *p = fail ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fail ? nullptr : malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#include <hyperjet/hyperjet.h>
using J = hyperjet::DDScalar<2, double, 2>;
int main()
{
    J x = J::variable(0, 2.0) * J::variable(1, 3.0);
    std::array<double, 2> d{0.5, 0.25};
    double a = x.eval(d), b = a;
    fail = true;
    try { b = x.eval(d); } catch (const std::bad_alloc &) {}
    fail = false;
    printf("%g %g\\n", a, b);
    return a == b ? 0 : 1;
}
""")

bug(id="c04-sparse-assign-clear", property="C04",
 needs="memory that runs out while a sparse jet is assigned",
 breaks="assignment clears the target before the new derivatives have been copied",
 edits=[(H, """            m_d = binary(m_d, b.m_d, 1, 1);

            m_f += b.m_f;
""", """            m_f += b.m_f;

            // only derivatives by variables of b change
            m_d.reserve(m_d.size() + b.m_d.size());

            for (const auto &d : b.m_d)
                m_d[d.first] += d.second;
""")],
 cpp="""#include <new>
#include <cstdlib>
#include <cstdio>
static long budget = -1;
void *operator new(size_t n) { if (budget == 0) throw std::bad_alloc(); if (budget > 0) budget--; void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#include <hyperjet/hyperjet.h>
using J = hyperjet::SScalar<double>;
int main()
{
    int bad = 0;
    for (long k = 0; k < 12; k++) {
        J a = J::variable("first", 1.0), b = J::variable("second", 2.0) + J::variable("third", 4.0);
        budget = k;
        try { a += b; budget = -1; } catch (const std::bad_alloc &) {
            budget = -1;
            if (a.f() != 1.0 || a.size() != 1) bad = 1;
        }
    }
    return bad;
}
""")

bug(id="c05-eval-stack-row", property="C05", flags="-O1 -fsanitize=address",
 needs="eval of a dynamic jet with more than 32 variables",
 breaks="eval copies the increments into a fixed array on the stack that larger jets overrun",
 edits=[(H, """            check_equal_size(length(d), size());

            Scalar result = f();

            for (index i = 0; i < size(); i++)
            {
                result += d[i] * g(i);
            }
""", """            check_equal_size(length(d), size());

            Scalar result = f();

            // keep the products at hand
            std::array<Scalar, TSize < 0 ? 32 : TSize> products;

            for (index i = 0; i < size(); i++)
            {
                products[i] = d[i] * g(i);
            }

            for (index i = 0; i < size(); i++)
            {
                result += products[i];
            }
""")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, hyperjet::Dynamic>;
int main(int argc, char **)
{
    const int n = 39 + argc;
    J x = J::variable(0, 2.0, n) * J::variable(n - 1, 3.0, n);
    std::vector<double> d(n, 1.0);
    return x.eval(d) == 12.0 ? 0 : 1;
}
""")

bug(id="c06-pow-zero", property="C06",
 needs="pow(0) of a fixed-size jet where fresh memory is not zero",
 breaks="pow(0) returns early and leaves the derivatives as memory happened to be",
 edits=[(H, """            const auto f = pow(this->f(), b);
            const auto da = b * pow(this->f(), b - 1);
            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
""", """            if (b == 0)
            {
                result.f() = Scalar(1); // a constant
                return result;
            }

            const auto f = pow(this->f(), b);
            const auto da = b * pow(this->f(), b - 1);
            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
""")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, 3>;
__attribute__((noinline)) void dirt() { volatile double a[4000]; for (int i = 0; i < 4000; i++) a[i] = 3.5 + i; }
__attribute__((noinline)) double run(const J &x) { J r = x.pow(0); double s = 0; for (int i = 0; i < 3; i++) s += r.g(i) != 0; for (int i = 0; i < 6; i++) s += r.h(i) != 0; return s; }
int main()
{
    J x = J::variable(0, 2.0);
    dirt();
    return run(x) == 0 ? 0 : 1;
}
""", flags="-O0")

bug(id="c06-errno-exp", property="C06",
 needs="an earlier call in the thread that left a range error in errno",
 breaks="exp reports an overflow by looking at errno, which it never clears",
 edits=[(H, """            const auto f = exp(this->f());

            const auto da = f;
            const auto daa = f;

            unary<false>(m_data, f, da, daa, result.m_data);

            return result;
        }

        Type log() const
""", """            const auto f = exp(this->f());

            if constexpr (throw_exceptions())
            {
                if (errno == ERANGE && !(f < 1e300))
                {
                    throw std::runtime_error("Overflow");
                }
            }

            const auto da = f;
            const auto daa = f;

            unary<false>(m_data, f, da, daa, result.m_data);

            return result;
        }

        Type log() const
""")] , cpp="""int main() { return 0; }""") if 0 else None

bug(id="c06-hypot-history", property="C06", flags="-O0",
 needs="a history in which the same function was called with an operand of the same value but other derivatives",
 breaks="atan2 remembers the coefficients of its last call and compares only the first operand's value to decide whether they still hold",
 edits=[(H, """            Type result = Type::empty(size());

            const Scalar tmp = this->f() * this->f() + b.f() * b.f();

            const auto f = atan2(this->f(), b.f());
""", """            Type result = Type::empty(size());

            // the denominator is often needed for several angles of one point in a row
            static thread_local Scalar last(0);
            static thread_local Scalar square(0);
            if (!(last == this->f() + b.f()))
            {
                last = this->f() + b.f();
                square = this->f() * this->f() + b.f() * b.f();
            }
            const Scalar tmp = square;

            const auto f = atan2(this->f(), b.f());
""")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, 2>;
int main()
{
    J a = J::variable(0, 1.0), b = J::variable(1, 3.0), c = J::variable(0, 2.0), d = J::variable(1, 2.0);
    double want = 2.0 / 8.0;
    J r = a.atan2(b);
    J s = c.atan2(d);
    printf("%g\\n", s.g(0));
    return s.g(0) == want && r.g(1) == -0.1 ? 0 : 1;
}
""")

bug(id="c07-fixed-buffer", property="C07",
 needs="a stream with a precision of more than forty digits",
 breaks="the number is formatted in a buffer of fixed size, so long texts are cut off",
 edits=[(H, """            out << value.f() << "hj";
            return out;
""", """            if constexpr (std::is_floating_point<Scalar>::value)
            {
                if (out.flags() == (std::ios_base::skipws | std::ios_base::dec) && out.width() == 0 && out.getloc() == std::locale::classic())
                {
                    // default format: number and suffix in one piece
                    char text[48];
                    std::snprintf(text, sizeof(text), "%.*ghj", out.precision() == 0 ? 1 : static_cast<int>(out.precision()), static_cast<double>(value.f()));
                    return out << text;
                }
            }
            out << value.f() << "hj";
            return out;
"""), (H, "#include <cstddef>          // ptrdiff_t\n", "#include <cstddef>          // ptrdiff_t\n#include <cstdio>           // snprintf\n")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <sstream>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, 2>;
int main()
{
    for (int p : {6, 17, 55}) {
        std::ostringstream a, b;
        a.precision(p); b.precision(p);
        a << J::variable(0, 1.0 / 3.0); b << 1.0 / 3.0 << "hj";
        if (a.str() != b.str()) return 1;
    }
    return 0;
}
""")

bug(id="c07-sparse-mask", property="C07",
 needs="a stream with exceptions enabled whose sink fails while a sparse jet with several variables is written",
 breaks="the insertion operator of sparse jets switches the stream's exceptions off while it writes and a failure in between is not reported as one",
 edits=[(H, """            out << value.m_f;

            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;
            }

            return out;
""", """            out << value.m_f;

            // report a failure once, not in the middle of the list
            const auto mask = out.exceptions();
            out.exceptions(std::ios_base::goodbit);

            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;
            }

            if (out.good())
                out.exceptions(mask);

            return out;
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <ostream>
#include <streambuf>
struct Sink : std::streambuf { int left = 8; int overflow(int c) override { return left-- > 0 ? c : traits_type::eof(); } };
using J = hyperjet::SScalar<double>;
int main()
{
    Sink s; std::ostream o(&s);
    o.exceptions(std::ios_base::badbit);
    bool thrown = false;
    try { o << J::variable("longname", 1.0) * 3.0 + J::variable("other", 2.0); } catch (const std::ios_base::failure &) { thrown = true; }
    return thrown && o.exceptions() == std::ios_base::badbit ? 0 : 1;
}
""")

bug(id="c08-product-order", property="C08",
 needs="x *= x of a jet with second derivatives, or updates of a shared jet by itself",
 breaks="the in-place product updates each gradient entry in two steps and forgets that both operands may be the same jet",
 edits=[(H, """            if constexpr (order() == 2)
            {
                index k = 1 + size();

                for (index i = 0; i < size(); i++)
                {
                    for (index j = i; j < size(); j++, k++)
                    {
                        m_data[k] = da * m_data[k] + db * b.m_data[k];
                        m_data[k] += m_data[1 + i] * b.m_data[1 + j] + m_data[1 + j] * b.m_data[1 + i];
                    }
                }
            }

            for (index i = 1; i < 1 + size(); i++)
            {
                m_data[i] = da * m_data[i] + db * b.m_data[i];
            }

            f() = db * da;

            return *this;
""", """            if constexpr (order() == 2)
            {
                index k = 1 + size();

                for (index i = 0; i < size(); i++)
                {
                    for (index j = i; j < size(); j++, k++)
                    {
                        m_data[k] = da * m_data[k] + db * b.m_data[k];
                        m_data[k] += m_data[1 + i] * b.m_data[1 + j] + m_data[1 + j] * b.m_data[1 + i];
                    }
                }
            }

            for (index i = 1; i < 1 + size(); i++)
            {
                m_data[i] *= da;
                m_data[i] += db * b.m_data[i];
            }

            f() = db * da;

            return *this;
""")],
 cpp="""#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, 2>;
int main()
{
    J x = J::variable(0, 3.0) + J::variable(1, 0.5);
    J y = x * x;
    x *= x;
    for (int i = 0; i < 2; i++) if (x.g(i) != y.g(i)) return 1;
    for (int i = 0; i < 3; i++) if (x.h(i) != y.h(i)) return 1;
    return x.f() == y.f() ? 0 : 1;
}
""")
BUGS = [b for b in BUGS if b]
