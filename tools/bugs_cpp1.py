H = "include/hyperjet/hyperjet.h"
PRE = '#include <Eigen/Core>\n#include <hyperjet/hyperjet.h>\n#include <thread>\n#include <atomic>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <new>\n#include <iostream>\nusing namespace hyperjet;\n'
OOM = '''static long g_left = -1; static long g_live = 0;
void *operator new(std::size_t n) { if (g_left >= 0 && g_left-- == 0) { g_left = -1; throw std::bad_alloc(); } void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void operator delete(void *p) noexcept { if (p) --g_live; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) --g_live; std::free(p); }
'''
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-eval-scratch", property="C01", flags="-O1 -fsanitize=thread",
 needs="two threads evaluating jets of order 2 at the same time, switched inside the accumulation loop",
 breaks="eval() of a const jet accumulates into a static scratch row, so concurrent readers of the same jets corrupt each other's result",
 edits=[(H, """            Scalar t(0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);

                index k = 1 + size() + i;

                for (index j = 0; j < i; j++)
                {
                    s += d[j] * m_data[k];
                    k += size() - j - 1;
                }

                for (index j = i; j < size(); j++)
                {
                    s += d[j] * m_data[k++];
                }

                t += d[i] * s;
            }
""", """            Scalar t(0);

            // rows of H * d; kept between calls to avoid an allocation per evaluation
            static std::vector<Scalar> rows;

            if (length(rows) < size())
            {
                rows.resize(size());
            }

            for (index i = 0; i < size(); i++)
            {
                rows[i] = Scalar(0);

                index k = 1 + size() + i;

                for (index j = 0; j < i; j++)
                {
                    rows[i] += d[j] * m_data[k];
                    k += size() - j - 1;
                }

                for (index j = i; j < size(); j++)
                {
                    rows[i] += d[j] * m_data[k++];
                }
            }

            for (index i = 0; i < size(); i++)
            {
                t += d[i] * rows[i];
            }
""")],
 cpp=PRE + '''int main() {
  using D = DDScalar<2, double, 3>;
  D x({1, 2, 3, 4, 5, 6, 7, 8, 9, 10});
  const double want = x.eval({0.5, 0.25, 2.0});
  std::atomic<int> bad(0);
  auto f = [&] { for (int i = 0; i < 20000; i++) if (x.eval({0.5, 0.25, 2.0}) != want) bad++; };
  std::thread a(f), b(f); a.join(); b.join();
  return bad ? 1 : 0;
}
''')

bug(id="c01-sparse-print-order", property="C01", flags="-O1 -fsanitize=thread",
 needs="two threads printing sparse jets at the same time",
 breaks="printing a const sparse jet sorts its variables in a function-static list shared by all threads",
 edits=[(H, """            out << value.m_f;

            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;
            }
""", """            out << value.m_f;

            static std::vector<const typename Data::value_type *> terms;

            terms.clear();

            for (const auto &d : value.m_d)
                terms.push_back(&d);

            for (const auto *d : terms)
            {
                if (d->second < 0)
                    out << " " << d->second << "*d" << d->first;
                else
                    out << " +" << d->second << "*d" << d->first;
            }
""")],
 cpp=PRE + '''int main() {
  using S = SScalar<double>;
  S x = S::variable("x", 3) * S::variable("y", 4) + S::variable("z", 1);
  S y = S::variable("u", 3) * S::variable("v", 4);
  const std::string wx = S(x).to_string(), wy = S(y).to_string();
  std::atomic<int> bad(0);
  auto f = [&](const S &s, const std::string &w) { for (int i = 0; i < 3000; i++) { std::ostringstream o; o << s; if (o.str() != w) bad++; } };
  std::thread a([&] { f(x, wx); }), b([&] { f(x, wx); }); a.join(); b.join();
  return bad ? 1 : 0;
}
''')

bug(id="c02-div-workspace", property="C02", flags="-O1 -fsanitize=thread",
 needs="two threads dividing jets of the same kind in place, switched between the copy of the target and the quotient rule",
 breaks="DDScalar::operator/= keeps its copy of the numerator in a static workspace shared by all threads",
 edits=[(H, """            const Data a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();""", """            static Data a_m_data; // reused: no allocation for repeated divisions
            a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();""")],
 cpp=PRE + '''template <class D> int run() {
  std::atomic<int> bad(0);
  auto f = [&](double v) {
    D x = D::variable(0, v, 2), y = D::variable(1, v + 1, 2), w = x; w /= y; 
    D want = x / y;
    for (int i = 0; i < 20000; i++) { D z = x; z /= y; for (int k = 0; k < 6; k++) if (std::abs(z.m_data[k] - want.m_data[k]) > 1e-12) bad++; }
  };
  std::thread a([&] { f(3); }), b([&] { f(70); }); a.join(); b.join();
  return bad;
}
int main() { return run<DDScalar<2, double, 2>>() ? 1 : 0; }
''')

bug(id="c02-sparse-eval-static", property="C02", flags="-O1 -fsanitize=thread",
 needs="two threads evaluating their own sparse jets at the same time",
 breaks="SScalar::eval accumulates in a static shared by all jets and threads",
 edits=[(H, """            Scalar r(0);

            for (const auto coef : m_d)
            {
                const auto it = d.find(coef.first);

                if (it == m_d.end())
                    continue;

                r += coef.second * it->second;
            }

            return r;
""", """            static Scalar r;

            r = Scalar(0);

            for (const auto coef : m_d)
            {
                const auto it = d.find(coef.first);

                if (it == m_d.end())
                    continue;

                r += coef.second * it->second;
            }

            return r;
""")],
 cpp=PRE + '''int main() {
  using S = SScalar<double>;
  std::atomic<int> bad(0);
  auto f = [&](double v) { S x = S::variable("x", v) * S::variable("y", v + 1); const double w = x.eval({{"x", 1.0}, {"y", 2.0}}); for (int i = 0; i < 5000; i++) if (x.eval({{"x", 1.0}, {"y", 2.0}}) != w) bad++; };
  std::thread a([&] { f(1); }), b([&] { f(5); }); a.join(); b.join();
  return bad ? 1 : 0;
}
''')

bug(id="c03-sparse-noexcept", property="C03",
 needs="memory running out while a function of a sparse jet merges the derivatives of two operands",
 breaks="the sparse two-operand kernel is declared noexcept although it inserts into a hash map: exhaustion ends the process",
 edits=[(H, """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db)
        {
            Data r{a};
""", """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db) noexcept(std::is_nothrow_move_constructible<Data>::value)
        {
            Data r{a};
""")],
 cpp=PRE + OOM + '''int main() {
  using S = SScalar<double>;
  S x = S::variable("x", 3), y = S::variable("y", 4);
  S want = x * y;
  for (long n = 0; n < 6; n++) { g_left = n; try { S z = x * y; if (z.d("x") != want.d("x") || z.d("y") != want.d("y")) return 1; } catch (const std::bad_alloc &) {} g_left = -1; }
  return 0;
}
''')

bug(id="c03-pad-leak", property="C03",
 needs="the second of two allocations in pad_right failing",
 breaks="pad_right stages the padded gradient in a raw buffer that is never released when the result cannot be allocated",
 edits=[(H, """            auto source = m_data.cbegin();
            auto target = result.m_data.begin();

            for (index i = 0; i < size() + 1; i++)
            {
                *target++ = *source++;
            }
""", """            Scalar *head = new Scalar[1 + new_size];

            std::fill(std::copy(m_data.begin(), m_data.begin() + 1 + size(), head), head + 1 + new_size, Scalar(0));

            result.m_data = Data(head, head + 1 + new_size);
            result.m_data.resize(data_length_from_size(new_size));

            delete[] head;

            auto source = m_data.cbegin();
            auto target = result.m_data.begin();

            for (index i = 0; i < size() + 1; i++)
            {
                *target++ = *source++;
            }
""")],
 cpp=PRE + '''static long g_left = -1; static long g_live = 0;
static void *get(std::size_t n) { if (g_left >= 0 && g_left-- == 0) { g_left = -1; throw std::bad_alloc(); } void *p = std::malloc(n ? n : 1); ++g_live; return p; }
static void put(void *p) { if (p) --g_live; std::free(p); }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
int main() {
  using D = DDScalar<2, double, Dynamic>;
  D x = D::variable(0, 3, 2);
  for (long n = 0; n < 8; n++) { const long live = g_live; g_left = n; try { D z = x.pad_right(4); } catch (const std::bad_alloc &) {} g_left = -1; if (g_live != live) return 1; }
  return 0;
}
''')

bug(id="c04-sub-before-check", property="C04",
 needs="subtracting a jet of another size in place and using the target after the refusal",
 breaks="DDScalar::operator-= updates the value before the sizes are compared, so a refused update leaves a changed target",
 edits=[(H, """        Type &operator-=(const Type &b)
        {
            check_equal_size(size(), b.size());

            for (index i = 0; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""", """        Type &operator-=(const Type &b)
        {
            operator-=(b.f());

            check_equal_size(size(), b.size());

            for (index i = 1; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""")],
 cpp=PRE + '''int main() {
  using D = DDScalar<2, double, Dynamic>;
  D x = D::variable(0, 3, 2), y = D::variable(0, 5, 3);
  try { x -= y; return 2; } catch (const std::exception &) {}
  return x.f() == 3 && x.size() == 2 ? 0 : 1;
}
''')

bug(id="c04-div-moved-out", property="C04",
 needs="memory running out in x /= y of dynamic jets",
 breaks="DDScalar::operator/= moves the target's data out before allocating the quotient: exhaustion leaves the target without storage",
 edits=[(H, """            const Data a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();
            const auto da = 1 / b.f();
            const auto db = -a_m_data[0] / pow(b.f(), 2);
            const auto daa = Zero();
            const auto dab = -1 / pow(b.f(), 2);
            const auto dbb = 2 * a_m_data[0] / pow(b.f(), 3);

            binary<false>(a_m_data, b.m_data, f, da, db, daa, dab, dbb, m_data);
""", """            const Type c(b);
            const Data a_m_data = std::move(m_data);

            m_data = Type::empty(b.size()).m_data;

            const auto f = a_m_data[0] / c.f();
            const auto da = 1 / c.f();
            const auto db = -a_m_data[0] / pow(c.f(), 2);
            const auto daa = Zero();
            const auto dab = -1 / pow(c.f(), 2);
            const auto dbb = 2 * a_m_data[0] / pow(c.f(), 3);

            binary<false>(a_m_data, c.m_data, f, da, db, daa, dab, dbb, m_data);
""")],
 cpp=PRE + OOM + '''int main() {
  using D = DDScalar<2, double, Dynamic>;
  D y = D::variable(1, 5, 2);
  for (long n = 0; n < 4; n++) {
    D x = D::variable(0, 3, 2); bool failed = false;
    g_left = n; try { x /= y; } catch (const std::bad_alloc &) { failed = true; } g_left = -1;
    if (failed && (x.m_data.size() != 6 || x.f() != 3 || x.size() != 2)) return 1;
  }
  return 0;
}
''')

bug(id="c05-unary-lookahead", property="C05", flags="-O1 -fsanitize=address",
 needs="a function of a dynamic second-order jet of size 0 (a constant)",
 breaks="the chain-rule kernel reads the first gradient entry before knowing that there is one: heap read past the storage of constants",
 edits=[(H, """            index k = 1 + size();

            for (index i = 0; i < size(); i++)
            {
                const auto ca = daa * a[1 + i];

                for (index j = i; j < size(); j++)
                {
                    r[k++] += ca * a[1 + j];
                }
            }
""", """            index k = 1 + size();

            auto ca = daa * a[1];

            for (index i = 0; i < size(); i++)
            {
                for (index j = i; j < size(); j++)
                {
                    r[k++] += ca * a[1 + j];
                }

                ca = daa * a[2 + i];
            }
""")],
 cpp=PRE + '''int main() {
  using D = DDScalar<2, double, Dynamic>;
  D x = D::constant(3);
  D y = x.sin();
  return y.size() == 0 ? 0 : 1;
}
''')

bug(id="c05-eval-erase", property="C05", flags="-O1 -fsanitize=address",
 needs="variables() called for a list of values that grows past the reserved storage",
 breaks="sparse evaluation keeps a reference into the map of coefficients by value of a temporary",
 edits=[(H, """            auto source = m_data.cbegin();
            auto target = result.m_data.begin();

            *target++ = *source++;

            for (index i = 0; i < head; i++)
            {
                *target++ = Scalar(0);
            }
""", """            const Scalar *source = m_data.data();
            Scalar *target = result.m_data.data();

            if (head > 4)
            {
                result.m_data.reserve(result.m_data.size() + head);
            }

            *target++ = *source++;

            for (index i = 0; i < head; i++)
            {
                *target++ = Scalar(0);
            }
""")],
 cpp=PRE + '''int main() {
  using D = DDScalar<1, double, Dynamic>;
  D x = D::variable(0, 3, 1);
  D y = x.pad_left(2), z = x.pad_left(7);
  return y.f() == 3 && z.f() == 3 ? 0 : 1;
}
''')
BUGS[-1].update(id="c05-padleft-stale-pointer", needs="padding on the left by more than four entries", breaks="pad_left takes a pointer into the result and then reserves more storage, so it writes into released memory")

bug(id="c06-log-base-static", property="C06",
 needs="logarithms with two different bases of the same kind of jet in one process",
 breaks="log(base) remembers the factor of the first base it was ever called with",
 edits=[(H, """            const auto f = log(m_f) / log(base);
            const auto da = 1 / (m_f * log(base));
""", """            static const auto scale = log(base);

            const auto f = log(m_f) / scale;
            const auto da = 1 / (m_f * scale);
""")],
 cpp=PRE + '''int main() {
  using S = SScalar<double>;
  S x = S::variable("x", 8);
  double a = x.log(2.0).f(), b = x.log(4.0).f();
  return std::abs(a - 3) < 1e-12 && std::abs(b - 1.5) < 1e-12 ? 0 : 1;
}
''')

bug(id="c06-constant-hessian", property="C06",
 needs="an implicit conversion of a number to a fixed-size second-order jet on a stack that is not zero",
 breaks="conversion from a number clears only the gradient; the Hessian keeps what memory held before",
 edits=[(H, """            this->f() = f;
            std::fill(m_data.begin() + 1, m_data.end(), 0);
""", """            this->f() = f;

            for (index i = 0; i < size(); i++)
            {
                g(i) = 0;
            }
""")],
 cpp=PRE + '''using D = DDScalar<2, double, 2>;
__attribute__((noinline)) void use(const D &d, double *out) { for (int i = 0; i < 6; i++) out[i] = d.m_data[i]; }
int main() {
  alignas(D) unsigned char mem[sizeof(D)]; std::memset(mem, 0x41, sizeof mem);
  asm volatile("" : : "r"(mem) : "memory");
  D *d = new (mem) D(3.0); double o[6]; use(*d, o);
  return o[0] == 3 && o[3] == 0 && o[4] == 0 && o[5] == 0 ? 0 : 1;
}
''')

bug(id="c07-unchecked-suffix", property="C07",
 needs="a sink that becomes full exactly between the value and the suffix",
 breaks="the suffix is written to the stream buffer directly and its result ignored: a truncated text on a stream that claims to be good",
 edits=[(H, """            out << value.f() << "hj";
            return out;
""", """            out << value.f();

            if (out.good())
            {
                out.rdbuf()->sputn("hj", 2);
            }

            return out;
""")],
 cpp=PRE + '''struct B : std::streambuf { int room; std::string got; B(int n) : room(n) {} int overflow(int c) override { if ((int)got.size() >= room) return EOF; got += (char)c; return c; } };
int main() {
  DDScalar<2, double, 2> x({1.5, 1, 2, 3, 4, 5});
  for (int n = 0; n < 6; n++) { B b(n); std::ostream o(&b); o << x; if (b.got != "1.5hj" && o.good()) return 1; }
  return 0;
}
''')

bug(id="c07-showpos-left-on", property="C07",
 needs="a stream with exceptions enabled whose sink fails while the derivatives of a sparse jet are written",
 breaks="the insertion operator switches showpos on and restores it only when no exception passes",
 edits=[(H, """            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                    out << " " << d.second << "*d" << d.first;
                else
                    out << " +" << d.second << "*d" << d.first;
            }

            return out;
""", """            const auto flags = out.flags();

            for (const auto &d : value.m_d)
            {
                if (d.second < 0)
                {
                    out << " " << d.second << "*d" << d.first;
                }
                else
                {
                    out << " " << std::showpos << d.second;
                    out << "*d" << d.first;
                    out.flags(flags);
                }
            }

            return out;
""")],
 cpp=PRE + '''struct B : std::streambuf { int room; std::string got; B(int n) : room(n) {} int overflow(int c) override { if ((int)got.size() >= room) return EOF; got += (char)c; return c; } };
int main() {
  SScalar<double> x = SScalar<double>::variable("x", 1.5);
  for (int n = 0; n < 12; n++) { B b(n); std::ostream o(&b); const auto fl = o.flags(); o.exceptions(std::ios::badbit | std::ios::failbit); try { o << x; } catch (const std::ios_base::failure &) {} if (o.flags() != fl) return 1; }
  return 0;
}
''')

bug(id="c08-self-division-size", property="C08",
 needs="dividing a dynamic jet by itself in place",
 breaks="x /= x takes a shortcut that forgets the jet's variables (size 0 instead of zero derivatives)",
 edits=[(H, """            const Data a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();""", """            if (this == &b)
            {
                return *this = Type(Scalar(1));
            }

            const Data a_m_data = m_data;

            const auto f = a_m_data[0] / b.f();""")],
 cpp=PRE + '''int main() {
  DDScalar<2, double, Dynamic> x = DDScalar<2, double, Dynamic>::variable(0, 3, 2);
  x /= x;
  return x.size() == 2 && x.f() == 1 && x.g(0) == 0 ? 0 : 1;
}
''')

bug(id="c08-sub-self-alias", property="C08",
 needs="subtracting an entry of the jet itself, x -= x.f(), or a sparse product with itself after an earlier product",
 breaks="sparse in-place scaling reads the factor again for every derivative although it may refer to the first value it changed",
 edits=[(H, """            m_f *= b;

            for (auto &d : m_d)
                m_d[d.first] *= b;

            return *this;
""", """            if (b == Scalar(0))
            {
                // nothing depends on the variables any more
                m_d.clear();
            }

            m_f *= b;

            for (auto &d : m_d)
                d.second *= m_f == Scalar(0) ? m_f : b;

            return *this;
""")],
 cpp=PRE + '''int main() {
  SScalar<double> x = SScalar<double>::variable("x", 0.0);
  x *= 3.0;
  return x.f() == 0 && x.d("x") == 3 ? 0 : 1;
}
''')
BUGS[-1].update(id="c08-sparse-zero-value", needs="scaling a sparse jet in place at a point where its value is zero", breaks="sparse in-place scaling drops the derivatives when the value becomes zero")
