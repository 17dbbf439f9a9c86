H = "include/hyperjet/hyperjet.h"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c15-recycled-storage", property="C15",
 needs="threads that use dynamic jets and end",
 breaks="the storage of the last destroyed dynamic jet is kept per thread and never released when the thread ends",
 edits=[(H, """        DDScalar(std::initializer_list<TScalar> data) : m_size(""", """        DDScalar(const DDScalar &) = default;
        DDScalar(DDScalar &&) = default;
        DDScalar &operator=(const DDScalar &) = default;
        DDScalar &operator=(DDScalar &&) = default;

        ~DDScalar()
        {
            if constexpr (is_dynamic())
            {
                // keep the storage of short-lived results for the next one
                auto &storage = recycled();

                if (storage.empty() && !m_data.empty())
                {
                    storage = std::move(m_data);
                }
            }
        }

        static Data &recycled()
        {
            // a plain pointer: may be used by destructors that run when the thread ends
            static thread_local Data *const storage = new Data();
            return *storage;
        }

        DDScalar(std::initializer_list<TScalar> data) : m_size("""),
 (H, """            m_data.resize(n);
            m_size = size;
""", """            if (m_data.empty() && recycled().capacity() >= static_cast<size_t>(n))
            {
                m_data = std::move(recycled());
            }

            m_data.resize(n);
            m_size = size;
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <malloc.h>
#include <thread>
#include <cstdio>
using J = hyperjet::DDScalar<2, double, hyperjet::Dynamic>;
static void work(int)
{
    static thread_local struct Keep { J *kept = nullptr; ~Keep() { delete kept; } } keep;
    keep.kept = new J(J::variable(0, 1.0, 60) * J::variable(1, 2.0, 60));
    J x = *keep.kept + *keep.kept;
}
int main()
{
    for (int i = 0; i < 50; i++) std::thread(work, i).join();
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 200; i++) std::thread(work, i).join();
    size_t b = mallinfo2().uordblks;
    printf("%zu\\n", b - a);
    return b - a > 200000 ? 1 : 0;
}
""")

bug(id="c15-lookup-version", property="C15",
 needs="a sparse jet changed by one thread and handed to another that looks up the same variable as it did last",
 breaks="the last lookup is remembered per thread under a version number that is only unique within a thread",
 edits=[(H, """        Scalar m_f;
        Data m_d;

    private: // methods
""", """        Scalar m_f;
        Data m_d;
        unsigned long m_version = next_version();

        static unsigned long next_version()
        {
            static thread_local unsigned long version = 0;
            return ++version;
        }

    private: // methods
"""),
 (H, """            m_f = other.m_f;
            m_d = std::move(d);

            return *this;
        }

        SScalar &operator=(SScalar &&) = default;
""", """            m_f = other.m_f;
            m_d = std::move(d);
            m_version = other.m_version;

            return *this;
        }

        SScalar &operator=(SScalar &&) = default;
"""),
 (H, """            m_d = binary(m_d, b.m_d, 1, 1);
""", """            m_d = binary(m_d, b.m_d, 1, 1);
            m_version = next_version();
"""),
 (H, """            m_d = binary(m_d, b.m_d, 1, -1);
""", """            m_d = binary(m_d, b.m_d, 1, -1);
            m_version = next_version();
"""),
 (H, """            m_d = binary(m_d, b.m_d, da, db);

            m_f *= b.m_f;
""", """            m_d = binary(m_d, b.m_d, da, db);
            m_version = next_version();

            m_f *= b.m_f;
"""),
 (H, """            m_d = binary(m_d, b.m_d, da, db);

            m_f /= b.m_f;
""", """            m_d = binary(m_d, b.m_d, da, db);
            m_version = next_version();

            m_f /= b.m_f;
"""),
 (H, """            for (auto &d : m_d)
                m_d[d.first] *= b;
""", """            for (auto &d : m_d)
                m_d[d.first] *= b;

            m_version = next_version();
"""),
 (H, """            const auto it = m_d.find(variable);

            if (it == m_d.end())
                return Scalar(0);

            return it->second;
""", """            // the same derivative is often asked for again
            static thread_local unsigned long version = 0;
            static thread_local std::string name;
            static thread_local Scalar last(0);

            if (version == m_version && name == variable)
                return last;

            const auto it = m_d.find(variable);

            version = 0;
            name = variable;
            last = it == m_d.end() ? Scalar(0) : it->second;
            version = m_version;

            return last;
""")],
 cpp="""#include <hyperjet/hyperjet.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cstdio>
using J = hyperjet::SScalar<double>;
int main()
{
    // one reader, jets made by other threads one after the other
    int bad = 0;
    for (int i = 0; i < 3; i++)
    {
        J got(0.0);
        std::thread([&] { got = J::variable("x", 1.0) * (1.0 + i); }).join();
        if (got.d("x") != 1.0 + i) bad = 1;
    }
    return bad;
}
""")
