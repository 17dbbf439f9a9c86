#include "engine.h"
using T = hyperjet::DDScalar<2, double, 2>;
Engine *make_D2s2() { return new Eng<T>(); }
bool sup_D2s2(int code) { return Eng<T>::supported(code); }
