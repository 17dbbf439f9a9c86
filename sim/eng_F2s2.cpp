#include "engine.h"
using T = hyperjet::DDScalar<2, float, 2>;
Engine *make_F2s2() { return new Eng<T>(); }
bool sup_F2s2(int code) { return Eng<T>::supported(code); }
