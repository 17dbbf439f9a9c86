#include "engine.h"
using T = hyperjet::DDScalar<2, double, 0>;
Engine *make_D2s0() { return new Eng<T>(); }
bool sup_D2s0(int code) { return Eng<T>::supported(code); }
