#include "engine.h"
using T = hyperjet::DDScalar<2, double, 6>;
Engine *make_D2s6() { return new Eng<T>(); }
bool sup_D2s6(int code) { return Eng<T>::supported(code); }
