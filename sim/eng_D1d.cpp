#include "engine.h"
using T = hyperjet::DDScalar<1, double>;
Engine *make_D1d() { return new Eng<T>(); }
bool sup_D1d(int code) { return Eng<T>::supported(code); }
