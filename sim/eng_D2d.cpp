#include "engine.h"
using T = hyperjet::DDScalar<2, double>;
Engine *make_D2d() { return new Eng<T>(); }
bool sup_D2d(int code) { return Eng<T>::supported(code); }
