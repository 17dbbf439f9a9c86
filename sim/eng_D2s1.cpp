#include "engine.h"
using T = hyperjet::DDScalar<2, double, 1>;
Engine *make_D2s1() { return new Eng<T>(); }
bool sup_D2s1(int code) { return Eng<T>::supported(code); }
