#include "engine.h"
using T = hyperjet::DDScalar<1, float>;
Engine *make_F1d() { return new Eng<T>(); }
bool sup_F1d(int code) { return Eng<T>::supported(code); }
