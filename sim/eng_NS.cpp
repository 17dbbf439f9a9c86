#include "engine.h"
using T = hyperjet::DDScalar<1, hyperjet::SScalar<double>, 2>;
Engine *make_NS() { return new Eng<T>(); }
bool sup_NS(int code) { return Eng<T>::supported(code); }
