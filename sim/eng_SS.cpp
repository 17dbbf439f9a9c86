#include "engine.h"
using T = hyperjet::SScalar<double>;
Engine *make_SS() { return new Eng<T>(); }
bool sup_SS(int code) { return Eng<T>::supported(code); }
