#include "engine.h"
using T = hyperjet::DDScalar<1, double, 9>;
Engine *make_D1s9() { return new Eng<T>(); }
bool sup_D1s9(int code) { return Eng<T>::supported(code); }
