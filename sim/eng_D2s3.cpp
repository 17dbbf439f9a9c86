#include "engine.h"
using T = hyperjet::DDScalar<2, double, 3>;
Engine *make_D2s3() { return new Eng<T>(); }
bool sup_D2s3(int code) { return Eng<T>::supported(code); }
