#include "engine.h"
using T = hyperjet::DDScalar<1, double, 3>;
Engine *make_D1s3() { return new Eng<T>(); }
bool sup_D1s3(int code) { return Eng<T>::supported(code); }
