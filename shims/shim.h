// Shims only give real functions of /repo a C signature: arguments are handed over, results copied out.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#ifdef VERIF_IR
#define TRY {
#define CATCH }
#else
extern "C" { int verif_threw = 0; }
#define TRY verif_threw = 0; try {
#define CATCH } catch (...) { verif_threw = 1; }
#endif
#include <cstddef>
#include <memory>
#include <vector>
#include <string>
template <class T> std::shared_ptr<T[]> wrap(T* p) { return std::shared_ptr<T[]>(p, [](T*) {}); }
#endif
