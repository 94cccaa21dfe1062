/* Stand-in for Wolfram's mathlink.h: the link is a queue of tokens in memory.
 * Only what a LibraryLink function needs to read its arguments and to put its
 * result. */
#pragma once
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

struct MLToken {
   enum Kind { Function, Symbol, String, Real, Integer, Array } kind = Symbol;
   std::string name;            ///< of functions, symbols and strings
   long n = 0;                  ///< number of arguments
   std::vector<double> v;       ///< numbers
   std::vector<long> dims;      ///< of arrays
};

struct MLStubLink {
   std::vector<MLToken> in;     ///< to be read by the library
   std::size_t pos = 0;
   std::vector<MLToken> out;    ///< written by the library
   int newPacket = 0, endPacket = 0, error = 0, ready = 0;
   std::vector<std::size_t> endAt;
   MLToken& put(MLToken::Kind k, const std::string& s, long n = 0) { MLToken t; t.kind = k; t.name = s; t.n = n; out.push_back(t); return out.back(); }
};

typedef MLStubLink* MLINK;
typedef const char* MLCSTRING;
#define MLN static inline int

MLN MLPutFunction(MLINK l, const char* s, int n) { l->put(MLToken::Function, s, n); return 1; }
MLN MLPutSymbol(MLINK l, const char* s) { l->put(MLToken::Symbol, s); return 1; }
MLN MLPutString(MLINK l, const char* s) { l->put(MLToken::String, s); return 1; }
MLN MLPutUTF8Symbol(MLINK l, const unsigned char* s, int n) { l->put(MLToken::Symbol, std::string(reinterpret_cast<const char*>(s), n)); return 1; }
MLN MLPutUTF8String(MLINK l, const unsigned char* s, int n) { l->put(MLToken::String, std::string(reinterpret_cast<const char*>(s), n)); return 1; }
MLN MLPutUTF8Function(MLINK l, const unsigned char* s, int n, int k) { l->put(MLToken::Function, std::string(reinterpret_cast<const char*>(s), n), k); return 1; }
MLN MLPutByteString(MLINK l, const unsigned char* s, int n) { return MLPutUTF8String(l, s, n); }
MLN MLPutInteger(MLINK l, int i) { l->put(MLToken::Integer, "").v = {double(i)}; return 1; }
MLN MLPutInteger32(MLINK l, int i) { return MLPutInteger(l, i); }
MLN MLPutInteger64(MLINK l, long long i) { l->put(MLToken::Integer, "").v = {double(i)}; return 1; }
MLN MLPutLongInteger(MLINK l, long i) { l->put(MLToken::Integer, "").v = {double(i)}; return 1; }
MLN MLPutReal(MLINK l, double d) { l->put(MLToken::Real, "").v = {d}; return 1; }
MLN MLPutDouble(MLINK l, double d) { return MLPutReal(l, d); }
MLN MLPutReal64(MLINK l, double d) { return MLPutReal(l, d); }
static inline void ml_array(MLINK l, const double* d, const long* dims, int depth)
{
   MLToken& t = l->put(MLToken::Array, ""); long n = 1;
   for (int i = 0; i < depth; i++) { t.dims.push_back(dims[i]); n *= dims[i]; }
   t.v.assign(d, d + n);
}
MLN MLPutRealList(MLINK l, const double* d, int n) { const long k = n; ml_array(l, d, &k, 1); return 1; }
MLN MLPutReal64List(MLINK l, const double* d, int n) { return MLPutRealList(l, d, n); }
MLN MLPutDoubleArray(MLINK l, const double* d, const long* dims, const char* const*, int depth) { ml_array(l, d, dims, depth); return 1; }
MLN MLPutRealArray(MLINK l, const double* d, const long* dims, const char* const*, int depth) { ml_array(l, d, dims, depth); return 1; }
MLN MLPutReal64Array(MLINK l, const double* d, const int* dims, const char* const*, int depth) { std::vector<long> k(dims, dims + depth); ml_array(l, d, k.data(), depth); return 1; }
MLN MLEndPacket(MLINK l) { l->endPacket++; l->endAt.push_back(l->out.size()); return 1; }
MLN MLFlush(MLINK) { return 1; }
MLN MLNewPacket(MLINK l) { l->newPacket++; l->pos = l->in.size(); return 1; }
MLN MLError(MLINK l) { return l->error; }
MLN MLClearError(MLINK l) { l->error = 0; return 1; }
MLN MLReady(MLINK) { return 1; }
MLN ml_fail(MLINK l) { l->error = 1; return 0; }
MLN MLCheckFunction(MLINK l, const char* s, long* n)
{
   if (l->error || l->pos >= l->in.size()) return ml_fail(l);
   const MLToken& t = l->in[l->pos];
   if (t.kind != MLToken::Function || t.name != s) return ml_fail(l);
   l->pos++; *n = t.n; return 1;
}
MLN MLTestHead(MLINK l, const char* s, int* n) { long k = 0; if (!MLCheckFunction(l, s, &k)) return 0; *n = int(k); return 1; }
MLN MLTestHead(MLINK l, const char* s, long* n) { return MLCheckFunction(l, s, n); }
MLN MLGetReal(MLINK l, double* d)
{
   if (l->error || l->pos >= l->in.size()) return ml_fail(l);
   const MLToken& t = l->in[l->pos];
   if (t.kind != MLToken::Real && t.kind != MLToken::Integer) return ml_fail(l);
   l->pos++; *d = t.v[0]; return 1;
}
MLN MLGetDouble(MLINK l, double* d) { return MLGetReal(l, d); }
MLN MLGetReal64(MLINK l, double* d) { return MLGetReal(l, d); }
MLN MLGetReal64List(MLINK l, double** d, int* n)
{
   long k = 0; if (!MLCheckFunction(l, "List", &k)) return 0;
   double* a = new double[k ? k : 1]; *n = int(k);
   for (long i = 0; i < k; i++) if (!MLGetReal(l, a + i)) { delete[] a; return 0; }
   *d = a; return 1;
}
MLN MLGetRealList(MLINK l, double** d, long* n) { int k = 0; if (!MLGetReal64List(l, d, &k)) return 0; *n = k; return 1; }
static inline void MLReleaseReal64List(MLINK, double* d, int) { delete[] d; }
static inline void MLDisownRealList(MLINK, double* d, long) { delete[] d; }
#undef MLN
