// A small single-process stand-in for the parts of SAMRAI that AMPE's classes use, so that those classes can be
// compiled from the repository unmodified and run under monitors where SAMRAI itself is not available.
// Semantics follow SAMRAI 4: patch data are Fortran-ordered arrays over the ghost box, one array per axis for sides.
#ifndef SAMRAI_MINI_H
#define SAMRAI_MINI_H
#include <algorithm>
#include <array>
#include "assert.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <climits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
#include "mpi.h"

#define IOMANIP_HEADER_FILE <iomanip>
#define IOSTREAM_HEADER_FILE <iostream>
#define SAMRAI_SHARED_PTR_CAST mini_ptr_cast
#define SAMRAI_MAX_DIM NDIM
#define STL_SSTREAM_HEADER_FILE <sstream>
template <class T, class U> std::shared_ptr<T> mini_ptr_cast(const std::shared_ptr<U>& p) { return std::dynamic_pointer_cast<T>(p); }
#define NULL_USE(x) (void)(x)
#define NULL_STATEMENT if (0) int nullstatement = 0

struct MiniError : std::runtime_error { using std::runtime_error::runtime_error; };
struct MiniGap : std::runtime_error { using std::runtime_error::runtime_error; };     // something the stand-in does not offer
#define TBOX_ERROR(X) do { std::ostringstream mini_os_; mini_os_ << X; throw MiniError(mini_os_.str()); } while (0)
#define TBOX_WARNING(X) do { SAMRAI::tbox::plog << X; } while (0)
#define TBOX_ASSERT(X) assert(X)
#define INPUT_VALUE_ERROR(p) TBOX_ERROR("bad value of input parameter " << p)
#define INPUT_RANGE_ERROR(p) TBOX_ERROR("bad range of input parameter " << p)
#define SAMRAI_F77_FUNC(a, A) a##_
#define TBOX_DIM_ASSERT(X) ((void)0)
#define TBOX_ASSERT_OBJDIM_EQUALITY2(a, b) ((void)0)
#define TBOX_ASSERT_OBJDIM_EQUALITY3(a, b, c) ((void)0)
#define TBOX_ASSERT_OBJDIM_EQUALITY4(a, b, c, d) ((void)0)
#define TBOX_ASSERT_OBJDIM_EQUALITY5(a, b, c, d, e) ((void)0)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY1(a, b) ((void)0)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY2(a, b, c) ((void)0)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY3(a, b, c, d) ((void)0)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY4(a, b, c, d, e) ((void)0)

namespace SAMRAI {
enum { MAX_DIM_VAL = NDIM };
namespace tbox {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
inline NullBuf nullbuf;
inline std::ostream plog(&nullbuf), pout(&nullbuf), perr(&nullbuf);
struct PIO { static void logOnlyNodeZero(const std::string&) {} static void logAllNodes(const std::string&) {} static void initialize() {} static void finalize() {} };
class Dimension {
 public:
   typedef unsigned short dir_t;
   explicit Dimension(unsigned short d = NDIM) : d(d) {}
   unsigned short getValue() const { return d; }
   bool operator==(const Dimension& o) const { return d == o.d; }
   bool operator!=(const Dimension& o) const { return d != o.d; }
   bool operator>(const Dimension& o) const { return d > o.d; }
   static unsigned short getMaxDimValue() { return NDIM; }
   bool isValid() const { return true; }
   enum { MAXIMUM_DIMENSION_VALUE = NDIM };
 private:
   unsigned short d;
};
typedef Dimension::dir_t dir_t;
class SAMRAI_MPI {
 public:
   typedef MPI_Comm Comm; typedef MPI_Status Status; typedef MPI_Request Request;
   SAMRAI_MPI(MPI_Comm = 0) {}
   static const SAMRAI_MPI& getSAMRAIWorld() { static SAMRAI_MPI m; return m; }
   static void init(int*, char***) {}
   static void init(MPI_Comm) {}
   static void finalize() {}
   static void abort() { throw MiniError("SAMRAI_MPI::abort"); }
   static bool usingMPI() { return true; }
   int getRank() const { return 0; }
   int getSize() const { return 1; }
   MPI_Comm getCommunicator() const { return 0; }
   int Barrier() const { return 0; }
   template <class T> int AllReduce(T*, int, MPI_Op, int* = nullptr) const { return 0; }
   template <class T> int AllReduce(std::vector<T>&, MPI_Op) const { return 0; }
   int Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op) const { memcpy(b, a, n * mini_mpi_size(t)); return 0; }
   int Bcast(void*, int, MPI_Datatype, int) const { return 0; }
   int Allgather(const void* a, int n, MPI_Datatype t, void* b, int, MPI_Datatype) const { memcpy(b, a, n * mini_mpi_size(t)); return 0; }
   bool operator!=(const SAMRAI_MPI&) const { return false; }
   bool operator==(const SAMRAI_MPI&) const { return true; }
};
struct Utilities {
   static std::string intToString(int n, int w = 1) { std::ostringstream s; if (w > 1) s << std::setw(w) << std::setfill('0'); s << n; return s.str(); }
   static std::string levelToString(int n) { return intToString(n, 4); }
   static std::string processorToString(int n) { return intToString(n, 5); }
   static std::string patchToString(int n) { return intToString(n, 4); }
   static void recursiveMkdir(const std::string&, int = 0, bool = true) {}
   static void abort(const std::string& m, const std::string&, int) { throw MiniError(m); }
};
template <class T> struct MathUtilities {
   static T getSignalingNaN() { return std::numeric_limits<T>::quiet_NaN(); }
   static T getUndefined() { return std::numeric_limits<T>::quiet_NaN(); }
   static T getMax() { return std::numeric_limits<T>::max(); }
   static T getMin() { return std::numeric_limits<T>::min(); }
   static T getEpsilon() { return std::numeric_limits<T>::epsilon(); }
   static bool isNaN(T v) { return v != v; }
   static bool equalEps(T a, T b)
   {
      T m = std::max(std::abs(a), std::abs(b));
      return std::abs(a - b) <= std::sqrt(std::numeric_limits<T>::epsilon()) * std::max(m, T(1e-300)) || a == b;
   }
   static T Abs(T a) { return std::abs(a); }
   static T Max(T a, T b) { return std::max(a, b); }
   static T Min(T a, T b) { return std::min(a, b); }
   static T round(T x) { return std::floor(x + .5); }
};
struct IEEE {
   static double getSignalingNaN() { return std::numeric_limits<double>::quiet_NaN(); }
   static double getDBL_MAX() { return std::numeric_limits<double>::max(); }
   static bool isNaN(double v) { return v != v; }
};
struct Timer { void start() {} void stop() {} void reset() {} void barrierAndStart() {} double getTotalWallclockTime() { return 0.; } };
struct Statistician {};
struct TimerManager {
   static TimerManager* getManager() { static TimerManager m; return &m; }
   template <class T> static void createManager(T) {}
   std::shared_ptr<Timer> getTimer(const std::string&, bool = false) { return std::make_shared<Timer>(); }
   void print(std::ostream&) {}
   void resetAllTimers() {}
   static void freeManager() {}
};
template <class T> class Array {
 public:
   explicit Array(int n = 0) : v(n) {}
   int size() const { return (int)v.size(); }
   int getSize() const { return (int)v.size(); }
   T& operator[](int i) { return v[i]; }
   const T& operator[](int i) const { return v[i]; }
   void resizeArray(int n) { v.resize(n); }
   T* getPointer() { return v.data(); }
 private:
   std::vector<T> v;
};
struct DatabaseBox { DatabaseBox() {} DatabaseBox(const Dimension&, const int* l, const int* h) { for (int d = 0; d < NDIM; d++) { lo[d] = l[d]; hi[d] = h[d]; } } int lo[3], hi[3]; };
class Database : public std::enable_shared_from_this<Database> {
 public:
   enum DataType { SAMRAI_INVALID, SAMRAI_DATABASE, SAMRAI_BOOL, SAMRAI_CHAR, SAMRAI_INT, SAMRAI_COMPLEX, SAMRAI_DOUBLE, SAMRAI_FLOAT, SAMRAI_STRING, SAMRAI_BOX };
   struct Val { DataType t = SAMRAI_INVALID; std::shared_ptr<Database> db; std::vector<double> d; std::vector<int> i; std::vector<bool> b; std::vector<std::string> s; std::vector<float> f; std::vector<char> c; std::vector<DatabaseBox> x; };
   explicit Database(const std::string& n) : name(n) {}
   virtual ~Database() {}
   const Val& val(const std::string& k) const { auto p = m.find(k); if (p == m.end()) TBOX_ERROR("key " << k << " is not in database " << name << std::endl); return p->second; }
   bool keyExists(const std::string& k) { return m.count(k) > 0; }
   std::vector<std::string> getAllKeys() { return order; }
   DataType getArrayType(const std::string& k) { return m.count(k) ? m[k].t : SAMRAI_INVALID; }
   size_t getArraySize(const std::string& k)
   {
      if (!m.count(k)) return 0;
      const Val& v = m[k];
      switch (v.t) { case SAMRAI_INT: return v.i.size(); case SAMRAI_DOUBLE: return v.d.size(); case SAMRAI_BOOL: return v.b.size(); case SAMRAI_STRING: return v.s.size(); case SAMRAI_FLOAT: return v.f.size(); case SAMRAI_CHAR: return v.c.size(); case SAMRAI_BOX: return v.x.size(); case SAMRAI_DATABASE: return 1; default: return 0; }
   }
#define MINI_DB(Name, T, fld, TAG) \
   bool is##Name(const std::string& k) { return m.count(k) && m[k].t == TAG; } \
   std::vector<T> get##Name##Vector(const std::string& k); \
   T get##Name(const std::string& k) { std::vector<T> v(get##Name##Vector(k)); if (v.size() != 1) TBOX_ERROR("key " << k << " in database " << name << " is not a scalar" << std::endl); return v[0]; } \
   T get##Name##WithDefault(const std::string& k, const T& d) { return keyExists(k) ? get##Name(k) : d; } \
   template <class P> void get##Name##Array(const std::string& k, P* p, size_t n) { std::vector<T> v(get##Name##Vector(k)); if (v.size() != n) TBOX_ERROR("key " << k << " in database " << name << " has " << v.size() << " entries, not " << n << std::endl); for (size_t j = 0; j < n; j++) p[j] = v[j]; } \
   void put##Name(const std::string& k, const T& x) { put##Name##Vector(k, std::vector<T>(1, x)); } \
   void put##Name##Vector(const std::string& k, const std::vector<T>& x) { add(k); Val v; v.t = TAG; v.fld = x; m[k] = v; } \
   void put##Name##Array(const std::string& k, const T* p, size_t n) { put##Name##Vector(k, std::vector<T>(p, p + n)); }
   MINI_DB(Double, double, d, SAMRAI_DOUBLE) MINI_DB(Integer, int, i, SAMRAI_INT) MINI_DB(Bool, bool, b, SAMRAI_BOOL)
   MINI_DB(String, std::string, s, SAMRAI_STRING) MINI_DB(Float, float, f, SAMRAI_FLOAT) MINI_DB(Char, char, c, SAMRAI_CHAR)
#undef MINI_DB
   bool isDatabase(const std::string& k) { return m.count(k) && m[k].t == SAMRAI_DATABASE; }
   std::shared_ptr<Database> getDatabase(const std::string& k) { const Val& v = val(k); if (v.t != SAMRAI_DATABASE) TBOX_ERROR("key " << k << " is not a database"); return v.db; }
   std::shared_ptr<Database> getDatabaseWithDefault(const std::string& k, const std::shared_ptr<Database>& d) { return isDatabase(k) ? getDatabase(k) : d; }
   std::shared_ptr<Database> putDatabase(const std::string& k) { add(k); Val v; v.t = SAMRAI_DATABASE; v.db = std::make_shared<Database>(k); m[k] = v; return v.db; }
   void putDatabaseBox(const std::string& k, const DatabaseBox& b) { add(k); Val v; v.t = SAMRAI_BOX; v.x.push_back(b); m[k] = v; }
   void putDatabaseBoxVector(const std::string& k, const std::vector<DatabaseBox>& b) { add(k); Val v; v.t = SAMRAI_BOX; v.x = b; m[k] = v; }
   const std::string& getName() const { return name; }
   std::string getName() { return name; }
   void printClassData(std::ostream& os, int = 0) { for (auto& k : order) os << k << "\n"; }
   std::string name;
   std::vector<std::string> order;
   std::map<std::string, Val> m;
 private:
   void add(const std::string& k) { if (!m.count(k)) order.push_back(k); }
};
inline std::vector<double> Database::getDoubleVector(const std::string& k)
{
   const Val& v = val(k);
   if (v.t == SAMRAI_DOUBLE) return v.d;
   if (v.t == SAMRAI_INT) return std::vector<double>(v.i.begin(), v.i.end());
   if (v.t == SAMRAI_FLOAT) return std::vector<double>(v.f.begin(), v.f.end());
   TBOX_ERROR("key " << k << " in database " << name << " is not a double");
}
inline std::vector<float> Database::getFloatVector(const std::string& k)
{
   const Val& v = val(k);
   if (v.t == SAMRAI_FLOAT) return v.f;
   if (v.t == SAMRAI_DOUBLE) return std::vector<float>(v.d.begin(), v.d.end());
   if (v.t == SAMRAI_INT) return std::vector<float>(v.i.begin(), v.i.end());
   TBOX_ERROR("key " << k << " in database " << name << " is not a float");
}
#define MINI_DB(Name, T, fld, TAG) \
inline std::vector<T> Database::get##Name##Vector(const std::string& k) \
{ \
   const Val& v = val(k); \
   if (v.t != TAG) TBOX_ERROR("key " << k << " in database " << name << " is not of type " #Name); \
   return v.fld; \
}
MINI_DB(Integer, int, i, SAMRAI_INT) MINI_DB(Bool, bool, b, SAMRAI_BOOL) MINI_DB(String, std::string, s, SAMRAI_STRING) MINI_DB(Char, char, c, SAMRAI_CHAR)
#undef MINI_DB
class MemoryDatabase : public Database { public: explicit MemoryDatabase(const std::string& n) : Database(n) {} };
class InputDatabase : public Database { public: explicit InputDatabase(const std::string& n) : Database(n) {} };
// SAMRAI input syntax: key = value[, value...]   key { ... }   strings in "", booleans TRUE/FALSE, comments // and /* */, // files
class InputManager {
 public:
   static InputManager* getManager() { static InputManager m; return &m; }
   static std::shared_ptr<Database> getInputDatabase() { static std::shared_ptr<Database> d(std::make_shared<MemoryDatabase>("main")); return d; }
   static bool inputDatabaseExists() { return true; }
   void parseInputFile(const std::string& f, const std::shared_ptr<Database>& db)
   {
      std::ifstream in(f.c_str());
      if (!in) TBOX_ERROR("could not open input file " << f);
      std::stringstream ss; ss << in.rdbuf();
      parseInputString(ss.str(), db);
   }
   std::shared_ptr<InputDatabase> parseInputFile(const std::string& f) { auto d = std::make_shared<InputDatabase>("main"); parseInputFile(f, d); return d; }
   void parseInputString(const std::string& t, const std::shared_ptr<Database>& db) { size_t p = 0; block(t, p, *db, false); }
 private:
   static void skip(const std::string& t, size_t& p)
   {
      for (;;) {
         while (p < t.size() && isspace((unsigned char)t[p])) p++;
         if (p + 1 < t.size() && t[p] == '/' && t[p + 1] == '/') { while (p < t.size() && t[p] != '\n') p++; }
         else if (p + 1 < t.size() && t[p] == '/' && t[p + 1] == '*') { p = t.find("*/", p); p = p == std::string::npos ? t.size() : p + 2; }
         else return;
      }
   }
   static std::string word(const std::string& t, size_t& p) { size_t q = p; while (p < t.size() && (isalnum((unsigned char)t[p]) || strchr("_.+-", t[p]))) p++; if (q == p) TBOX_ERROR("syntax error at: " << t.substr(p, 30)); return t.substr(q, p - q); }
   static void block(const std::string& t, size_t& p, Database& db, bool inner)
   {
      for (;;) {
         skip(t, p);
         if (p >= t.size()) { if (inner) TBOX_ERROR("missing }"); return; }
         if (t[p] == '}') { p++; return; }
         std::string key;
         if (t[p] == '"') { size_t q = t.find('"', p + 1); key = t.substr(p + 1, q - p - 1); p = q + 1; }
         else { size_t q = p; while (p < t.size() && !isspace((unsigned char)t[p]) && !strchr("={", t[p])) p++; key = t.substr(q, p - q); }
         skip(t, p);
         if (p < t.size() && t[p] == '{') { p++; auto d = db.putDatabase(key); block(t, p, *d, true); continue; }
         if (p >= t.size() || t[p] != '=') TBOX_ERROR("expected = after " << key);
         p++;
         std::vector<std::string> w; std::vector<char> kind;
         for (;;) {
            skip(t, p);
            if (t[p] == '"') { size_t q = t.find('"', p + 1); w.push_back(t.substr(p + 1, q - p - 1)); kind.push_back('s'); p = q + 1; }
            else {
               std::string x = word(t, p); w.push_back(x);
               if (x == "TRUE" || x == "FALSE" || x == "true" || x == "false") kind.push_back('b');
               else { char* e; strtol(x.c_str(), &e, 10); if (!*e) kind.push_back('i'); else { strtod(x.c_str(), &e); if (*e) TBOX_ERROR("bad value " << x << " of " << key); kind.push_back('d'); } }
            }
            size_t q = p; skip(t, p);
            if (p < t.size() && t[p] == ',') { p++; continue; }
            if (p < t.size() && t[p] == ';') { p++; break; }
            (void)q; break;
         }
         char k = kind[0];
         for (char c : kind) if (c == 'd' && k == 'i') k = 'd';
         if (k == 's') db.putStringVector(key, w);
         else if (k == 'b') { std::vector<bool> v; for (auto& x : w) v.push_back(x == "TRUE" || x == "true"); db.putBoolVector(key, v); }
         else if (k == 'i') { std::vector<int> v; for (auto& x : w) v.push_back(atoi(x.c_str())); db.putIntegerVector(key, v); }
         else { std::vector<double> v; for (auto& x : w) v.push_back(atof(x.c_str())); db.putDoubleVector(key, v); }
      }
   }
};
class Serializable { public: virtual ~Serializable() {} virtual void putToRestart(const std::shared_ptr<Database>&) const = 0; };
class RestartManager {
 public:
   static RestartManager* getManager() { static RestartManager m; return &m; }
   bool isFromRestart() const { return from; }
   std::shared_ptr<Database> getRootDatabase() { return root; }
   void registerRestartItem(const std::string& n, Serializable* s) { items[n] = s; }
   void unregisterRestartItem(const std::string& n) { items.erase(n); }
   // restart "files" are kept in memory
   struct Snap { std::shared_ptr<Database> root; std::shared_ptr<void> hierarchy; };
   void writeRestartFile(const std::string& d, int n)
   {
      Snap s; s.root = std::make_shared<MemoryDatabase>("restart");
      for (auto& i : items) i.second->putToRestart(s.root->putDatabase(i.first));
      if (saveHierarchy) s.hierarchy = saveHierarchy();
      files[d + "#" + std::to_string(n)] = s;
      pout << ("@restart " + d + " " + std::to_string(n) + "\n");
   }
   bool openRestartFile(const std::string& d, int n, int)
   {
      auto p = files.find(d + "#" + std::to_string(n));
      if (p == files.end()) TBOX_ERROR("no restart file " << d << " " << n);
      from = true; root = p->second.root; restored = p->second.hierarchy; return true;
   }
   void closeRestartFile() { from = false; root = std::make_shared<MemoryDatabase>("restart"); }
   bool from = false;
   std::shared_ptr<Database> root = std::make_shared<MemoryDatabase>("restart");
   std::map<std::string, Serializable*> items;
   std::map<std::string, Snap> files; std::shared_ptr<void> restored; std::function<std::shared_ptr<void>()> saveHierarchy;
};
struct SAMRAIManager { static void initialize() {} static void startup() {} static void shutdown() {} static void finalize() {} };
struct StartupShutdownManager { struct Handler { template <class... A> Handler(A...) {} }; };
}  // namespace tbox

namespace hier {
class IntVector {
 public:
   IntVector() { v.fill(0); }
   explicit IntVector(const tbox::Dimension&) { v.fill(0); }
   IntVector(const tbox::Dimension&, int i) { v.fill(i); }
   explicit IntVector(int i, int j) { v.fill(0); v[0] = i; v[1] = j; }
   explicit IntVector(int i, int j, int k) { v[0] = i; v[1] = j; if (NDIM > 2) v[NDIM - 1] = k; }
   IntVector(const tbox::Dimension&, const int a[]) { for (int d = 0; d < NDIM; d++) v[d] = a[d]; }
   int& operator[](int d) { assert(d >= 0 && d < NDIM); return v[d]; }
   const int& operator[](int d) const { assert(d >= 0 && d < NDIM); return v[d]; }
   int& operator()(int d) { return (*this)[d]; }
   const int& operator()(int d) const { return (*this)[d]; }
   const tbox::Dimension& getDim() const { static tbox::Dimension d(NDIM); return d; }
#define OP(o) IntVector& operator o##=(const IntVector& r) { for (int d = 0; d < NDIM; d++) v[d] o##= r.v[d]; return *this; } \
   IntVector operator o(const IntVector& r) const { IntVector t(*this); t o##= r; return t; } \
   IntVector& operator o##=(int r) { for (int d = 0; d < NDIM; d++) v[d] o##= r; return *this; } \
   IntVector operator o(int r) const { IntVector t(*this); t o##= r; return t; }
   OP(+) OP(-) OP(*) OP(/)
#undef OP
   IntVector operator-() const { return IntVector() - *this; }
   bool operator==(const IntVector& r) const { return v == r.v; }
   bool operator!=(const IntVector& r) const { return v != r.v; }
   bool operator==(int r) const { for (int d = 0; d < NDIM; d++) if (v[d] != r) return false; return true; }
   bool operator!=(int r) const { return !(*this == r); }
#define OP(o) bool operator o(const IntVector& r) const { for (int d = 0; d < NDIM; d++) if (!(v[d] o r.v[d])) return false; return true; } \
   bool operator o(int r) const { for (int d = 0; d < NDIM; d++) if (!(v[d] o r)) return false; return true; }
   OP(<) OP(<=) OP(>) OP(>=)
#undef OP
   IntVector& max(const IntVector& r) { for (int d = 0; d < NDIM; d++) v[d] = std::max(v[d], r.v[d]); return *this; }
   IntVector& min(const IntVector& r) { for (int d = 0; d < NDIM; d++) v[d] = std::min(v[d], r.v[d]); return *this; }
   static IntVector max(const IntVector& a, const IntVector& b) { IntVector t(a); return t.max(b); }
   static IntVector min(const IntVector& a, const IntVector& b) { IntVector t(a); return t.min(b); }
   int max() const { return *std::max_element(v.begin(), v.end()); }
   int min() const { return *std::min_element(v.begin(), v.end()); }
   int getProduct() const { int p = 1; for (int x : v) p *= x; return p; }
   long getProduct(int) const { return getProduct(); }
   static const IntVector& getZero(const tbox::Dimension&) { static IntVector z; return z; }
   static const IntVector& getOne(const tbox::Dimension& d) { static IntVector z(d, 1); return z; }
   size_t getNumBlocks() const { return 1; }
   friend std::ostream& operator<<(std::ostream& o, const IntVector& a) { o << '('; for (int d = 0; d < NDIM; d++) o << (d ? "," : "") << a.v[d]; return o << ')'; }
 protected:
   std::array<int, NDIM> v;
};
class Index : public IntVector {
 public:
   explicit Index(const tbox::Dimension& d) : IntVector(d) {}
   Index(const tbox::Dimension& d, int i) : IntVector(d, i) {}
   Index(const tbox::Dimension& d, const int a[]) : IntVector(d, a) {}
   explicit Index(int i, int j) : IntVector(i, j) {}
   explicit Index(int i, int j, int k) : IntVector(i, j, k) {}
   explicit Index(const IntVector& r) : IntVector(r) {}
   Index() {}
   using IntVector::operator==;
#define OP(o) Index& operator o##=(const IntVector& r) { IntVector::operator o##=(r); return *this; } Index& operator o##=(int r) { IntVector::operator o##=(r); return *this; } \
   Index operator o(const IntVector& r) const { Index t(*this); t o##= r; return t; } Index operator o(int r) const { Index t(*this); t o##= r; return t; }
   OP(+) OP(-) OP(*) OP(/)
#undef OP
   static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
   Index& coarsen(const IntVector& r) { for (int d = 0; d < NDIM; d++) v[d] = fdiv(v[d], r[d]); return *this; }
   static Index coarsen(const Index& a, const IntVector& r) { Index t(a); return t.coarsen(r); }
};
class BlockId {
 public:
   BlockId(int i = 0) : i(i) {}
   static const BlockId& zero() { static BlockId z(0); return z; }
   static const BlockId& invalidId() { static BlockId z(-1); return z; }
   int getBlockValue() const { return i; }
   bool operator==(const BlockId& o) const { return i == o.i; }
 private:
   int i;
};
class LocalId { public: LocalId(int i = 0) : i(i) {} int getValue() const { return i; } bool operator==(const LocalId& o) const { return i == o.i; } friend std::ostream& operator<<(std::ostream& o, const LocalId& l) { return o << l.i; } int i; };
class GlobalId {
 public:
   GlobalId(const LocalId& l = 0, int o = 0) : l(l), o(o) {}
   const LocalId& getLocalId() const { return l; }
   int getOwnerRank() const { return o; }
   bool operator<(const GlobalId& r) const { return l.i < r.l.i; }
   bool operator==(const GlobalId& r) const { return l.i == r.l.i; }
   friend std::ostream& operator<<(std::ostream& s, const GlobalId& g) { return s << g.o << '#' << g.l; }
 private:
   LocalId l; int o;
};
typedef GlobalId BoxId;
class Transformation {
 public:
   explicit Transformation(const IntVector& s) : s(s) {}
   const IntVector& getOffset() const { return s; }
 private:
   IntVector s;
};
class Box {
 public:
   explicit Box(const tbox::Dimension& d) : lo(d, 0), hi(d, -1) {}
   Box(const Index& a, const Index& b, const BlockId&) : lo(a), hi(b) {}
   Box(const Box& b, const LocalId& l, int r) : lo(b.lo), hi(b.hi), id(l, r) {}
   Box(const Index& a, const Index& b, const BlockId&, const LocalId& l, int) : lo(a), hi(b), id(l, 0) {}
   const Index& lower() const { return lo; }
   const Index& upper() const { return hi; }
   int lower(int d) const { return lo[d]; }
   int upper(int d) const { return hi[d]; }
   void setLower(const Index& a) { lo = a; }
   void setUpper(const Index& a) { hi = a; }
   void setLower(int d, int a) { lo[d] = a; }
   void setUpper(int d, int a) { hi[d] = a; }
   bool empty() const { for (int d = 0; d < NDIM; d++) if (hi[d] < lo[d]) return true; return false; }
   bool isEmpty() const { return empty(); }
   int numberCells(int d) const { return hi[d] - lo[d] + 1; }
   IntVector numberCells() const { return hi - lo + 1; }
   size_t size() const { size_t n = 1; for (int d = 0; d < NDIM; d++) n *= std::max(0, numberCells(d)); return n; }
   size_t offset(const Index& i) const { size_t n = 0; for (int d = NDIM - 1; d >= 0; d--) n = n * numberCells(d) + (i[d] - lo[d]); return n; }
   bool contains(const Index& i) const { return i >= lo && i <= hi; }
   bool contains(const Box& b) const { return b.empty() || (b.lo >= lo && b.hi <= hi); }
   bool intersects(const Box& b) const { return !((*this) * b).empty(); }
   Box operator*(const Box& b) const { return Box(Index(IntVector::max(lo, b.lo)), Index(IntVector::min(hi, b.hi)), BlockId(0)); }
   Box& operator*=(const Box& b) { lo.max(b.lo); hi.min(b.hi); return *this; }
   void intersect(const Box& b, Box& r) const { r = *this * b; }
   Box operator+(const Box& b) const { if (empty()) return b; if (b.empty()) return *this; return Box(Index(IntVector::min(lo, b.lo)), Index(IntVector::max(hi, b.hi)), BlockId(0)); }
   Box& grow(const IntVector& g) { lo -= g; hi += g; return *this; }
   Box& grow(int d, int g) { lo[d] -= g; hi[d] += g; return *this; }
   Box& growLower(int d, int g) { lo[d] -= g; return *this; }
   Box& growUpper(int d, int g) { hi[d] += g; return *this; }
   Box& growLower(const IntVector& g) { lo -= g; return *this; }
   Box& growUpper(const IntVector& g) { hi += g; return *this; }
   static Box grow(const Box& b, const IntVector& g) { Box t(b); return t.grow(g); }
   Box& shift(const IntVector& g) { lo += g; hi += g; return *this; }
   Box& shift(int d, int g) { lo[d] += g; hi[d] += g; return *this; }
   static Box shift(const Box& b, const IntVector& g) { Box t(b); return t.shift(g); }
   Box& refine(const IntVector& r) { lo *= r; hi = hi * r + (r - 1); return *this; }
   Box& coarsen(const IntVector& r) { lo.coarsen(r); hi.coarsen(r); return *this; }
   static Box refine(const Box& b, const IntVector& r) { Box t(b); return t.refine(r); }
   static Box coarsen(const Box& b, const IntVector& r) { Box t(b); return t.coarsen(r); }
   const tbox::Dimension& getDim() const { return lo.getDim(); }
   const BlockId& getBlockId() const { return BlockId::zero(); }
   const GlobalId& getGlobalId() const { return id; }
   const GlobalId& getBoxId() const { return id; }
   const LocalId& getLocalId() const { return id.getLocalId(); }
   int getOwnerRank() const { return 0; }
   bool operator==(const Box& b) const { return lo == b.lo && hi == b.hi; }
   bool operator!=(const Box& b) const { return !(*this == b); }
   bool isSpatiallyEqual(const Box& b) const { return *this == b; }
   typedef tbox::Dimension::dir_t dir_t;
   friend std::ostream& operator<<(std::ostream& o, const Box& b) { return o << '[' << b.lo << ',' << b.hi << ']'; }
   // iteration over indices
   class iterator {
    public:
      iterator(const Box& b, bool e) : lo(b.lo), hi(b.hi), i(b.lo) { if (e || b.empty()) i[NDIM - 1] = b.empty() ? b.lo[NDIM - 1] : b.hi[NDIM - 1] + 1; }
      const Index& operator*() const { return i; }
      iterator& operator++() { for (int d = 0; d < NDIM; d++) { if (++i[d] <= hi[d] || d == NDIM - 1) return *this; i[d] = lo[d]; } return *this; }
      iterator operator++(int) { iterator t(*this); ++*this; return t; }
      bool operator!=(const iterator& o) const { return i != o.i; }
      bool operator==(const iterator& o) const { return i == o.i; }
    private:
      Index lo, hi, i;
   };
   iterator begin() const { return iterator(*this, false); }
   iterator end() const { return iterator(*this, true); }
 private:
   Index lo, hi; GlobalId id;
};
class BoxContainer {
 public:
   typedef std::list<Box>::iterator iterator; typedef std::list<Box>::const_iterator const_iterator;
   BoxContainer() {}
   explicit BoxContainer(const Box& b) { l.push_back(b); }
   iterator begin() { return l.begin(); }
   iterator end() { return l.end(); }
   const_iterator begin() const { return l.begin(); }
   const_iterator end() const { return l.end(); }
   int size() const { return (int)l.size(); }
   bool empty() const { return l.empty(); }
   bool isEmpty() const { return l.empty(); }
   void pushBack(const Box& b) { l.push_back(b); }
   void push_back(const Box& b) { l.push_back(b); }
   void pushFront(const Box& b) { l.push_front(b); }
   const Box& front() const { return l.front(); }
   const Box& back() const { return l.back(); }
   void coarsen(const IntVector& r) { for (auto& b : l) b.coarsen(r); }
   void refine(const IntVector& r) { for (auto& b : l) b.refine(r); }
   void grow(const IntVector& r) { for (auto& b : l) b.grow(r); }
   void shift(const IntVector& r) { for (auto& b : l) b.shift(r); }
   void clear() { l.clear(); }
   void removeIntersections(const Box& t)
   {
      std::list<Box> out;
      for (const Box& b : l) {
         Box i = b * t;
         if (i.empty()) { out.push_back(b); continue; }
         Box r(b);
         for (int d = 0; d < NDIM; d++) {
            if (r.lower(d) < i.lower(d)) { Box p(r); p.setUpper(d, i.lower(d) - 1); out.push_back(p); r.setLower(d, i.lower(d)); }
            if (r.upper(d) > i.upper(d)) { Box p(r); p.setLower(d, i.upper(d) + 1); out.push_back(p); r.setUpper(d, i.upper(d)); }
         }
      }
      l = out;
   }
   void removeIntersections(const BoxContainer& t) { for (const Box& b : t.l) removeIntersections(b); }
   void intersectBoxes(const Box& t) { std::list<Box> o; for (auto& b : l) { Box i = b * t; if (!i.empty()) o.push_back(i); } l = o; }
   void intersectBoxes(const BoxContainer& t) { std::list<Box> o; for (auto& b : l) for (auto& c : t.l) { Box i = b * c; if (!i.empty()) o.push_back(i); } l = o; }
   Box getBoundingBox() const { Box b = l.front(); for (auto& x : l) b = b + x; return b; }
   size_t getTotalSizeOfBoxes() const { size_t n = 0; for (auto& b : l) n += b.size(); return n; }
   bool contains(const Index& i) const { for (auto& b : l) if (b.contains(i)) return true; return false; }
   void unorder() {} void order() {} void makeTree(void* = nullptr) const {} void simplify() {} void coalesce() {}
   bool boxesIntersect() const { for (auto i = l.begin(); i != l.end(); ++i) { auto j = i; for (++j; j != l.end(); ++j) if (i->intersects(*j)) return true; } return false; }
   void print(std::ostream& o = std::cout) const { for (auto& b : l) o << b << ' '; }
   std::list<Box> l;
};
class BoxOverlap { public: virtual ~BoxOverlap() {} };
class BoundaryBox {
 public:
   BoundaryBox(const Box& b, int t, int l) : b(b), t(t), l(l) {}
   explicit BoundaryBox(const tbox::Dimension& d) : b(d), t(0), l(0) {}
   const Box& getBox() const { return b; }
   int getBoundaryType() const { return t; }
   int getLocationIndex() const { return l; }
   const tbox::Dimension& getDim() const { return b.getDim(); }
   void setIsMultiblockSingularity(bool) {}
 private:
   Box b; int t, l;
};
class PatchData {
 public:
   PatchData(const Box& b, const IntVector& g) : box(b), ghosts(g), gbox(Box::grow(b, g)), time(0.) {}
   virtual ~PatchData() {}
   const Box& getBox() const { return box; }
   const Box& getGhostBox() const { return gbox; }
   const IntVector& getGhostCellWidth() const { return ghosts; }
   void setTime(double t) { time = t; }
   double getTime() const { return time; }
   const tbox::Dimension& getDim() const { return box.getDim(); }
   virtual void copy(const PatchData& s) = 0;
   virtual void copy2(PatchData& d) const { d.copy(*this); }
   // additions of the stand-in
   virtual void miniCopyBox(const PatchData& s, const Box& cells, const IntVector& shift) = 0;
   virtual int miniArrays() const = 0;
   virtual void* miniPtr(int array) = 0;
   virtual Box miniBox(int array) const = 0;
   virtual int miniDepth() const = 0;
   virtual size_t miniSize() const = 0;
 private:
   Box box; IntVector ghosts; Box gbox; double time;
};
class VariableContext { public: VariableContext(const std::string& n = "", int i = 0) : n(n), i(i) {} const std::string& getName() const { return n; } int getIndex() const { return i; } std::string n; int i; };
class Variable {
 public:
   Variable(const std::string& n, int depth) : n(n), depth(depth), id(counter()++) {}
   virtual ~Variable() {}
   const std::string& getName() const { return n; }
   int getDepth() const { return depth; }
   const tbox::Dimension& getDim() const { static tbox::Dimension d(NDIM); return d; }
   int getInstanceIdentifier() const { return id; }
   virtual std::shared_ptr<PatchData> make(const Box& b, const IntVector& g) const = 0;
 private:
   static int& counter() { static int c = 0; return c; }
   std::string n; int depth; int id;
};
class PatchGeometry {
 public:
   virtual ~PatchGeometry() {}
   bool getTouchesRegularBoundary(int axis, int side) const { if (axis < 0 || axis >= NDIM) throw MiniError("boundary of a direction that does not exist"); return touches[2 * axis + side]; }
   bool getTouchesRegularBoundary() const { for (bool b : touches) if (b) return true; return false; }
   bool intersectsPhysicalBoundary() const { return getTouchesRegularBoundary(); }
   const IntVector& getRatio() const { return ratio; }
   const std::vector<BoundaryBox>& getCodimensionBoundaries(int c) const { return bdry[c]; }
   const std::vector<BoundaryBox>& getCodimension1Boundaries() const { return bdry[1]; }
   const std::vector<BoundaryBox>& getNodeBoundaries() const { return bdry[NDIM]; }
   const std::vector<BoundaryBox>& getEdgeBoundaries() const { return bdry[NDIM - 1]; }
   Box getBoundaryFillBox(const BoundaryBox& bb, const Box& patch, const IntVector& g) const
   {
      Box r(bb.getBox());
      // grow the one-cell-wide boundary box outwards to the ghost width, and sideways into the ghost region where the
      // boundary box already extends past the patch
      for (int d = 0; d < NDIM; d++) {
         if (r.upper(d) < patch.lower(d)) r.setLower(d, r.upper(d) - g[d] + 1);
         else if (r.lower(d) > patch.upper(d)) r.setUpper(d, r.lower(d) + g[d] - 1);
         else { if (r.lower(d) < patch.lower(d)) r.setLower(d, patch.lower(d) - g[d]); if (r.upper(d) > patch.upper(d)) r.setUpper(d, patch.upper(d) + g[d]); }
      }
      return r;
   }
   bool touches[2 * NDIM] = {};
   IntVector ratio;
   std::vector<BoundaryBox> bdry[NDIM + 1];
};
class VariableDatabase;
class PatchDescriptor;
class Patch {
 public:
   Patch(const Box& b, int ln, int num) : box(b), ln(ln), num(num), gid(LocalId(num), 0) {}
   const Box& getBox() const { return box; }
   std::shared_ptr<PatchData> getPatchData(int id) const { assert(id >= 0); return id < (int)data.size() ? data[id] : std::shared_ptr<PatchData>(); }
   std::shared_ptr<PatchData> getPatchData(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const;
   void setPatchData(int id, const std::shared_ptr<PatchData>& p) { if (id >= (int)data.size()) data.resize(id + 1); data[id] = p; }
   bool checkAllocated(int id) const { return id < (int)data.size() && data[id] != nullptr; }
   void allocatePatchData(int id, double t = 0.);
   void deallocatePatchData(int id) { if (id < (int)data.size()) data[id].reset(); }
   std::shared_ptr<PatchGeometry> getPatchGeometry() const { return geom; }
   void setPatchGeometry(const std::shared_ptr<PatchGeometry>& g) { geom = g; }
   bool inHierarchy() const { return true; }
   int getPatchLevelNumber() const { return ln; }
   int getPatchNumber() const { return num; }
   const GlobalId& getGlobalId() const { return gid; }
   const LocalId& getLocalId() const { return gid.getLocalId(); }
   const tbox::Dimension& getDim() const { return box.getDim(); }
   void setTime(double t) { for (auto& d : data) if (d) d->setTime(t); }
   std::vector<std::shared_ptr<PatchData>> data;
 private:
   Box box; int ln, num; GlobalId gid; std::shared_ptr<PatchGeometry> geom;
};
class ComponentSelector {
 public:
   ComponentSelector(bool = false) {}
   void setFlag(int i) { f.insert(i); }
   void clrFlag(int i) { f.erase(i); }
   void clrAllFlags() { f.clear(); }
   bool isSet(int i) const { return f.count(i) > 0; }
   std::set<int> f;
};
class BaseGridGeometry;
class BoxLevel { public: BoxLevel() {} BoxLevel(const IntVector& r, const std::shared_ptr<BaseGridGeometry>& g) : ratio(r), geom(g) {} std::shared_ptr<BaseGridGeometry> geom; void addBox(const Box& x) { b.pushBack(x); } const tbox::SAMRAI_MPI& getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); } BoxContainer b; const BoxContainer& getBoxes() const { return b; } const BoxContainer& getGlobalBoxes() const { return b; } IntVector ratio; const IntVector& getRefinementRatio() const { return ratio; } size_t getLocalNumberOfBoxes() const { return b.size(); } size_t getGlobalNumberOfBoxes() const { return b.size(); } size_t getGlobalNumberOfCells() const { return b.getTotalSizeOfBoxes(); } };
class BaseGridGeometry;
class PatchDescriptor;
class PatchLevel {
 public:
   PatchLevel() {}
   PatchLevel(const BoxLevel& l, const std::shared_ptr<BaseGridGeometry>& g, const std::shared_ptr<PatchDescriptor>&);
   class Iterator {
    public:
      Iterator(std::vector<std::shared_ptr<Patch>>::const_iterator i) : i(i) {}
      const std::shared_ptr<Patch>& operator*() const { return *i; }
      const std::shared_ptr<Patch>& operator->() const { return *i; }
      Iterator& operator++() { ++i; return *this; }
      Iterator operator++(int) { Iterator t(*this); ++i; return t; }
      bool operator!=(const Iterator& o) const { return i != o.i; }
      bool operator==(const Iterator& o) const { return i == o.i; }
    private:
      std::vector<std::shared_ptr<Patch>>::const_iterator i;
   };
   typedef Iterator iterator;
   Iterator begin() const { return Iterator(patches.begin()); }
   Iterator end() const { return Iterator(patches.end()); }
   int getLevelNumber() const { return ln; }
   int getLocalNumberOfPatches() const { return (int)patches.size(); }
   int getGlobalNumberOfPatches() const { return (int)patches.size(); }
   int getNumberOfPatches() const { return (int)patches.size(); }
   size_t getLocalNumberOfCells() const { size_t n = 0; for (auto& p : patches) n += p->getBox().size(); return n; }
   size_t getGlobalNumberOfCells() const { return getLocalNumberOfCells(); }
   const IntVector& getRatioToLevelZero() const { return ratio0; }
   const IntVector& getRatioToCoarserLevel() const { return ratio; }
   const BoxContainer& getPhysicalDomain(const BlockId&) const { return domain; }
   const BoxContainer& getBoxes() const { return blevel->b; }
   const std::shared_ptr<BoxLevel>& getBoxLevel() const { return blevel; }
   std::shared_ptr<Patch> getPatch(int i) const { return patches[i]; }
   std::shared_ptr<Patch> getPatch(const GlobalId& g) const { return patches[g.getLocalId().getValue()]; }
   bool inHierarchy() const { return true; }
   const tbox::Dimension& getDim() const { static tbox::Dimension d(NDIM); return d; }
   void allocatePatchData(int id, double t = 0.) { for (auto& p : patches) p->allocatePatchData(id, t); }
   void deallocatePatchData(int id) { for (auto& p : patches) p->deallocatePatchData(id); }
   void allocatePatchData(const ComponentSelector& c, double t = 0.) { for (int i : c.f) allocatePatchData(i, t); }
   void deallocatePatchData(const ComponentSelector& c) { for (int i : c.f) deallocatePatchData(i); }
   bool checkAllocated(int id) const { return !patches.empty() && patches[0]->checkAllocated(id); }
   void setTime(double t, int id) { for (auto& p : patches) if (p->checkAllocated(id)) p->getPatchData(id)->setTime(t); }
   void setTime(double t) { for (auto& p : patches) p->setTime(t); }
   void setTime(double t, const ComponentSelector& c) { for (int i : c.f) setTime(t, i); }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const;
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return geometry; }
   // additions of the stand-in
   int ln = 0;
   IntVector ratio0, ratio;
   std::vector<std::shared_ptr<Patch>> patches;
   BoxContainer domain;
   std::shared_ptr<BoxLevel> blevel = std::make_shared<BoxLevel>();
   std::shared_ptr<BaseGridGeometry> geometry;
};
class PatchDescriptor {
 public:
   int getMaxNumberRegisteredComponents() const;
   const std::string mapIndexToName(int i) const;
   IntVector getMaxGhostWidth(const tbox::Dimension& d) const { return IntVector(d, 8); }
};
class VariableDatabase {
 public:
   struct Entry { std::shared_ptr<Variable> v; std::shared_ptr<VariableContext> c; IntVector g; };
   static VariableDatabase* getDatabase() { static VariableDatabase d; return &d; }
   std::shared_ptr<VariableContext> getContext(const std::string& n) { auto& c = ctx[n]; if (!c) c = std::make_shared<VariableContext>(n, (int)ctx.size()); return c; }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c, const IntVector& g)
   {
      for (size_t i = 0; i < e.size(); i++) if (e[i].v == v && e[i].c == c) return (int)i;
      if (v) for (size_t i = 0; i < vars.size(); i++) if (vars[i] == v) { e.push_back(Entry{v, c, g}); return (int)e.size() - 1; }
      vars.push_back(v); e.push_back(Entry{v, c, g}); return (int)e.size() - 1;
   }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) { return registerVariableAndContext(v, c, IntVector()); }
   int registerInternalSAMRAIVariable(const std::shared_ptr<Variable>& v, const IntVector& g) { return registerVariableAndContext(v, getContext("INTERNAL"), g); }
   int registerClonedPatchDataIndex(const std::shared_ptr<Variable>& v, int old) { e.push_back(Entry{v, getContext("CLONE" + std::to_string(e.size())), e[old].g}); return (int)e.size() - 1; }
   int registerPatchDataIndex(const std::shared_ptr<Variable>& v, int = -1) { e.push_back(Entry{v, getContext("PD"), IntVector()}); return (int)e.size() - 1; }
   bool mapIndexToVariable(int i, std::shared_ptr<Variable>& v) const { if (i < 0 || i >= (int)e.size() || !e[i].v) { v.reset(); return false; } v = e[i].v; return true; }
   bool mapIndexToVariableAndContext(int i, std::shared_ptr<Variable>& v, std::shared_ptr<VariableContext>& c) const { if (!mapIndexToVariable(i, v)) return false; c = e[i].c; return true; }
   int mapVariableAndContextToIndex(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const { for (size_t i = 0; i < e.size(); i++) if (e[i].v == v && e[i].c == c) return (int)i; return -1; }
   std::shared_ptr<Variable> getVariable(const std::string& n) const { for (auto& v : vars) if (v && v->getName() == n) return v; return std::shared_ptr<Variable>(); }
   bool checkVariableExists(const std::string& n) const { return getVariable(n) != nullptr; }
   void removePatchDataIndex(int i) { if (i >= 0 && i < (int)e.size()) e[i].v.reset(); }
   void removeInternalSAMRAIVariablePatchDataIndex(int i) { removePatchDataIndex(i); }
   void removeVariable(const std::string& n) { for (auto& v : vars) if (v && v->getName() == n) v.reset(); }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { static std::shared_ptr<PatchDescriptor> d(std::make_shared<PatchDescriptor>()); return d; }
   void printClassData(std::ostream&, bool = true) const {}
   std::shared_ptr<VariableContext> getPatchDataContext(int i) { return e[i].c; }
   std::vector<Entry> e; std::vector<std::shared_ptr<Variable>> vars; std::map<std::string, std::shared_ptr<VariableContext>> ctx;
};
class PatchDataRestartManager { public: static PatchDataRestartManager* getManager() { static PatchDataRestartManager m; return &m; } void registerPatchDataForRestart(int i) { s.insert(i); } void unregisterPatchDataForRestart(int i) { s.erase(i); } bool isPatchDataRegisteredForRestart(int i) const { return s.count(i) > 0; } std::set<int> s; };
inline int PatchDescriptor::getMaxNumberRegisteredComponents() const { return (int)VariableDatabase::getDatabase()->e.size(); }
inline const std::string PatchDescriptor::mapIndexToName(int i) const { auto& v = VariableDatabase::getDatabase()->e[i].v; return v ? v->getName() : ""; }
inline std::shared_ptr<PatchDescriptor> PatchLevel::getPatchDescriptor() const { return VariableDatabase::getDatabase()->getPatchDescriptor(); }
inline std::shared_ptr<PatchData> Patch::getPatchData(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const { return getPatchData(VariableDatabase::getDatabase()->mapVariableAndContextToIndex(v, c)); }
inline void Patch::allocatePatchData(int id, double t)
{
   auto& e = VariableDatabase::getDatabase()->e;
   assert(id >= 0 && id < (int)e.size() && e[id].v);
   auto p = e[id].v->make(box, e[id].g); p->setTime(t); setPatchData(id, p);
}
class CoarsenOperator {
 public:
   explicit CoarsenOperator(const std::string& n) : n(n) {}
   virtual ~CoarsenOperator() {}
   const std::string& getOperatorName() const { return n; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const tbox::Dimension&) const = 0;
   virtual void coarsen(Patch& coarse, const Patch& fine, const int dst, const int src, const Box& cbox, const IntVector& ratio) const = 0;
 private:
   std::string n;
};
class RefineOperator {
 public:
   explicit RefineOperator(const std::string& n) : n(n) {}
   virtual ~RefineOperator() {}
   const std::string& getOperatorName() const { return n; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const tbox::Dimension&) const = 0;
   virtual void refine(Patch& fine, const Patch& coarse, const int dst, const int src, const BoxOverlap& o, const IntVector& ratio) const = 0;
 private:
   std::string n;
};
class TimeInterpolateOperator { public: virtual ~TimeInterpolateOperator() {} };
class PatchHierarchy;
class BaseGridGeometry {
 public:
   virtual ~BaseGridGeometry() {}
   const BoxContainer& getPhysicalDomain() const { return domain; }
   IntVector getPeriodicShift(const IntVector& ratio) const { return per * ratio; }
   bool getDomainIsSingleBox() const { return domain.size() == 1; }
   const tbox::Dimension& getDim() const { static tbox::Dimension d(NDIM); return d; }
   std::shared_ptr<CoarsenOperator> lookupCoarsenOperator(const std::shared_ptr<Variable>& v, const std::string& n) { for (auto& o : cops) if (o.first(v, n)) return o.second(v); return std::shared_ptr<CoarsenOperator>(); }
   std::shared_ptr<RefineOperator> lookupRefineOperator(const std::shared_ptr<Variable>& v, const std::string& n) { for (auto& o : rops) if (o.first(v, n)) return o.second(v); return std::shared_ptr<RefineOperator>(); }
   void addCoarsenOperator(const std::string& t, const std::shared_ptr<CoarsenOperator>& o) { addC(t, o); }
   void addRefineOperator(const std::string& t, const std::shared_ptr<RefineOperator>& o) { addR(t, o); }
   size_t getNumberBlocks() const { return 1; }
   int getNumberOfBlockSingularities() const { return 0; }
   void addC(const std::string& t, const std::shared_ptr<CoarsenOperator>& o) { cops.insert(cops.begin(), {[=](const std::shared_ptr<Variable>& v, const std::string& n) { (void)t; return v && n == o->getOperatorName() && t == typeid(*v).name(); }, [=](const std::shared_ptr<Variable>&) { return o; }}); }
   void addR(const std::string& t, const std::shared_ptr<RefineOperator>& o) { rops.insert(rops.begin(), {[=](const std::shared_ptr<Variable>& v, const std::string& n) { return v && n == o->getOperatorName() && t == typeid(*v).name(); }, [=](const std::shared_ptr<Variable>&) { return o; }}); }
   BoxContainer domain; IntVector per;
   std::vector<std::pair<std::function<bool(const std::shared_ptr<Variable>&, const std::string&)>, std::function<std::shared_ptr<CoarsenOperator>(const std::shared_ptr<Variable>&)>>> cops;
   std::vector<std::pair<std::function<bool(const std::shared_ptr<Variable>&, const std::string&)>, std::function<std::shared_ptr<RefineOperator>(const std::shared_ptr<Variable>&)>>> rops;
};
class PatchHierarchy {
 public:
   PatchHierarchy() {}
   PatchHierarchy(const std::string&, const std::shared_ptr<BaseGridGeometry>& g, const std::shared_ptr<tbox::Database>& db = std::shared_ptr<tbox::Database>()) : geometry(g) { if (db) { maxLevels = db->getIntegerWithDefault("max_levels", 1); if (db->isDatabase("ratio_to_coarser")) rdb = db->getDatabase("ratio_to_coarser"); } miniRegister(); }
   std::shared_ptr<PatchLevel> miniMakeLevel(int ln, const IntVector& ratio, const std::vector<Box>& boxes);
   void initializeHierarchy();
   void miniRegister();
   ~PatchHierarchy();
   std::shared_ptr<tbox::Database> rdb;
   int getNumberOfLevels() const { return (int)levels.size(); }
   int getFinestLevelNumber() const { return (int)levels.size() - 1; }
   int getMaxNumberOfLevels() const { return maxLevels; }
   bool levelExists(int l) const { return l >= 0 && l < (int)levels.size(); }
   bool finerLevelExists(int l) const { return l + 1 < (int)levels.size(); }
   bool levelCanBeRefined(int l) const { return l + 1 < maxLevels; }
   std::shared_ptr<PatchLevel> getPatchLevel(int l) const { assert(l >= 0 && l < (int)levels.size()); return levels[l]; }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return geometry; }
   const tbox::SAMRAI_MPI& getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
   const tbox::Dimension& getDim() const { static tbox::Dimension d(NDIM); return d; }
   IntVector getRatioToCoarserLevel(int l) const { if (l < (int)levels.size()) return levels[l]->ratio; std::string k = "level_" + std::to_string(l); IntVector r(getDim(), 2); if (rdb && rdb->keyExists(k)) { std::vector<int> v = rdb->getIntegerVector(k); for (int d = 0; d < NDIM; d++) r[d] = v[d]; } return r; }
   const IntVector& getSmallestPatchSize(int) const { return IntVector::getOne(getDim()); }
   IntVector getLargestPatchSize(int) const { return IntVector(getDim(), 1 << 20); }
   std::vector<std::shared_ptr<PatchLevel>> levels; std::shared_ptr<BaseGridGeometry> geometry; int maxLevels = 1;
};
class CoarseFineBoundary {
 public:
   CoarseFineBoundary() {}
   explicit CoarseFineBoundary(const tbox::Dimension&) {}
   void clear() { b.clear(); }
   CoarseFineBoundary(const PatchHierarchy& h, int ln, const IntVector& maxg);
   std::vector<BoundaryBox> getBoundaries(const GlobalId& g, int codim, const BlockId& = BlockId::zero()) const { auto p = b.find(g.getLocalId().getValue()); return p == b.end() ? std::vector<BoundaryBox>() : p->second[codim]; }
   const std::vector<BoundaryBox>& getNodeBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return b.at(g.getLocalId().getValue())[NDIM]; }
   const std::vector<BoundaryBox>& getFaceBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return b.at(g.getLocalId().getValue())[NDIM - 2]; }
   const std::vector<BoundaryBox>& getEdgeBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return b.at(g.getLocalId().getValue())[NDIM - 1]; }
   std::map<int, std::array<std::vector<BoundaryBox>, NDIM + 1>> b;
};
class BoundaryBoxUtils {
 public:
   explicit BoundaryBoxUtils(const BoundaryBox& b) : b(b) {}
   void stretchBoxToGhostWidth(Box& r, const IntVector& g) const
   {
      r = b.getBox(); const IntVector& o = getOutwardShift();
      for (int d = 0; d < NDIM; d++) { if (o[d] < 0) r.growLower(d, g[d] > 1 ? g[d] - 1 : 0); if (o[d] > 0) r.growUpper(d, g[d] > 1 ? g[d] - 1 : 0); }
   }
   void extendBoxOutward(Box& r, const IntVector& g) const { r = b.getBox(); const IntVector& o = getOutwardShift(); for (int d = 0; d < NDIM; d++) { if (o[d] < 0) r.growLower(d, g[d]); if (o[d] > 0) r.growUpper(d, g[d]); } }
   int normalDir() const { return b.getLocationIndex() / 2; }
   const IntVector& getOutwardShift() const
   {
      static IntVector o; o = IntVector(tbox::Dimension(NDIM), 0);
      int t = b.getBoundaryType(), l = b.getLocationIndex();
      if (t == 1) o[l / 2] = l % 2 ? 1 : -1;
#if NDIM == 2
      else { o[0] = l % 2 ? 1 : -1; o[1] = l / 2 ? 1 : -1; }
#else
      else if (t == 2) { int n = l / 4, e = l % 4, a = n == 0 ? 1 : 0, c = n == 2 ? 1 : 2; o[a] = e % 2 ? 1 : -1; o[c] = e / 2 ? 1 : -1; }
      else { o[0] = l % 2 ? 1 : -1; o[1] = (l / 2) % 2 ? 1 : -1; o[2] = l / 4 ? 1 : -1; }
#endif
      return o;
   }
   BoundaryBox trimBoundaryBox(const Box& limit) const
   {
      Box r(b.getBox()); const IntVector& o = getOutwardShift();
      for (int d = 0; d < NDIM; d++) if (o[d] == 0) { r.setLower(d, std::max(r.lower(d), limit.lower(d))); r.setUpper(d, std::min(r.upper(d), limit.upper(d))); }
      return BoundaryBox(r, b.getBoundaryType(), b.getLocationIndex());
   }
   Box getSurfaceBoxFromBoundaryBox() const { Box r(b.getBox()); int l = b.getLocationIndex(); if (l % 2 == 0) { int a = l / 2; r.shift(a, 1); r.setUpper(a, r.lower(a)); } return r; }
 private:
   BoundaryBox b;
};
}  // namespace hier

namespace pdat {
typedef hier::Box::dir_t dir_t;
class CellIndex : public hier::Index { public: explicit CellIndex(const tbox::Dimension& d) : Index(d) {} CellIndex(const hier::Index& i) : Index(i) {} CellIndex(const hier::IntVector& i) : Index(i) {} CellIndex() {} };
class NodeIndex : public hier::Index { public: NodeIndex(const hier::Index& i) : Index(i) {} NodeIndex(const hier::Index& i, const hier::IntVector& c) : Index(i + c) {} };
class SideIndex : public hier::Index {
 public:
   enum { X = 0, Y = 1, Z = 2, Lower = 0, Upper = 1 };
   SideIndex(const hier::Index& i, int axis, int side) : Index(i), a(axis) { (*this)[axis] += side; }
   int getAxis() const { return a; }
   CellIndex toCell(int side) const { hier::Index i(*this); i[a] += side - 1; return CellIndex(i); }
 private:
   int a;
};
typedef SideIndex FaceIndex;
class CellIterator {
 public:
   CellIterator(const hier::Box& b, bool e) : it(b, e), c() { c = CellIndex(*it); }
   const CellIndex& operator*() const { return c; }
   const CellIndex* operator->() const { return &c; }
   CellIterator& operator++() { ++it; c = CellIndex(*it); return *this; }
   CellIterator operator++(int) { CellIterator t(*this); ++*this; return t; }
   bool operator!=(const CellIterator& o) const { return it != o.it; }
   bool operator==(const CellIterator& o) const { return it == o.it; }
 private:
   hier::Box::iterator it; CellIndex c;
};
class SideIterator {
 public:
   SideIterator(const hier::Box& b, int axis, bool e) : it(grown(b, axis), e), axis(axis), c(*it, axis, 0) {}
   static hier::Box grown(hier::Box b, int axis) { b.setUpper(axis, b.upper(axis) + 1); return b; }
   const SideIndex& operator*() const { return c; }
   SideIterator& operator++() { ++it; c = SideIndex(*it, axis, 0); return *this; }
   SideIterator operator++(int) { SideIterator t(*this); ++*this; return t; }
   bool operator!=(const SideIterator& o) const { return it != o.it; }
   bool operator==(const SideIterator& o) const { return it == o.it; }
 private:
   hier::Box::iterator it; int axis; SideIndex c;
};
struct CellGeometry {
   static CellIterator begin(const hier::Box& b) { return CellIterator(b, false); }
   static CellIterator end(const hier::Box& b) { return CellIterator(b, true); }
};
struct SideGeometry {
   static SideIterator begin(const hier::Box& b, int axis) { return SideIterator(b, axis, false); }
   static SideIterator end(const hier::Box& b, int axis) { return SideIterator(b, axis, true); }
   static hier::Box toSideBox(const hier::Box& b, int axis) { return SideIterator::grown(b, axis); }
};
class CellOverlap : public hier::BoxOverlap {
 public:
   CellOverlap(const hier::BoxContainer& b, const hier::IntVector& s) : b(b), s(s) {}
   CellOverlap(const hier::BoxContainer& b, const hier::Transformation& s) : b(b), s(s.getOffset()) {}
   const hier::BoxContainer& getDestinationBoxContainer() const { return b; }
   bool isOverlapEmpty() const { return b.empty(); }
 private:
   hier::BoxContainer b; hier::IntVector s;
};
class SideOverlap : public hier::BoxOverlap { public: explicit SideOverlap(const std::vector<hier::BoxContainer>& b) : b(b) {} const hier::BoxContainer& getDestinationBoxContainer(int a) const { return b[a]; } std::vector<hier::BoxContainer> b; };
template <class T> class ArrayData {
 public:
   ArrayData(const hier::Box& b, unsigned depth) : b(b), depth(depth), n(b.size()), p(new T[n * depth]) { for (size_t i = 0; i < n * depth; i++) p[i] = init(); }
   static T init() { return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(-77777); }
   const hier::Box& getBox() const { return b; }
   unsigned getDepth() const { return depth; }
   size_t getOffset() const { return n; }
   T* getPointer(unsigned d = 0) { assert(d < depth); return p.get() + d * n; }
   const T* getPointer(unsigned d = 0) const { assert(d < depth); return p.get() + d * n; }
   T& operator()(const hier::Index& i, unsigned d) { assert(b.contains(i) && d < depth); return p[d * n + b.offset(i)]; }
   const T& operator()(const hier::Index& i, unsigned d) const { assert(b.contains(i) && d < depth); return p[d * n + b.offset(i)]; }
   void fillAll(const T& v) { for (size_t i = 0; i < n * depth; i++) p[i] = v; }
   void fillAll(const T& v, const hier::Box& x) { for (unsigned d = 0; d < depth; d++) fill(v, x, d); }
   void fill(const T& v, unsigned d = 0) { assert(d < depth); for (size_t i = 0; i < n; i++) p[d * n + i] = v; }
   void fill(const T& v, const hier::Box& x, unsigned d = 0) { hier::Box c = x * b; if (!c.empty()) for (const hier::Index& i : c) (*this)(i, d) = v; }
   void copy(const ArrayData& s, const hier::Box& x) { hier::Box c = x * b * s.b; if (!c.empty()) for (unsigned d = 0; d < std::min(depth, s.depth); d++) for (const hier::Index& i : c) (*this)(i, d) = s(i, d); }
   void copy(const ArrayData& s, const hier::Box& x, const hier::IntVector& shift)
   {
      hier::Box c = x * b * hier::Box::shift(s.b, shift);
      if (!c.empty()) for (unsigned d = 0; d < std::min(depth, s.depth); d++) for (const hier::Index& i : c) (*this)(i, d) = s(i - shift, d);
   }
   void copyDepth(unsigned dd, const ArrayData& s, unsigned sd, const hier::Box& x) { hier::Box c = x * b * s.b; if (!c.empty()) for (const hier::Index& i : c) (*this)(i, dd) = s(i, sd); }
   void copyDepth(unsigned dd, const ArrayData& s, unsigned sd) { copyDepth(dd, s, sd, b); }
   bool isInitialized() const { return true; }
   tbox::Dimension getDim() const { return b.getDim(); }
 private:
   hier::Box b; unsigned depth; size_t n; std::unique_ptr<T[]> p;
};
template <class T> class CellData : public hier::PatchData {
 public:
   CellData(const hier::Box& b, int depth, const hier::IntVector& g) : PatchData(b, g), a(getGhostBox(), depth) {}
   int getDepth() const { return a.getDepth(); }
   T* getPointer(int d = 0) { return a.getPointer(d); }
   const T* getPointer(int d = 0) const { return a.getPointer(d); }
   T& operator()(const CellIndex& i, int d = 0) { return a(i, d); }
   const T& operator()(const CellIndex& i, int d = 0) const { return a(i, d); }
   ArrayData<T>& getArrayData() { return a; }
   const ArrayData<T>& getArrayData() const { return a; }
   void fillAll(const T& v) { a.fillAll(v); }
   void fillAll(const T& v, const hier::Box& b) { a.fillAll(v, b); }
   void fill(const T& v, int d = 0) { a.fill(v, d); }
   void fill(const T& v, const hier::Box& b, int d = 0) { a.fill(v, b, d); }
   void copy(const PatchData& s) override { a.copy(dynamic_cast<const CellData&>(s).a, a.getBox()); }
   void copyDepth(int d, const CellData& s, int sd) { a.copyDepth(d, s.a, sd); }
   void copyOnBox(const CellData& s, const hier::Box& b) { a.copy(s.a, b); }
   void copyOnBox(const PatchData& s, const hier::Box& b) { a.copy(dynamic_cast<const CellData&>(s).a, b); }
   void print(const hier::Box& b, std::ostream& o = tbox::plog, int prec = 12) const { (void)prec; for (const hier::Index& i : b) for (int d = 0; d < getDepth(); d++) o << a(i, d) << "\n"; }
   void print(const hier::Box& b, int d, std::ostream& o = tbox::plog, int prec = 12) const { (void)prec; for (const hier::Index& i : b) o << a(i, d) << "\n"; }
   void miniCopyBox(const PatchData& s, const hier::Box& c, const hier::IntVector& sh) override { a.copy(dynamic_cast<const CellData&>(s).a, c, sh); }
   int miniArrays() const override { return 1; }
   void* miniPtr(int) override { return a.getPointer(0); }
   hier::Box miniBox(int) const override { return a.getBox(); }
   int miniDepth() const override { return getDepth(); }
   size_t miniSize() const override { return sizeof(T); }
 private:
   ArrayData<T> a;
};
template <class T> class SideData : public hier::PatchData {
 public:
   SideData(const hier::Box& b, int depth, const hier::IntVector& g) : PatchData(b, g), dir(tbox::Dimension(NDIM), 1) { init(depth); }
   SideData(const hier::Box& b, int depth, const hier::IntVector& g, const hier::IntVector& dirs) : PatchData(b, g), dir(dirs) { init(depth); }
   int getDepth() const { return depth; }
   const hier::IntVector& getDirectionVector() const { return dir; }
   bool hasDirection(int d) const { return dir[d] != 0; }
   T* getPointer(int axis, int d = 0) { return a[axis]->getPointer(d); }
   const T* getPointer(int axis, int d = 0) const { return a[axis]->getPointer(d); }
   T& operator()(const SideIndex& i, int d = 0) { return (*a[i.getAxis()])(i, d); }
   const T& operator()(const SideIndex& i, int d = 0) const { return (*a[i.getAxis()])(i, d); }
   ArrayData<T>& getArrayData(int axis) { return *a[axis]; }
   const ArrayData<T>& getArrayData(int axis) const { return *a[axis]; }
   void fillAll(const T& v) { for (auto& x : a) if (x) x->fillAll(v); }
   void fillAll(const T& v, const hier::Box& b) { for (int k = 0; k < NDIM; k++) if (a[k]) a[k]->fillAll(v, SideGeometry::toSideBox(b, k)); }
   void fill(const T& v, int d = 0) { for (auto& x : a) if (x) x->fill(v, d); }
   void fill(const T& v, const hier::Box& b, int d = 0) { for (int k = 0; k < NDIM; k++) if (a[k]) a[k]->fill(v, SideGeometry::toSideBox(b, k), d); }
   void copy(const PatchData& s) override { const SideData& o = dynamic_cast<const SideData&>(s); for (int k = 0; k < NDIM; k++) if (a[k]) a[k]->copy(*o.a[k], a[k]->getBox()); }
   void copyDepth(int d, const SideData& s, int sd) { for (int k = 0; k < NDIM; k++) if (a[k]) a[k]->copyDepth(d, *s.a[k], sd); }
   void print(const hier::Box&, std::ostream& = tbox::plog, int = 12) const {}
   void miniCopyBox(const PatchData& s, const hier::Box& c, const hier::IntVector& sh) override { const SideData& o = dynamic_cast<const SideData&>(s); for (int k = 0; k < NDIM; k++) if (a[k]) a[k]->copy(*o.a[k], SideGeometry::toSideBox(c, k), sh); }
   int miniArrays() const override { return NDIM; }
   void* miniPtr(int k) override { return a[k] ? a[k]->getPointer(0) : nullptr; }
   hier::Box miniBox(int k) const override { return a[k]->getBox(); }
   int miniDepth() const override { return depth; }
   size_t miniSize() const override { return sizeof(T); }
 private:
   void init(int dp) { depth = dp; for (int k = 0; k < NDIM; k++) if (dir[k]) a[k].reset(new ArrayData<T>(SideGeometry::toSideBox(getGhostBox(), k), dp)); }
   hier::IntVector dir; int depth; std::unique_ptr<ArrayData<T>> a[NDIM];
};
template <class T> class NodeData : public hier::PatchData {
 public:
   NodeData(const hier::Box& b, int depth, const hier::IntVector& g) : PatchData(b, g), a(nb(getGhostBox()), depth) {}
   static hier::Box nb(hier::Box b) { for (int k = 0; k < NDIM; k++) b.setUpper(k, b.upper(k) + 1); return b; }
   int getDepth() const { return a.getDepth(); }
   T* getPointer(int d = 0) { return a.getPointer(d); }
   ArrayData<T>& getArrayData() { return a; }
   T& operator()(const NodeIndex& i, int d = 0) { return a(i, d); }
   void fillAll(const T& v) { a.fillAll(v); }
   void copy(const PatchData& s) override { a.copy(dynamic_cast<const NodeData&>(s).a, a.getBox()); }
   void miniCopyBox(const PatchData& s, const hier::Box& c, const hier::IntVector& sh) override { a.copy(dynamic_cast<const NodeData&>(s).a, nb(c), sh); }
   int miniArrays() const override { return 1; }
   void* miniPtr(int) override { return a.getPointer(0); }
   hier::Box miniBox(int) const override { return a.getBox(); }
   int miniDepth() const override { return getDepth(); }
   size_t miniSize() const override { return sizeof(T); }
 private:
   ArrayData<T> a;
};
template <class T> class OutersideData : public hier::PatchData {
 public:
   OutersideData(const hier::Box& b, int depth) : PatchData(b, hier::IntVector()), depth(depth)
   {
      for (int k = 0; k < NDIM; k++) for (int s = 0; s < 2; s++) {
         hier::Box x = SideGeometry::toSideBox(b, k);
         if (s == 0) x.setUpper(k, x.lower(k)); else x.setLower(k, x.upper(k));
         a[2 * k + s].reset(new ArrayData<T>(x, depth));
      }
   }
   int getDepth() const { return depth; }
   T* getPointer(int axis, int side, int d = 0) { return a[2 * axis + side]->getPointer(d); }
   const T* getPointer(int axis, int side, int d = 0) const { return a[2 * axis + side]->getPointer(d); }
   ArrayData<T>& getArrayData(int axis, int side) { return *a[2 * axis + side]; }
   const ArrayData<T>& getArrayData(int axis, int side) const { return *a[2 * axis + side]; }
   T& operator()(const hier::Index& i, int axis, int side, int d = 0) { return (*a[2 * axis + side])(i, d); }
   T& operator()(const SideIndex& i, int side, int d = 0) { return (*a[2 * i.getAxis() + side])(i, d); }
   void fillAll(const T& v) { for (auto& x : a) x->fillAll(v); }
   void copy(const PatchData& s) override
   {
      if (const OutersideData* o = dynamic_cast<const OutersideData*>(&s)) { for (int k = 0; k < 2 * NDIM; k++) a[k]->copy(*o->a[k], a[k]->getBox()); }
      else if (const SideData<T>* sd = dynamic_cast<const SideData<T>*>(&s)) { for (int k = 0; k < 2 * NDIM; k++) a[k]->copy(sd->getArrayData(k / 2), a[k]->getBox()); }
   }
   void miniCopyBox(const PatchData&, const hier::Box&, const hier::IntVector&) override {}
   int miniArrays() const override { return 2 * NDIM; }
   void* miniPtr(int k) override { return a[k]->getPointer(0); }
   hier::Box miniBox(int k) const override { return a[k]->getBox(); }
   int miniDepth() const override { return depth; }
   size_t miniSize() const override { return sizeof(T); }
 private:
   int depth; std::unique_ptr<ArrayData<T>> a[2 * NDIM];
};
template <class T> class CellVariable : public hier::Variable { public: CellVariable(const tbox::Dimension&, const std::string& n, int depth = 1) : Variable(n, depth) {} std::shared_ptr<hier::PatchData> make(const hier::Box& b, const hier::IntVector& g) const override { return std::make_shared<CellData<T>>(b, getDepth(), g); } };
template <class T> class SideVariable : public hier::Variable { public: SideVariable(const tbox::Dimension&, const std::string& n, int depth = 1, bool = true) : Variable(n, depth) {} SideVariable(const tbox::Dimension&, const std::string& n, const hier::IntVector&, int depth = 1, bool = true) : Variable(n, depth) {} std::shared_ptr<hier::PatchData> make(const hier::Box& b, const hier::IntVector& g) const override { return std::make_shared<SideData<T>>(b, getDepth(), g); } };
template <class T> class NodeVariable : public hier::Variable { public: NodeVariable(const tbox::Dimension&, const std::string& n, int depth = 1, bool = true) : Variable(n, depth) {} std::shared_ptr<hier::PatchData> make(const hier::Box& b, const hier::IntVector& g) const override { return std::make_shared<NodeData<T>>(b, getDepth(), g); } };
template <class T> class OutersideVariable : public hier::Variable { public: OutersideVariable(const tbox::Dimension&, const std::string& n, int depth = 1) : Variable(n, depth) {} std::shared_ptr<hier::PatchData> make(const hier::Box& b, const hier::IntVector&) const override { return std::make_shared<OutersideData<T>>(b, getDepth()); } };
template <class T, class OP> struct ArrayDataOperationUtilities {
   static void doArrayDataOperationOnBox(ArrayData<T>& dst, const ArrayData<T>& src, const hier::Box& box, const hier::IntVector& shift, unsigned ds, unsigned ss, unsigned n, const OP& op)
   {
      hier::Box c = box * dst.getBox() * hier::Box::shift(src.getBox(), shift);
      if (!c.empty()) for (unsigned d = 0; d < n; d++) for (const hier::Index& i : c) op(dst(i, ds + d), src(i - shift, ss + d));
   }
};
}  // namespace pdat

namespace geom {
class CartesianPatchGeometry : public hier::PatchGeometry {
 public:
   const double* getDx() const { return dx; }
   const double* getXLower() const { return xlo; }
   const double* getXUpper() const { return xhi; }
   double dx[NDIM], xlo[NDIM], xhi[NDIM];
};
inline void miniAddOperators(hier::BaseGridGeometry& g);
class CartesianGridGeometry : public hier::BaseGridGeometry {
 public:
   CartesianGridGeometry() {}
   CartesianGridGeometry(const tbox::Dimension&, const std::string&, const std::shared_ptr<tbox::Database>& db)
   {
      hier::BoxContainer d;
      for (const tbox::DatabaseBox& x : db->val("domain_boxes").x) d.pushBack(hier::Box(hier::Index(tbox::Dimension(NDIM), x.lo), hier::Index(tbox::Dimension(NDIM), x.hi), hier::BlockId(0)));
      std::vector<double> lo = db->getDoubleVector("x_lo"), hi = db->getDoubleVector("x_up");
      setGeometryData(lo.data(), hi.data(), d);
      std::vector<int> p = db->keyExists("periodic_dimension") ? db->getIntegerVector("periodic_dimension") : std::vector<int>(NDIM, 0);
      for (int k = 0; k < NDIM; k++) per[k] = p[k] ? d.getBoundingBox().numberCells(k) : 0;
      miniAddOperators(*this);
   }
   const double* getDx() const { return dx; }
   const double* getXLower() const { return xlo; }
   const double* getXUpper() const { return xhi; }
   void setGeometryData(const double* lo, const double* hi, const hier::BoxContainer& d) { domain = d; hier::Box b = d.getBoundingBox(); for (int k = 0; k < NDIM; k++) { xlo[k] = lo[k]; xhi[k] = hi[k]; dx[k] = (hi[k] - lo[k]) / b.numberCells(k); } }
   std::shared_ptr<CartesianPatchGeometry> miniPatchGeometry(const hier::Box& box, const hier::IntVector& ratio) const
   {
      auto g = std::make_shared<CartesianPatchGeometry>();
      hier::Box dom = domain.getBoundingBox(); hier::Box fdom = hier::Box::refine(dom, ratio);
      g->ratio = ratio;
      for (int d = 0; d < NDIM; d++) {
         g->dx[d] = dx[d] / ratio[d];
         g->xlo[d] = xlo[d] + (box.lower(d) - fdom.lower(d)) * g->dx[d];
         g->xhi[d] = xlo[d] + (box.upper(d) + 1 - fdom.lower(d)) * g->dx[d];
         g->touches[2 * d] = per[d] == 0 && box.lower(d) == fdom.lower(d);
         g->touches[2 * d + 1] = per[d] == 0 && box.upper(d) == fdom.upper(d);
      }
      // boundary boxes by codimension with SAMRAI's location indices
      hier::IntVector o;
      int n = 1; for (int d = 0; d < NDIM; d++) n *= 3;
      for (int m = 0; m < n; m++) {
         int x = m, codim = 0; bool ok = true;
         for (int d = 0; d < NDIM; d++) { o[d] = x % 3 - 1; x /= 3; if (o[d]) { codim++; if (!g->touches[2 * d + (o[d] > 0)]) ok = false; } }
         if (!codim || !ok) continue;
         hier::Box b(box); int loc = 0;
         for (int d = 0; d < NDIM; d++) { if (o[d] < 0) { b.setUpper(d, box.lower(d) - 1); b.setLower(d, box.lower(d) - 1); } if (o[d] > 0) { b.setLower(d, box.upper(d) + 1); b.setUpper(d, box.upper(d) + 1); } }
         // boundary boxes continue past the patch, into its ghost cells, where the boundary does
         const int past = codim < NDIM ? 4 : 1;
         for (int d = 0; d < NDIM; d++) if (!o[d]) { if (!g->touches[2 * d]) b.setLower(d, b.lower(d) - past); if (!g->touches[2 * d + 1]) b.setUpper(d, b.upper(d) + past); }
         if (codim == 1) { for (int d = 0; d < NDIM; d++) if (o[d]) loc = 2 * d + (o[d] > 0); }
         else if (codim == NDIM) { for (int d = NDIM - 1; d >= 0; d--) loc = 2 * loc + (o[d] > 0); }
         else { int z = 0; for (int d = 0; d < NDIM; d++) if (!o[d]) z = d; int a = z == 0 ? 1 : 0, c = z == 2 ? 1 : 2; loc = 4 * (2 - z) + (o[a] > 0) + 2 * (o[c % NDIM] > 0); }
         g->bdry[codim].push_back(hier::BoundaryBox(b, codim, loc));
      }
      return g;
   }
   double dx[NDIM], xlo[NDIM], xhi[NDIM];
};
}  // namespace geom

namespace math {
// data operations on one array over a box
template <class T> struct PatchOps {
   template <class F> static void each(hier::PatchData& p, const hier::Box& box, F f)
   {
      for (int k = 0; k < p.miniArrays(); k++) {
         hier::Box b = box; if (p.miniArrays() == NDIM && NDIM > 1) b = pdat::SideGeometry::toSideBox(box, k);
         hier::Box a = p.miniBox(k); b *= a; size_t n = a.size(); T* q = (T*)p.miniPtr(k);
         if (b.empty()) continue;
         for (int d = 0; d < p.miniDepth(); d++) for (const hier::Index& i : b) f(q[d * n + a.offset(i)], k, d, i);
      }
   }
   static T& at(const hier::PatchData& cp, int k, int d, const hier::Index& i) { hier::PatchData& p = const_cast<hier::PatchData&>(cp); hier::Box a = p.miniBox(k); assert(a.contains(i) && d < p.miniDepth()); return ((T*)p.miniPtr(k))[d * a.size() + a.offset(i)]; }
};
template <class T, class D> class PatchDataOps {
 public:
   typedef std::shared_ptr<D> P; typedef hier::Box B; typedef PatchOps<T> O;
   virtual ~PatchDataOps() {}
#define EACH(expr) O::each(*dst, b, [&](T& x, int k, int d, const hier::Index& i) { (void)k; (void)d; (void)i; x = (expr); })
#define V(s) O::at(*s, k, d, i)
   void setToScalar(const P& dst, const T& a, const B& b) const { EACH(a); }
   void scale(const P& dst, const T& a, const P& s, const B& b) const { EACH(a * V(s)); }
   void addScalar(const P& dst, const P& s, const T& a, const B& b) const { EACH(V(s) + a); }
   void copyData(const P& dst, const P& s, const B& b) const { EACH(V(s)); }
   void add(const P& dst, const P& s, const P& t, const B& b) const { EACH(V(s) + V(t)); }
   void subtract(const P& dst, const P& s, const P& t, const B& b) const { EACH(V(s) - V(t)); }
   void multiply(const P& dst, const P& s, const P& t, const B& b) const { EACH(V(s) * V(t)); }
   void divide(const P& dst, const P& s, const P& t, const B& b) const { EACH(V(s) / V(t)); }
   void reciprocal(const P& dst, const P& s, const B& b) const { EACH(T(1) / V(s)); }
   void linearSum(const P& dst, const T& a, const P& s, const T& c, const P& t, const B& b) const { EACH(a * V(s) + c * V(t)); }
   void axpy(const P& dst, const T& a, const P& s, const P& t, const B& b) const { EACH(a * V(s) + V(t)); }
   void axmy(const P& dst, const T& a, const P& s, const P& t, const B& b) const { EACH(a * V(s) - V(t)); }
   void abs(const P& dst, const P& s, const B& b) const { EACH(std::abs(V(s))); }
#undef EACH
#undef V
   T min(const P& s, const B& b) const { T r = std::numeric_limits<T>::max(); O::each(*s, b, [&](T& x, int, int, const hier::Index&) { r = std::min(r, x); }); return r; }
   T max(const P& s, const B& b) const { T r = -std::numeric_limits<T>::max(); O::each(*s, b, [&](T& x, int, int, const hier::Index&) { r = std::max(r, x); }); return r; }
   void entries(const P& s, const B& b, double& r) const { O::each(*s, b, [&](T&, int, int, const hier::Index&) { r += 1; }); }
   double sumControlVolumes(const P& s, const P& cv, const B& b) const { double r = 0; O::each(*cv, b, [&](T& x, int, int, const hier::Index&) { r += x; }); (void)s; return r; }
   double L1Norm(const P& s, const B& b, const P& cv = P()) const { double r = 0; O::each(*s, b, [&](T& x, int k, int, const hier::Index& i) { r += std::abs(x) * (cv ? O::at(*cv, k, 0, i) : T(1)); }); return r; }
   double L2Norm(const P& s, const B& b, const P& cv = P()) const { return std::sqrt(dot(s, s, b, cv)); }
   double dot(const P& s, const P& t, const B& b, const P& cv = P()) const { double r = 0; O::each(*s, b, [&](T& x, int k, int d, const hier::Index& i) { r += x * O::at(*t, k, d, i) * (cv ? O::at(*cv, k, 0, i) : T(1)); }); return r; }
   double maxNorm(const P& s, const B& b, const P& = P()) const { double r = 0; O::each(*s, b, [&](T& x, int, int, const hier::Index&) { r = std::max<double>(r, std::abs(x)); }); return r; }
   double RMSNorm(const P& s, const B& b, const P& cv = P()) const { double n = 0; O::each(*s, b, [&](T&, int k, int, const hier::Index& i) { n += cv ? O::at(*cv, k, 0, i) : T(1); }); return L2Norm(s, b, cv) / std::sqrt(n); }
   T integral(const P& s, const B& b, const P& cv) const { T r = 0; O::each(*s, b, [&](T& x, int k, int, const hier::Index& i) { r += x * O::at(*cv, k, 0, i); }); return r; }
};
template <class T> class PatchCellDataOpsReal : public PatchDataOps<T, pdat::CellData<T>> {};
template <class T> class PatchCellDataBasicOps : public PatchDataOps<T, pdat::CellData<T>> {};
template <class T> class PatchCellDataNormOpsReal : public PatchDataOps<T, pdat::CellData<T>> {};
template <class T> class PatchSideDataOpsReal : public PatchDataOps<T, pdat::SideData<T>> {};
template <class T> class PatchSideDataBasicOps : public PatchDataOps<T, pdat::SideData<T>> {};
template <class T> class PatchSideDataNormOpsReal : public PatchDataOps<T, pdat::SideData<T>> {};
template <class T> struct ArrayDataNormOpsReal {
   double L1Norm(const pdat::ArrayData<T>& a, const hier::Box& b) const { double r = 0; for (const hier::Index& i : b * a.getBox()) for (unsigned d = 0; d < a.getDepth(); d++) r += std::abs(a(i, d)); return r; }
   double L2Norm(const pdat::ArrayData<T>& a, const hier::Box& b) const { double r = 0; for (const hier::Index& i : b * a.getBox()) for (unsigned d = 0; d < a.getDepth(); d++) r += a(i, d) * a(i, d); return std::sqrt(r); }
   double maxNorm(const pdat::ArrayData<T>& a, const hier::Box& b) const { double r = 0; for (const hier::Index& i : b * a.getBox()) for (unsigned d = 0; d < a.getDepth(); d++) r = std::max<double>(r, std::abs(a(i, d))); return r; }
};
template <class T, class D> class HierarchyDataOps {
 public:
   HierarchyDataOps(const std::shared_ptr<hier::PatchHierarchy>& h, int c = 0, int f = -1) : h(h), lo(c), hi(f) {}
   virtual ~HierarchyDataOps() {}
   void resetLevels(int c, int f) { lo = c; hi = f; }
   void setPatchHierarchy(const std::shared_ptr<hier::PatchHierarchy>& p) { h = p; }
   typedef std::shared_ptr<D> P; typedef PatchDataOps<T, D> O;
   template <class F> void each(F f) const { for (int l = lo; l <= (hi < 0 ? h->getFinestLevelNumber() : hi); l++) for (auto& p : h->getPatchLevel(l)->patches) f(*p); }
   static P get(const hier::Patch& p, int id) { return id < 0 ? P() : std::dynamic_pointer_cast<D>(p.getPatchData(id)); }
   static hier::Box bx(const hier::Patch& p, int id, bool interior) { return interior ? p.getBox() : p.getPatchData(id)->getGhostBox(); }
#define W(dstid, call) each([&](const hier::Patch& p) { hier::Box b = bx(p, dstid, interior); auto g = [&](int id) { return get(p, id); }; call; })
   void setToScalar(int dst, const T& a, bool interior = true) const { W(dst, op.setToScalar(g(dst), a, b)); }
   void scale(int dst, const T& a, int s, bool interior = true) const { W(dst, op.scale(g(dst), a, g(s), b)); }
   void addScalar(int dst, int s, const T& a, bool interior = true) const { W(dst, op.addScalar(g(dst), g(s), a, b)); }
   void copyData(int dst, int s, bool interior = true) const { W(dst, op.copyData(g(dst), g(s), b * p.getPatchData(s)->getGhostBox())); }
   void add(int dst, int s, int t, bool interior = true) const { W(dst, op.add(g(dst), g(s), g(t), b)); }
   void subtract(int dst, int s, int t, bool interior = true) const { W(dst, op.subtract(g(dst), g(s), g(t), b)); }
   void multiply(int dst, int s, int t, bool interior = true) const { W(dst, op.multiply(g(dst), g(s), g(t), b)); }
   void divide(int dst, int s, int t, bool interior = true) const { W(dst, op.divide(g(dst), g(s), g(t), b)); }
   void reciprocal(int dst, int s, bool interior = true) const { W(dst, op.reciprocal(g(dst), g(s), b)); }
   void abs(int dst, int s, bool interior = true) const { W(dst, op.abs(g(dst), g(s), b)); }
   void linearSum(int dst, const T& a, int s, const T& c, int t, bool interior = true) const { W(dst, op.linearSum(g(dst), a, g(s), c, g(t), b)); }
   void axpy(int dst, const T& a, int s, int t, bool interior = true) const { W(dst, op.axpy(g(dst), a, g(s), g(t), b)); }
   void axmy(int dst, const T& a, int s, int t, bool interior = true) const { W(dst, op.axmy(g(dst), a, g(s), g(t), b)); }
#undef W
   T min(int s, bool interior = true) const { T r = std::numeric_limits<T>::max(); each([&](const hier::Patch& p) { r = std::min(r, op.min(get(p, s), bx(p, s, interior))); }); return r; }
   T max(int s, bool interior = true) const { T r = -std::numeric_limits<T>::max(); each([&](const hier::Patch& p) { r = std::max(r, op.max(get(p, s), bx(p, s, interior))); }); return r; }
   double L1Norm(int s, int cv = -1, bool = false) const { double r = 0; each([&](const hier::Patch& p) { r += op.L1Norm(get(p, s), p.getBox(), get(p, cv)); }); return r; }
   double L2Norm(int s, int cv = -1, bool = false) const { return std::sqrt(dot(s, s, cv)); }
   double dot(int s, int t, int cv = -1, bool = false) const { double r = 0; each([&](const hier::Patch& p) { r += op.dot(get(p, s), get(p, t), p.getBox(), get(p, cv)); }); return r; }
   double maxNorm(int s, int cv = -1, bool = false) const { (void)cv; double r = 0; each([&](const hier::Patch& p) { r = std::max(r, op.maxNorm(get(p, s), p.getBox())); }); return r; }
   T integral(int s, int cv) const { T r = 0; each([&](const hier::Patch& p) { r += op.integral(get(p, s), p.getBox(), get(p, cv)); }); return r; }
   double entries(int s) const { double r = 0; each([&](const hier::Patch& p) { op.entries(get(p, s), p.getBox(), r); }); return r; }
   double sumControlVolumes(int s, int cv) const { double r = 0; each([&](const hier::Patch& p) { r += op.sumControlVolumes(get(p, s), get(p, cv), p.getBox()); }); return r; }
 protected:
   std::shared_ptr<hier::PatchHierarchy> h; int lo, hi; O op;
};
template <class T> class ArrayDataBasicOps {
 public:
   typedef pdat::ArrayData<T> A; typedef hier::Box B;
   template <class F> void each(A& d, const B& x, F f) const { B c = x * d.getBox(); if (!c.empty()) for (unsigned k = 0; k < d.getDepth(); k++) for (const hier::Index& i : c) d(i, k) = f(i, k); }
   void scale(A& d, const T& a, const A& s, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return a * s(i, k); }); }
   void addScalar(A& d, const A& s, const T& a, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return a + s(i, k); }); }
   void add(A& d, const A& s, const A& t, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return s(i, k) + t(i, k); }); }
   void subtract(A& d, const A& s, const A& t, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return s(i, k) - t(i, k); }); }
   void multiply(A& d, const A& s, const A& t, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return s(i, k) * t(i, k); }); }
   void divide(A& d, const A& s, const A& t, const B& x) const { each(d, x, [&](const hier::Index& i, unsigned k) { return s(i, k) / t(i, k); }); }
};
template <class T> class HierarchyDataOpsReal : public HierarchyDataOps<T, hier::PatchData> { public: using HierarchyDataOps<T, hier::PatchData>::HierarchyDataOps; };
class HierarchyDataOpsManager { public: static HierarchyDataOpsManager* getManager() { static HierarchyDataOpsManager m; return &m; } std::shared_ptr<HierarchyDataOpsReal<double>> getOperationsDouble(const std::shared_ptr<hier::Variable>&, const std::shared_ptr<hier::PatchHierarchy>& h, bool = false) { return std::make_shared<HierarchyDataOpsReal<double>>(h); } };
template <class T> class HierarchyCellDataOpsReal : public HierarchyDataOps<T, pdat::CellData<T>> { public: using HierarchyDataOps<T, pdat::CellData<T>>::HierarchyDataOps; };
template <class T> class HierarchySideDataOpsReal : public HierarchyDataOps<T, pdat::SideData<T>> { public: using HierarchyDataOps<T, pdat::SideData<T>>::HierarchyDataOps; };
}  // namespace math
}  // namespace SAMRAI
#include "samrai_mini2.h"
#endif
