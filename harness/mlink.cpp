// P17: the real link code over a recording stand-in for MathLink
#include "calc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include <mathlink.h>
#include <WolframLibrary.h>

#include <fcntl.h>
#include <iomanip>
#include <unistd.h>

extern "C" {
DLLEXPORT int HimalayaCalculateDMh3L(WolframLibraryData, MLINK);
DLLEXPORT mint WolframLibrary_getVersion();
DLLEXPORT int WolframLibrary_initialize(WolframLibraryData);
}

struct FakeLink {
   struct Tok { char kind; std::string text; double num; int n; };
   std::vector<Tok> in;
   std::size_t pos = 0;
   std::string out;       // one token per line
   int calls = 0;         // link calls so far
   int fail_at = 0;       // number of the call that fails, 0: none
   bool sticky = false;   // a failed link refuses everything until the error is cleared
   int error = 0;
   int ends = 0;          // completed packets
   int news = 0;
   int cleared = 0;

   bool enter()
   {
      ++calls;
      if (error && sticky) { return false; }
      if (calls == fail_at) { error = MLEDEAD; return false; }
      return true;
   }
   bool bad(int code) { error = code; return false; }
   static std::string esc(const std::string& s)
   {
      std::string r;
      for (const char c : s) { if (c == '\n') { r += "\\n"; } else if (c == '\\') { r += "\\\\"; } else { r += c; } }
      return r;
   }
   int tok(const std::string& s)
   {
      if (!enter()) { return 0; }
      out += s + "\n";
      return 1;
   }
   static std::string num(double d)
   {
      char b[64];
      std::snprintf(b, sizeof b, "%a", d);
      return b;
   }
};

namespace {
int text(MLINK l, char k, const std::string& s) { return l->tok(std::string(1, k) + " " + FakeLink::esc(s)); }
int array(MLINK l, const double* d, const std::vector<long>& dims)
{
   std::string s = "A " + std::to_string(dims.size());
   long n = 1;
   for (const long x : dims) { s += " " + std::to_string(x); n *= x; }
   for (long i = 0; i < n; i++) { s += " " + FakeLink::num(d[i]); }
   return l->tok(s);
}
int head(MLINK l, const char* name, long& n)
{
   if (!l->enter()) { return 0; }
   if (l->pos >= l->in.size() || l->in[l->pos].kind != 'F' || l->in[l->pos].text != name) { return l->bad(MLEGSEQ); }
   n = l->in[l->pos++].n;
   return 1;
}
int real(MLINK l, double* d)
{
   if (!l->enter()) { return 0; }
   if (l->pos >= l->in.size() || (l->in[l->pos].kind != 'R' && l->in[l->pos].kind != 'I')) { return l->bad(MLEGSEQ); }
   *d = l->in[l->pos++].num;
   return 1;
}
} // namespace

extern "C" {
int MLPutSymbol(MLINK l, const char* s) { return text(l, 'Y', s); }
int MLPutUTF8Symbol(MLINK l, const unsigned char* s, int n) { return text(l, 'Y', std::string(reinterpret_cast<const char*>(s), n)); }
int MLPutByteSymbol(MLINK l, const unsigned char* s, int n) { return MLPutUTF8Symbol(l, s, n); }
int MLPutString(MLINK l, const char* s) { return text(l, 'T', s); }
int MLPutUTF8String(MLINK l, const unsigned char* s, int n) { return text(l, 'T', std::string(reinterpret_cast<const char*>(s), n)); }
int MLPutByteString(MLINK l, const unsigned char* s, int n) { return MLPutUTF8String(l, s, n); }
int MLPutInteger64(MLINK l, mlint64 i) { return l->tok("I " + std::to_string(i)); }
int MLPutInteger(MLINK l, int i) { return MLPutInteger64(l, i); }
int MLPutInteger16(MLINK l, int i) { return MLPutInteger64(l, i); }
int MLPutInteger32(MLINK l, int i) { return MLPutInteger64(l, i); }
int MLPutLongInteger(MLINK l, long i) { return MLPutInteger64(l, i); }
int MLPutReal64(MLINK l, double d) { return l->tok("R " + FakeLink::num(d)); }
int MLPutReal(MLINK l, double d) { return MLPutReal64(l, d); }
int MLPutDouble(MLINK l, double d) { return MLPutReal64(l, d); }
int MLPutFunction(MLINK l, const char* s, int n) { return l->tok("F " + std::to_string(n) + " " + FakeLink::esc(s)); }
int MLPutUTF8Function(MLINK l, const unsigned char* s, int len, int n) { return MLPutFunction(l, std::string(reinterpret_cast<const char*>(s), len).c_str(), n); }
int MLPutNext(MLINK l, int) { return l->enter(); }
int MLPutArgCount(MLINK l, int n) { return l->tok("N " + std::to_string(n)); }    // a head follows
int MLPutReal64List(MLINK l, const double* d, int n) { return array(l, d, {n}); }
int MLPutRealList(MLINK l, const double* d, int n) { return array(l, d, {n}); }
int MLPutInteger32List(MLINK l, const int* d, int n)
{
   std::string s = "F " + std::to_string(n) + " List";
   for (int i = 0; i < n; i++) { s += "\nI " + std::to_string(d[i]); }
   return l->tok(s);
}
int MLPutIntegerList(MLINK l, const int* d, int n) { return MLPutInteger32List(l, d, n); }
int MLPutDoubleArray(MLINK l, const double* d, const long* dims, const char**, long r) { return array(l, d, std::vector<long>(dims, dims + r)); }
int MLPutReal64Array(MLINK l, const double* d, const int* dims, const char**, int r) { return array(l, d, std::vector<long>(dims, dims + r)); }
int MLCheckFunctionWithArgCount(MLINK l, const char* s, long* n)
{
   const long want = *n;
   return head(l, s, *n) && *n == want;
}
int MLCheckFunction(MLINK l, const char* s, long* n) { return head(l, s, *n); }
int MLTestHead(MLINK l, const char* s, int* n)
{
   long k = 0;
   if (!head(l, s, k)) { return 0; }
   *n = static_cast<int>(k);
   return 1;
}
int MLTestHeadWithArgCount(MLINK l, const char* s, int* n)
{
   const int want = *n;
   return MLTestHead(l, s, n) && *n == want;
}
int MLGetFunction(MLINK l, const char** s, int* n)
{
   if (!l->enter()) { return 0; }
   if (l->pos >= l->in.size() || l->in[l->pos].kind != 'F') { return l->bad(MLEGSEQ); }
   *s = l->in[l->pos].text.c_str();
   *n = l->in[l->pos++].n;
   return 1;
}
int MLGetNext(MLINK l) { return MLGetType(l); }
int MLGetType(MLINK l)
{
   if (!l->enter() || l->pos >= l->in.size()) { return MLTKERR; }
   switch (l->in[l->pos].kind) {
   case 'F': return MLTKFUNC;
   case 'R': return MLTKREAL;
   case 'I': return MLTKINT;
   case 'T': return MLTKSTR;
   default: return MLTKSYM;
   }
}
int MLGetArgCount(MLINK l, int* n)
{
   if (!l->enter() || l->pos >= l->in.size()) { return 0; }
   *n = l->in[l->pos].n;
   return 1;
}
int MLGetReal(MLINK l, double* d) { return real(l, d); }
int MLGetReal64(MLINK l, double* d) { return real(l, d); }
int MLGetDouble(MLINK l, double* d) { return real(l, d); }
int MLGetInteger32(MLINK l, int* i)
{
   double d = 0;
   if (l->pos < l->in.size() && l->in[l->pos].kind != 'I') { l->enter(); return l->bad(MLEGSEQ); }
   if (!real(l, &d)) { return 0; }
   *i = static_cast<int>(d);
   return 1;
}
int MLGetInteger(MLINK l, int* i) { return MLGetInteger32(l, i); }
int MLGetReal64List(MLINK l, double** d, int* n)
{
   if (!l->enter()) { return 0; }
   const auto p = l->pos;
   if (p >= l->in.size() || l->in[p].kind != 'F' || l->in[p].text != "List") { return l->bad(MLEGSEQ); }
   const int k = l->in[p].n;
   for (int i = 1; i <= k; i++) {
      if (p + i >= l->in.size() || (l->in[p + i].kind != 'R' && l->in[p + i].kind != 'I')) { return l->bad(MLEGSEQ); }
   }
   *d = static_cast<double*>(std::malloc(sizeof(double) * (k + 1)));
   for (int i = 0; i < k; i++) { (*d)[i] = l->in[p + 1 + i].num; }
   *n = k;
   l->pos = p + 1 + k;
   return 1;
}
void MLReleaseReal64List(MLINK, double* d, int) { std::free(d); }
int MLGetRealList(MLINK l, double** d, long* n)
{
   int k = 0;
   if (!MLGetReal64List(l, d, &k)) { return 0; }
   *n = k;
   return 1;
}
void MLDisownRealList(MLINK, double* d, long) { std::free(d); }
int MLGetSymbol(MLINK l, const char** s)
{
   if (!l->enter()) { return 0; }
   if (l->pos >= l->in.size() || l->in[l->pos].kind != 'Y') { return l->bad(MLEGSEQ); }
   *s = l->in[l->pos++].text.c_str();
   return 1;
}
void MLReleaseSymbol(MLINK, const char*) {}
int MLNewPacket(MLINK l)
{
   if (!l->enter()) { return 0; }
   l->pos = l->in.size();
   l->news++;
   return 1;
}
int MLEndPacket(MLINK l)
{
   if (!l->enter()) { return 0; }
   l->ends++;
   return 1;
}
int MLFlush(MLINK l) { return l->enter(); }
int MLReady(MLINK) { return 1; }
int MLError(MLINK l) { return l->error; }
int MLClearError(MLINK l) { l->error = 0; l->cleared++; return 1; }
const char* MLErrorMessage(MLINK) { return "injected"; }
void MLReleaseErrorMessage(MLINK, const char*) {}
}

namespace {

using namespace himalaya;
using rec::In;
using rec::Out;

int fd_out = -1, fd_err = -1;
off_t pos_out = 0, pos_err = 0;

std::string take(int fd, off_t& pos)
{
   std::string s;
   char b[4096];
   ssize_t n = 0;
   while ((n = pread(fd, b, sizeof b, pos)) > 0) {
      s.append(b, n);
      pos += n;
   }
   return s;
}

std::string state(const std::ostream& s)
{
   std::ostringstream o;
   o << s.flags() << ' ' << s.precision() << ' ' << s.width() << ' ' << static_cast<int>(s.fill()) << ' ' << s.rdstate() << ' '
     << s.exceptions() << ' ' << static_cast<const void*>(s.rdbuf()) << ' ' << static_cast<const void*>(s.tie());
   return o.str();
}

std::string all_state() { return state(std::cout) + "|" + state(std::cerr) + "|" + state(std::clog); }

void captured(Out& o)
{
   std::cout.flush();
   std::cerr.flush();
   std::clog.flush();
   std::fflush(stdout);
   std::fflush(stderr);
   o.put("out", take(fd_out, pos_out));
   o.put("err", take(fd_err, pos_err));
}

FakeLink link_;

} // namespace

int main()
{
   std::ios::sync_with_stdio(true);
   std::FILE* ev = fdopen(dup(1), "w");
   char n1[] = "/tmp/himalaya-mlink-XXXXXX", n2[] = "/tmp/himalaya-mlink-XXXXXX";
   fd_out = mkstemp(n1);
   fd_err = mkstemp(n2);
   if (!ev || fd_out < 0 || fd_err < 0) { return 97; }
   unlink(n1);
   unlink(n2);
   dup2(fd_out, 1);
   dup2(fd_err, 2);

   rec::Handlers h;

   // link fail_at sticky ntokens (F name n | R x | I x | Y s | T s)*
   h["link"] = [](In& in, Out& o) {
      auto& l = link_;
      l = FakeLink();
      l.fail_at = in.integer();
      l.sticky = in.integer() != 0;
      const int n = in.integer();
      for (int i = 0; i < n; i++) {
         FakeLink::Tok t{in.word()[0], "", 0., 0};
         if (t.kind == 'F') { t.text = in.word(); t.n = in.integer(); }
         else if (t.kind == 'Y' || t.kind == 'T') { t.text = in.word(); }
         else { t.num = in.num(); }
         l.in.push_back(t);
      }
      const auto before = all_state();
      int rc = -1;
      std::string thrown;
      try {
         rc = HimalayaCalculateDMh3L(nullptr, &l);
      } catch (const std::exception& e) {
         thrown = e.what();
      } catch (...) {
         thrown = "(unknown)";
      }
      o.put("same", static_cast<int>(before == all_state()));
      captured(o);
      o.put("rc", rc);
      o.put("thrown", thrown);
      o.put("tokens", l.out);
      o.put("calls", l.calls);
      o.put("ends", l.ends);
      o.put("news", l.news);
      o.put("left", static_cast<int>(l.in.size() - l.pos));
   };

   h["meta"] = [](In&, Out& o) {
      o.put("version", static_cast<int>(WolframLibrary_getVersion() == WolframLibraryVersion));
      o.put("init", static_cast<int>(WolframLibrary_initialize(nullptr) == LIBRARY_NO_ERROR));
   };

   // the same request through the C++ interface
   h["direct"] = [](In& in, Out& o) {
      const int order = in.integer();
      const bool verbose = in.integer() != 0, ab = in.integer() != 0;
      auto p = rec::read_parameters(in);
      std::string thrown, note;
      try {
         p.validate(verbose);
         captured(o);
         if (order > 2) {
            HierarchyCalculator hc(p, verbose);
            const auto ho = hc.calculateDMh3L(ab);
            rec::put_result(o, ho);
            o.put("notation", ho.getH3mHierarchyNotation(ho.getSuitableHierarchy()));
         } else {
            const HierarchyObject ho(ab);
            rec::put_result(o, ho);
            o.put("notation", ho.getH3mHierarchyNotation(ho.getSuitableHierarchy()));
            mh2_eft::Mh2EFTCalculator e(p);
            o.put("eft", std::vector<double>{e.getDeltaMh2EFT0Loop(), e.getDeltaMh2EFT1Loop(1, 1), e.getDeltaMh2EFT2Loop(1, 1)});
            mh2_fo::MSSM_mass_eigenstates f(p), fa(p, true);
            const auto x = f.calculate_Mh2(), y = fa.calculate_Mh2();
            o.put("fo", std::vector<double>{std::get<0>(x), std::get<1>(x), std::get<2>(x)});
            o.put("fo_at", std::vector<double>{std::get<0>(y), std::get<1>(y), std::get<2>(y)});
         }
      } catch (const std::exception& e) {
         thrown = e.what();
         if (thrown.empty()) { thrown = "(empty)"; }
      } catch (...) {
         thrown = "(unknown)";
      }
      std::cout.flush();
      o.put("out2", take(fd_out, pos_out));
      o.put("err2", take(fd_err, pos_err));
      o.put("thrown", thrown);
   };

   std::string line;
   while (std::getline(std::cin, line)) {
      if (line.empty()) { continue; }
      In in(line);
      const auto it = h.find(in.word());
      if (it == h.end()) { return 97; }
      Out o;
      it->second(in, o);
      std::fprintf(ev, "%s\n", o.str().c_str());
      std::fflush(ev);
   }
   return 0;
}
