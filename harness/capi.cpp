// The C interface, driven through call histories of spec/CApi.tla.
#include <stdbool.h>
#include "userprob.hpp"
#include "IpoptConfig.h"
#include "IpTypes.h"
// the enumerations of the C header have the names of the C++ ones
namespace C
{
extern "C" {
#include "IpStdCInterface.h"
}
}
using C::IpoptProblem; using C::GetIpoptCurrentIterate; using C::GetIpoptCurrentViolations; using C::CreateIpoptProblem; using C::FreeIpoptProblem; using C::IpoptSolve;
using C::AddIpoptIntOption; using C::AddIpoptStrOption; using C::AddIpoptNumOption; using C::OpenIpoptOutputFile; using C::SetIpoptProblemScaling; using C::SetIntermediateCallback;
#include "IpIpoptApplication.hpp"
#include "IpRegOptions.hpp"
#include <sys/stat.h>
#include <unistd.h>

struct CRec;
static CRec* CUR = 0;
struct CRec : public UserTNLP
{
   IpoptProblem me = 0, other = 0;
   bool ud = true;   // every callback got the user's pointer
   void iterate(mj::Obj& e, Ipopt::AlgorithmMode, const IpoptData*, IpoptCalculatedQuantities*)
   {
      int n = P.n, m = P.m;
      std::vector<double> x(n, -7e77), zl(n, -7e77), zu(n, -7e77), g(m, -7e77), lam(m, -7e77);
      if( query & 64 )
      {
         GetIpoptCurrentIterate(me, false, n, x.data(), NULL, NULL, m, NULL, NULL);
         GetIpoptCurrentIterate(me, true, n, NULL, zl.data(), NULL, 0, NULL, NULL);
         GetIpoptCurrentViolations(me, false, n, NULL, NULL, x.data(), zl.data(), NULL, m, NULL, lam.data());
         GetIpoptCurrentIterate(me, false, 0, NULL, NULL, NULL, m, g.data(), NULL);
         GetIpoptCurrentViolations(me, true, n, x.data(), zl.data(), NULL, NULL, zu.data(), 0, NULL, NULL);
      }
      for( int k = 0; k < 2; ++k )
         if( query & (1 << k) )
         {
            std::fill(x.begin(), x.end(), -7e77); std::fill(zl.begin(), zl.end(), -7e77); std::fill(zu.begin(), zu.end(), -7e77);
            std::fill(g.begin(), g.end(), -7e77); std::fill(lam.begin(), lam.end(), -7e77);
            bool ok = GetIpoptCurrentIterate(me, k == 1, n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data());
            e.raw(k ? "curs" : "cur", mj::Obj().b("ok", ok).raw("x", mj::num(x)).raw("zl", mj::num(zl)).raw("zu", mj::num(zu)).raw("g", mj::num(g)).raw("lam", mj::num(lam)).done());
         }
      for( int k = 0; k < 2; ++k )
         if( query & (4 << k) )
         {
            std::vector<double> a(n, -7e77), b(n, -7e77), c(n, -7e77), f(n, -7e77), gl(n, -7e77), cv(m, -7e77), cg(m, -7e77);
            bool ok = GetIpoptCurrentViolations(me, k == 1, n, a.data(), b.data(), c.data(), f.data(), gl.data(), m, cv.data(), cg.data());
            e.raw(k ? "vios" : "vio", mj::Obj().b("ok", ok).raw("xl", mj::num(a)).raw("xu", mj::num(b)).raw("cl", mj::num(c)).raw("cu", mj::num(f))
                  .raw("gl", mj::num(gl)).raw("cv", mj::num(cv)).raw("cg", mj::num(cg)).done());
         }
      // another problem is not being solved
      if( other && (GetIpoptCurrentIterate(other, false, 0, NULL, NULL, NULL, 0, NULL, NULL) || GetIpoptCurrentViolations(other, false, 0, NULL, NULL, NULL, NULL, NULL, 0, NULL, NULL)) )
         ud = false;
   }
};

static CRec* rec(void* u) { if( u != (void*) CUR ) CUR->ud = false; return CUR; }
static bool F(ipindex n, ipnumber* x, bool nx, ipnumber* o, void* u) { return rec(u)->eval_f(n, x, nx, *o); }
static bool DF(ipindex n, ipnumber* x, bool nx, ipnumber* g, void* u) { return rec(u)->eval_grad_f(n, x, nx, g); }
static bool G(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* g, void* u) { return rec(u)->eval_g(n, x, nx, m, g); }
static bool J(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex nj, ipindex* ir, ipindex* jc, ipnumber* v, void* u)
{
   // there is no point yet when the structure is asked for
   return rec(u)->eval_jac_g(n, v ? x : NULL, nx, m, nj, ir, jc, v);
}
static bool H(ipindex n, ipnumber* x, bool nx, ipnumber of, ipindex m, ipnumber* l, bool nl, ipindex nh, ipindex* ir, ipindex* jc, ipnumber* v, void* u)
{
   return rec(u)->eval_h(n, v ? x : NULL, nx, of, m, v ? l : NULL, nl, nh, ir, jc, v);
}
static bool IT(ipindex mode, ipindex it, ipnumber o, ipnumber pr, ipnumber du, ipnumber mu, ipnumber dn, ipnumber reg, ipnumber ad, ipnumber ap, ipindex ls, void* u)
{
   CRec* r = rec(u);
   if( mode != 0 && mode != 1 ) r->ud = false;
   return r->intermediate_callback(mode == 1 ? Ipopt::RestorationPhaseMode : Ipopt::RegularMode, it, o, pr, du, mu, dn, reg, ad, ap, ls, NULL, NULL);
}

// the type of an option
static std::string type_of(const std::string& k)
{
   static SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   size_t d = k.rfind('.');
   SmartPtr<const RegisteredOption> o = app->RegOptions()->GetOption(d == std::string::npos ? k : k.substr(d + 1));
   if( !IsValid(o) ) return "s";
   return o->Type() == OT_Number ? "n" : o->Type() == OT_Integer ? "i" : "s";
}

struct Slot
{
   IpoptProblem h = 0;
   Prob P;
   std::vector<double> x, lam, zl, zu;   // the user's arrays
};

int main()
{
   std::string line;
   char dir[] = "/tmp/capi-XXXXXX";
   if( !mkdtemp(dir) ) return 2;
   while( std::getline(std::cin, line) && !line.empty() )
   {
      mj::V c = mj::parse(line);
      Table xs, ls;
      std::map<long, Slot> S;
      std::string out = "[";
      int nfile = 0;
      const mj::V& ops = c["ops"];
      for( size_t k = 0; k < ops.size(); ++k )
      {
         const mj::V& q = ops[k];
         Slot& s = S[q.integer("a", 0)];
         std::string op = q["op"].s;
         mj::Obj o;
         if( op == "create" )
         {
            std::string d = q["d"].s;
            s.P = Prob();
            s.P.parse(c["probs"][q["p"].i() - 1]);
            std::vector<double> xl(s.P.xl), xu(s.P.xu), gl(s.P.gl), gu(s.P.gu);
            gl.resize(s.P.m + 1); gu.resize(s.P.m + 1);   // non-NULL also for m = 0
            ipindex n = d == "n0" ? 0 : d == "nneg" ? -s.P.n : s.P.n, m = d == "mneg" ? -1 : s.P.m;
            ipindex nj = d == "jac0" ? 0 : d == "jac1" ? 1 : (ipindex) s.P.jac.size(), nh = d == "hessneg" ? -1 : (ipindex) s.P.hes.size();
            IpoptProblem h = CreateIpoptProblem(n, d == "xLnull" ? NULL : xl.data(), d == "xUnull" ? NULL : xu.data(), m, d == "gLnull" ? NULL : gl.data(), d == "gUnull" ? NULL : gu.data(),
                                                nj, nh, d == "style2" ? 2 : d == "styleneg" ? -1 : s.P.base, d == "fnull" ? NULL : F, d == "gnull" ? NULL : G, d == "gradnull" ? NULL : DF,
                                                d == "jacnull" ? NULL : J, d == "hnull" ? NULL : H);
            // the arrays belong to the caller
            bool same = xl == s.P.xl && xu == s.P.xu;
            std::fill(xl.begin(), xl.end(), 1e3); std::fill(xu.begin(), xu.end(), -1e3); std::fill(gl.begin(), gl.end(), 1e3); std::fill(gu.begin(), gu.end(), -1e3);
            o.b("ok", h != NULL).b("same", same);
            if( h )
            {
               s.h = h;
               s.x.clear(); s.lam.clear(); s.zl.clear(); s.zu.clear();
               char a[] = "print_level", b[] = "sb", y[] = "yes";
               AddIpoptIntOption(h, a, 0); AddIpoptStrOption(h, b, y);
            }
         }
         else if( op == "free" ) { FreeIpoptProblem(s.h); s.h = NULL; o.b("ok", true); }
         else if( op == "opt" )
         {
            bool ok = true, all = false;
            for( auto& v : q["set"].a )
            {
               std::string name = v[0].s, val = v[1].s, t = v.size() > 2 ? v[2].s : type_of(name);
               std::vector<char> nb(name.begin(), name.end()), vb(val.begin(), val.end());
               nb.push_back(0); vb.push_back(0);
               bool r = t == "n" ? AddIpoptNumOption(s.h, nb.data(), strtod(val.c_str(), 0)) : t == "i" ? AddIpoptIntOption(s.h, nb.data(), atoi(val.c_str())) : AddIpoptStrOption(s.h, nb.data(), vb.data());
               std::fill(nb.begin(), nb.end() - 1, 'q'); std::fill(vb.begin(), vb.end() - 1, 'q');
               ok = ok && r; all = all || r;
            }
            o.b("ok", ok).b("any", all);
         }
         else if( op == "scal" )
         {
            std::vector<double> x, g;
            if( q.has("x") ) x = q["x"].vec();
            if( q.has("g") ) { g = q["g"].vec(); g.reserve(1); }
            bool ok = SetIpoptProblemScaling(s.h, q["obj"].d(), q.has("x") ? x.data() : NULL, q.has("g") ? g.data() : NULL);
            std::fill(x.begin(), x.end(), 1e9); std::fill(g.begin(), g.end(), 1e9);
            o.b("ok", ok);
         }
         else if( op == "cb" ) o.b("ok", SetIntermediateCallback(s.h, q["v"].b() ? IT : NULL));
         else if( op == "file" )
         {
            std::string f = std::string(dir) + (q["good"].b() ? "/out" : "/no/such/dir/out") + std::to_string(++nfile);
            std::vector<char> b(f.begin(), f.end());
            b.push_back(0);
            bool ok = OpenIpoptOutputFile(s.h, b.data(), 5);
            struct stat st;
            o.b("ok", ok).b("exists", stat(f.c_str(), &st) == 0);
            unlink(f.c_str());
         }
         else if( op == "cur" )
         {
            std::vector<double> x(s.P.n), g(s.P.m + 1);
            o.b("ok", GetIpoptCurrentIterate(s.h, false, s.P.n, x.data(), NULL, NULL, s.P.m, NULL, NULL) || GetIpoptCurrentViolations(s.h, false, s.P.n, x.data(), NULL, NULL, NULL, NULL, s.P.m, g.data(), NULL));
         }
         else if( op == "solve" )
         {
            SmartPtr<CRec> r = new CRec();
            r->xs = &xs; r->ls = &ls;
            r->P = s.P;
            CUR = GetRawPtr(r);
            r->me = s.h;
            for( auto& z : S ) if( z.second.h && z.second.h != s.h ) r->other = z.second.h;
            if( q.has("faults") ) for( auto& f : q["faults"].a ) r->faults.push_back(Fault{f["kind"].s, f["what"].s, f["k"].i(), (int) f.integer("to", f["k"].i()), (int) f.integer("pos", 0)});
            r->stop_at = q.integer("stop", -1);
            r->query = q.integer("query", 0);
            r->eliminated = q.boolean("eliminated", true);
            std::map<std::string, bool> mask;
            for( auto& z : q["mask"].a ) mask[z.s] = true;
            const mj::V& own = q["own"];   // arrays that get the user's data; the others contain what is in them
            if( own.has("x") ) s.x = own["x"].vec();
            if( own.has("lam") ) { s.lam = own["lam"].vec(); s.lam.resize(s.P.m); }
            if( own.has("zl") ) s.zl = own["zl"].vec();
            if( own.has("zu") ) s.zu = own["zu"].vec();
            s.lam.reserve(1);
            std::vector<double> g(s.P.m, -7e77);
            g.reserve(1);
            double obj = -7e77;
            long ret;
            try
            {
               ret = IpoptSolve(s.h, mask["x"] ? NULL : s.x.data(), mask["g"] ? NULL : g.data(), mask["obj"] ? NULL : &obj, mask["lam"] ? NULL : s.lam.data(), mask["zl"] ? NULL : s.zl.data(), mask["zu"] ? NULL : s.zu.data(), CUR);
            }
            catch( ... ) { ret = -1000; }
            std::string evs = "[";
            for( size_t i = 0; i < r->ev.size(); ++i ) evs += (i ? "," : "") + r->ev[i];
            o.b("ok", true).b("ud", r->ud).raw("ev", evs + "]").i("ret", ret).raw("x", mj::num(s.x)).raw("zl", mj::num(s.zl)).raw("zu", mj::num(s.zu)).raw("lam", mj::num(s.lam)).raw("g", mj::num(g)).d("obj", obj);
            // the callbacks of the next solve get another pointer
            CUR = 0;
         }
         out += (k ? "," : "") + o.done();
      }
      for( auto& z : S ) if( z.second.h ) FreeIpoptProblem(z.second.h);
      std::cout << mj::Obj().i("id", c["id"].i()).raw("ops", out + "]").raw("xs", xs.json()).raw("ls", ls.json()).done() << "\n" << std::flush;
   }
   rmdir(dir);
   return 0;
}
