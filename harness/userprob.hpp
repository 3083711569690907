// A user problem described by data, which records every callback it receives (used by solve.cpp and others).
#pragma once
#include "mini_json.hpp"
#include "IpTNLP.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include <cstring>
#include <unistd.h>
using namespace Ipopt;

// exact interning of double vectors
struct Table
{
   std::map<std::string, int> idx;
   std::vector<std::vector<double> > v;
   int get(const double* x, int n)
   {
      std::string k((const char*) x, sizeof(double) * n);
      auto p = idx.find(k);
      if( p != idx.end() ) return p->second;
      v.push_back(std::vector<double>(x, x + n));
      return idx[k] = (int) v.size();     // 1-based
   }
   std::string json() const
   {
      std::string r = "[";
      for( size_t i = 0; i < v.size(); ++i ) r += (i ? "," : "") + mj::num(v[i]);
      return r + "]";
   }
};

inline std::vector<double> dense(const Vector& v)
{
   std::vector<double> r;
   if( const DenseVector* d = dynamic_cast<const DenseVector*>(&v) )
   {
      if( d->IsHomogeneous() ) r.assign(d->Dim(), d->Scalar());
      else r.assign(d->Values(), d->Values() + d->Dim());
   }
   else if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) )
      for( Index i = 0; i < c->NComps(); ++i )
      {
         std::vector<double> s = dense(*c->GetComp(i));
         r.insert(r.end(), s.begin(), s.end());
      }
   return r;
}
inline std::string dnum(const SmartPtr<const Vector>& v) { return IsValid(v) ? mj::num(dense(*v)) : "[]"; }

struct Term
{
   double c, k;
   std::vector<int> v;
   std::string f;
};
struct Func
{
   std::vector<Term> t;
   void parse(const mj::V& a)
   {
      for( auto& e : a.a )
      {
         Term q;
         q.c = e[0].d(); q.v = e[1].ivec(); q.f = e.size() > 2 ? e[2].s : ""; q.k = e.size() > 3 ? e[3].d() : 0;
         t.push_back(q);
      }
   }
   static void phi(const Term& q, double p, double& a, double& b, double& c)
   {
      p += q.k;
      if( q.f == "exp" ) { a = b = c = std::exp(p); }
      else if( q.f == "log" ) { a = p > 0 ? std::log(p) : NAN; b = 1 / p; c = -1 / (p * p); }
      else if( q.f == "sqrt" ) { a = std::sqrt(p); b = .5 / a; c = -.25 / (a * a * a); }
      else if( q.f == "inv" ) { a = 1 / p; b = -a * a; c = 2 * a * a * a; }
      else if( q.f == "sin" ) { a = std::sin(p); b = std::cos(p); c = -a; }
      else if( q.f == "huber" ) { a = std::sqrt(1 + p * p); b = p / a; c = 1 / (a * a * a); }
      else { a = p; b = 1; c = 0; }
   }
   double val(const double* x) const
   {
      double s = 0;
      for( auto& q : t )
      {
         double p = 1, a, b, c;
         for( int i : q.v ) p *= x[i];
         phi(q, p, a, b, c);
         s += q.c * a;
      }
      return s;
   }
   void grad(const double* x, double* g, double f = 1) const   // adds
   {
      for( auto& q : t )
      {
         double p = 1, a, b, c;
         for( int i : q.v ) p *= x[i];
         phi(q, p, a, b, c);
         for( size_t i = 0; i < q.v.size(); ++i )
         {
            double r = 1;
            for( size_t j = 0; j < q.v.size(); ++j ) if( j != i ) r *= x[q.v[j]];
            g[q.v[i]] += f * q.c * b * r;
         }
      }
   }
   void hess(const double* x, double* H, int n, double f) const   // adds, full symmetric
   {
      for( auto& q : t )
      {
         double p = 1, a, b, c;
         for( int i : q.v ) p *= x[i];
         phi(q, p, a, b, c);
         std::vector<double> d(n, 0.);
         for( size_t i = 0; i < q.v.size(); ++i )
         {
            double r = 1;
            for( size_t j = 0; j < q.v.size(); ++j ) if( j != i ) r *= x[q.v[j]];
            d[q.v[i]] += r;
            for( size_t j = 0; j < q.v.size(); ++j )
               if( j != i )
               {
                  double s = 1;
                  for( size_t l = 0; l < q.v.size(); ++l ) if( l != i && l != j ) s *= x[q.v[l]];
                  H[q.v[i] * n + q.v[j]] += f * q.c * b * s;
               }
         }
         for( int i = 0; i < n; ++i )
            for( int j = 0; j < n; ++j ) H[i * n + j] += f * q.c * c * d[i] * d[j];
      }
   }
};
struct Ent { int i, j; double w; };

struct Prob
{
   int n, m, base;
   Func obj;
   std::vector<Func> con;
   std::vector<double> xl, xu, gl, gu, x0, zl0, zu0, lam0;
   std::vector<Ent> jac, hes;
   bool has_scaling, sx, sg, has_lin, has_nl;
   double sobj;
   std::vector<double> scx, scg;
   std::vector<int> nl;             // nonlinear variables (0-based)
   std::vector<int> vlin, clin;     // 1 = linear
   std::string domain;              // "nan" (default) or "false": what happens outside the domain
   void parse(const mj::V& p)
   {
      n = p["n"].i(); m = p["m"].i(); base = p.integer("base", 0);
      obj.parse(p["obj"]);
      con.resize(m);
      for( int i = 0; i < m; ++i ) con[i].parse(p["con"][i]);
      xl = p["xl"].vec(); xu = p["xu"].vec(); gl = p["gl"].vec(); gu = p["gu"].vec(); x0 = p["x0"].vec();
      if( p.has("zl0") ) { zl0 = p["zl0"].vec(); zu0 = p["zu0"].vec(); lam0 = p["lam0"].vec(); }
      for( auto& e : p["jac"].a ) jac.push_back(Ent{e[0].i(), e[1].i(), e[2].d()});
      for( auto& e : p["hes"].a ) hes.push_back(Ent{e[0].i(), e[1].i(), e[2].d()});
      has_scaling = p.has("scal"); sx = sg = false; sobj = 1;
      if( has_scaling )
      {
         const mj::V& s = p["scal"];
         sobj = s.num("obj", 1.);
         sx = s.has("x"); sg = s.has("g");
         if( sx ) scx = s["x"].vec();
         if( sg ) scg = s["g"].vec();
      }
      has_nl = p.has("nl");
      if( has_nl ) nl = p["nl"].ivec();
      has_lin = p.has("vlin");
      if( has_lin ) { vlin = p["vlin"].ivec(); clin = p["clin"].ivec(); }
      domain = p.string("domain", "nan");
   }
   std::vector<double> g(const double* x) const { std::vector<double> r(m); for( int i = 0; i < m; ++i ) r[i] = con[i].val(x); return r; }
   std::vector<double> gradf(const double* x) const { std::vector<double> r(n, 0.); obj.grad(x, r.data()); return r; }
   std::vector<double> densejac(const double* x) const
   {
      std::vector<double> r((size_t) n * m, 0.);
      for( int i = 0; i < m; ++i ) con[i].grad(x, r.data() + (size_t) i * n);
      return r;
   }
};

struct Fault { std::string kind, what; int k, to, pos; };

struct UserTNLP : public TNLP
{
   Prob P;
   std::vector<std::string> ev;     // recorded events of the current run
   bool record = true;
   Table *xs, *ls;
   std::vector<Fault> faults;
   std::map<std::string, int> calls;
   int iters = 0, stop_at = -1, query = 0, sleep_at = -1, nfin = 0;
   bool eliminated = true;   // fixed variables are eliminated
   double sleep_s = 0;
   bool startfail = false, nohess = false, inq = false;
   int fpos = 0;
   std::string info_fail;
   std::vector<double> fx, fzl, fzu, fg, flam;  // last final point
   UserTNLP() : xs(0), ls(0) {}
   void push(const std::string& s) { if( record ) ev.push_back(s); }

   std::string fault(const std::string& kind)
   {
      if( inq ) return "";
      int c = ++calls[kind];
      for( auto& f : faults )
         if( f.kind == kind && c >= f.k && (f.to < 0 || c <= f.to) )
         {
            fpos = f.pos;
            if( f.what == "exc" || f.what == "nlpexc" || f.what == "oom" ) push(mj::Obj().s("e", "exc").s("kind", kind).s("what", f.what).done());
            if( f.what == "exc" ) throw 42;
            if( f.what == "nlpexc" ) THROW_EXCEPTION(INVALID_TNLP, "user");
            if( f.what == "oom" ) throw std::bad_alloc();
            return f.what;
         }
      return "";
   }
   static double bad(const std::string& w) { return w == "nan" ? NAN : w == "inf" ? INFINITY : -INFINITY; }

   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st)
   {
      push(mj::Obj().s("e", "info").done());
      n = P.n; m = P.m; nj = (int) P.jac.size(); nh = (int) P.hes.size(); st = P.base ? FORTRAN_STYLE : C_STYLE;
      return fault("info") == "";
   }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu)
   {
      push(mj::Obj().s("e", "bounds").b("dim", n == P.n && m == P.m).done());
      std::copy(P.xl.begin(), P.xl.end(), xl); std::copy(P.xu.begin(), P.xu.end(), xu);
      std::copy(P.gl.begin(), P.gl.end(), gl); std::copy(P.gu.begin(), P.gu.end(), gu);
      return fault("bounds") == "";
   }
   bool get_scaling_parameters(Number& o, bool& ux, Index n, Number* x, bool& ug, Index m, Number* g)
   {
      push(mj::Obj().s("e", "scaling").b("dim", n == P.n && m == P.m).done());
      if( !P.has_scaling ) return false;
      o = P.sobj; ux = P.sx; ug = P.sg;
      if( P.sx ) std::copy(P.scx.begin(), P.scx.end(), x);
      if( P.sg ) std::copy(P.scg.begin(), P.scg.end(), g);
      return true;
   }
   bool get_variables_linearity(Index n, LinearityType* t)
   {
      push(mj::Obj().s("e", "varlin").b("dim", n == P.n).done());
      if( !P.has_lin ) return false;
      for( int i = 0; i < n; ++i ) t[i] = P.vlin[i] ? LINEAR : NON_LINEAR;
      return true;
   }
   bool get_constraints_linearity(Index m, LinearityType* t)
   {
      push(mj::Obj().s("e", "conlin").b("dim", m == P.m).done());
      if( !P.has_lin ) return false;
      for( int i = 0; i < m; ++i ) t[i] = P.clin[i] ? LINEAR : NON_LINEAR;
      return true;
   }
   Index get_number_of_nonlinear_variables() { push(mj::Obj().s("e", "nnl").done()); return P.has_nl ? (Index) P.nl.size() : -1; }
   bool get_list_of_nonlinear_variables(Index k, Index* pos)
   {
      push(mj::Obj().s("e", "nllist").b("dim", k == (Index) P.nl.size()).done());
      for( int i = 0; i < k; ++i ) pos[i] = P.nl[i] + P.base;
      return true;
   }
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam)
   {
      {
         mj::Obj o;
         o.s("e", "start").b("dim", n == P.n && m == P.m).b("ix", ix).b("iz", iz).b("il", il);
         if( (query & 32) && (int) P.x0.size() == n )
         {
            std::vector<double> x1(P.x0);
            for( int k = 0; k < n; ++k ) if( isfixed(k) && eliminated ) x1[k] = P.xl[k];
            std::vector<double> D = P.densejac(x1.data()), J((size_t) P.m * n, 0.);   // largest entry per position (positions may be repeated)
            bool fin = finite(P.gradf(x1.data()).data(), n);
            for( auto& q : P.jac )
            {
               double v = q.w == 0. ? 0. : std::fabs(q.w * D[(size_t) q.i * n + q.j]);
               fin = fin && std::isfinite(v);
               J[(size_t) q.i * n + q.j] = std::max(J[(size_t) q.i * n + q.j], v);
            }
            o.raw("udf", mj::num(P.gradf(x1.data()))).raw("uj", mj::num(J)).b("ufin", fin)
             .raw("x0", mj::num(P.x0)).raw("zl0", mj::num(P.zl0)).raw("zu0", mj::num(P.zu0)).raw("lam0", mj::num(P.lam0)).raw("ug", mj::num(P.g(x1.data())));
         }
         push(o.done());
      }
      std::string f = fault("start");
      if( f != "" ) return false;
      if( ix ) std::copy(P.x0.begin(), P.x0.end(), x);
      if( iz ) { if( P.zl0.empty() ) return false; std::copy(P.zl0.begin(), P.zl0.end(), zl); std::copy(P.zu0.begin(), P.zu0.end(), zu); }
      if( il ) { if( P.lam0.empty() && P.m ) return false; std::copy(P.lam0.begin(), P.lam0.end(), lam); }
      return true;
   }
   // one evaluation: kind, what really happened
   mj::Obj evev(const char* kind, const Number* x, bool nx, bool ok, bool fin)
   {
      return mj::Obj().s("e", kind).i("x", xs->get(x, P.n)).b("nx", nx).b("ok", ok).b("fin", fin).b("q", inq);
   }
   bool finite(const double* v, size_t n) { for( size_t i = 0; i < n; ++i ) if( !std::isfinite(v[i]) ) return false; return true; }
   bool isfixed(int i) { return P.xl[i] == P.xu[i]; }
   bool domain_fail(bool fin) { return !fin && P.domain == "false"; }
   bool eval_f(Index n, const Number* x, bool nx, Number& o)
   {
      std::string f = fault("f");
      o = P.obj.val(x);
      if( f != "" && f != "false" ) o = bad(f);
      bool ok = f != "false";
      if( !ok ) o = 12345.;
      bool fin = std::isfinite(o);
      if( domain_fail(fin) ) ok = false;
      push(evev("f", x, nx, ok, fin).b("fv", fin).b("dim", n == P.n).done());
      return ok;
   }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g)
   {
      std::string f = fault("gradf");
      std::vector<double> r = P.gradf(x);
      if( f != "" && f != "false" && n > 0 ) r[fpos % n] = bad(f);
      std::copy(r.begin(), r.end(), g);
      if( f == "false" ) std::fill(g, g + n, 12345.);
      bool fin = finite(g, n), ok = f != "false" && !domain_fail(fin);
      bool fv = true;
      for( Index i = 0; i < n; ++i ) fv = fv && (isfixed(i) || std::isfinite(g[i]));
      push(evev("gradf", x, nx, ok, fin).b("fv", fv).b("dim", n == P.n).done());
      return ok;
   }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g)
   {
      std::string f = fault("g");
      std::vector<double> r = P.g(x);
      if( f != "" && f != "false" && m > 0 ) r[fpos % m] = bad(f);
      std::copy(r.begin(), r.end(), g);
      if( f == "false" ) std::fill(g, g + m, 12345.);
      bool fin = finite(g, m), ok = f != "false" && !domain_fail(fin);
      push(evev("g", x, nx, ok, fin).b("fv", fin).b("dim", n == P.n && m == P.m).done());
      return ok;
   }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index nj, Index* ir, Index* jc, Number* v)
   {
      bool dim = n == P.n && m == P.m && nj == (Index) P.jac.size();
      if( v == NULL )
      {
         push(mj::Obj().s("e", "jacS").b("nx", nx).b("dim", dim && ir != NULL && jc != NULL && x == NULL).done());
         if( fault("jacS") != "" ) return false;
         for( size_t k = 0; k < P.jac.size(); ++k ) { ir[k] = P.jac[k].i + P.base; jc[k] = P.jac[k].j + P.base; }
         return true;
      }
      std::string f = fault("jac");
      std::vector<double> D = P.densejac(x);
      for( size_t k = 0; k < P.jac.size(); ++k ) v[k] = P.jac[k].w == 0. ? 0. : P.jac[k].w * D[(size_t) P.jac[k].i * n + P.jac[k].j];
      if( f != "" && f != "false" && nj > 0 ) v[fpos % nj] = bad(f);
      if( f == "false" ) std::fill(v, v + nj, 12345.);
      bool fin = finite(v, nj), ok = f != "false" && !domain_fail(fin);
      bool fv = true;
      for( Index k = 0; k < nj; ++k ) fv = fv && (isfixed(P.jac[k].j) || std::isfinite(v[k]));
      push(evev("jac", x, nx, ok, fin).b("fv", fv).b("dim", dim && ir == NULL && jc == NULL).done());
      return ok;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* l, bool nl, Index nh, Index* ir, Index* jc, Number* v)
   {
      bool dim = n == P.n && m == P.m && nh == (Index) P.hes.size();
      if( v == NULL )
      {
         push(mj::Obj().s("e", "hesS").b("nx", nx).b("dim", dim && ir != NULL && jc != NULL && x == NULL && l == NULL).done());
         if( fault("hesS") != "" ) return false;
         for( size_t k = 0; k < P.hes.size(); ++k ) { ir[k] = P.hes[k].i + P.base; jc[k] = P.hes[k].j + P.base; }
         return true;
      }
      std::string f = fault("hes");
      std::vector<double> H((size_t) n * n, 0.);
      P.obj.hess(x, H.data(), n, of);
      for( int i = 0; i < m; ++i ) if( l[i] != 0. ) P.con[i].hess(x, H.data(), n, l[i]);
      for( size_t k = 0; k < P.hes.size(); ++k ) v[k] = P.hes[k].w == 0. ? 0. : P.hes[k].w * H[(size_t) P.hes[k].i * n + P.hes[k].j];
      if( f != "" && f != "false" && nh > 0 ) v[fpos % nh] = bad(f);
      if( f == "false" ) std::fill(v, v + nh, 12345.);
      bool fin = finite(v, nh), ok = f != "false" && !domain_fail(fin);
      bool fv = true;
      for( Index k = 0; k < nh; ++k ) fv = fv && (isfixed(P.hes[k].i) || isfixed(P.hes[k].j) || std::isfinite(v[k]));
      push(evev("hes", x, nx, ok, fin).b("fv", fv).b("dim", dim && ir == NULL && jc == NULL).i("l", ls->get(l, m)).b("nl", nl).d("of", of).done());
      return ok;
   }
   // extra information about the iterate, added to the iteration event
   virtual void iterate(mj::Obj&, AlgorithmMode, const IpoptData*, IpoptCalculatedQuantities*) {}
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number o, Number pr, Number du, Number mu, Number dn, Number reg,
                              Number ad, Number ap, Index lst, const IpoptData* d, IpoptCalculatedQuantities* q)
   {
      ++iters;
      bool ret = iters != stop_at;
      mj::Obj e;
      e.s("e", "iter").i("mode", mode == RestorationPhaseMode ? 1 : 0).i("it", iter).d("obj", o).d("pr", pr).d("du", du).d("mu", mu)
       .d("dn", dn).d("reg", reg).d("ad", ad).d("ap", ap).i("ls", lst).b("ret", ret);
      inq = true;
      if( query ) iterate(e, mode, d, q);
      inq = false;
      push(e.done());
      if( iters == sleep_at ) usleep((useconds_t)(1e6 * sleep_s));
      fault("iter");
      return ret;
   }
   void finalize_solution(SolverReturn st, Index n, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g,
                          const Number* lam, Number o, const IpoptData*, IpoptCalculatedQuantities*)
   {
      ++nfin;
      fx.assign(x, x + n); fzl.assign(zl, zl + n); fzu.assign(zu, zu + n); fg.assign(g, g + m); flam.assign(lam, lam + m);
      std::vector<double> gx = P.g(x), df = P.gradf(x), J = P.densejac(x);
      push(mj::Obj().s("e", "final").i("st", (int) st).b("dim", n == P.n && m == P.m).i("x", xs->get(x, n)).raw("zl", mj::num(zl, n)).raw("zu", mj::num(zu, n))
           .raw("g", mj::num(g, m)).raw("lam", mj::num(lam, m)).d("obj", o).d("uf", P.obj.val(x)).raw("ug", mj::num(gx)).raw("udf", mj::num(df)).raw("uj", mj::num(J)).done());
   }
};
