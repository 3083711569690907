// Runs the derivative checker of TNLPAdapter on problems with deliberately wrong derivatives (spec/Deriv.tla).
#include "userprob.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
#include <sstream>

struct Err { int k, con; double d; };   // entry, function (-1: objective), error added per unit of multiplier
struct BadTNLP : public UserTNLP
{
   std::vector<Err> eg, ej, eh;
   std::vector<double> xref;
   bool eval_f(Index n, const Number* x, bool nx, Number& o)
   {
      if( xref.empty() ) xref.assign(x, x + n);
      return UserTNLP::eval_f(n, x, nx, o);
   }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g)
   {
      bool r = UserTNLP::eval_grad_f(n, x, nx, g);
      for( auto& e : eg ) g[e.k] += e.d;
      return r;
   }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index nj, Index* ir, Index* jc, Number* v)
   {
      bool r = UserTNLP::eval_jac_g(n, x, nx, m, nj, ir, jc, v);
      if( v ) for( auto& e : ej ) v[e.k] += e.d;
      return r;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* l, bool nl, Index nh, Index* ir, Index* jc, Number* v)
   {
      bool r = UserTNLP::eval_h(n, x, nx, of, m, l, nl, nh, ir, jc, v);
      if( v ) for( auto& e : eh ) { double f = e.con < 0 ? of : l[e.con]; if( f != 0. ) v[e.k] += e.d * f; }
      return r;
   }
};
static void errs(std::vector<Err>& v, const mj::V& a) { for( auto& e : a.a ) v.push_back(Err{e[0].i(), e[1].i(), e[2].d()}); }

int main()
{
   std::string line;
   while( std::getline(std::cin, line) && !line.empty() )
   {
      mj::V c = mj::parse(line);
      Table xs, ls;
      mj::Obj out;
      out.i("id", c["id"].i());
      {
         SmartPtr<IpoptApplication> app = new IpoptApplication(false);
         for( auto& o : c["opts"].a ) app->Options()->SetStringValue(o[0].s, o[1].s, true, false);
         for( auto& o : c["nopts"].a ) app->Options()->SetNumericValue(o[0].s, o[1].d());
         for( auto& o : c["iopts"].a ) app->Options()->SetIntegerValue(o[0].s, o[1].i());
         std::ostringstream os;
         SmartPtr<StreamJournal> J = new StreamJournal("d", J_NONE);
         J->SetOutputStream(&os);
         J->SetPrintLevel(J_NLP, J_WARNING);
         app->Jnlst()->AddJournal(GetRawPtr(J));
         SmartPtr<BadTNLP> t = new BadTNLP();
         t->xs = &xs; t->ls = &ls;
         t->P.parse(c["prob"]);
         errs(t->eg, c["eg"]); errs(t->ej, c["ej"]); errs(t->eh, c["eh"]);
         const Prob& P = t->P;
         SmartPtr<TNLPAdapter> A = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst()));
         A->ProcessOptions(*app->Options(), "");
         SmartPtr<const VectorSpace> xsp, csp, dsp, xl, xu, dl, du;
         SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jc, jd;
         SmartPtr<const SymMatrixSpace> hs;
         std::string rej;
         try { A->GetSpaces(xsp, csp, dsp, xl, pxl, xu, pxu, dl, pdl, du, pdu, jc, jd, hs); }
         catch( IpoptException& ex ) { rej = ex.Message(); }
         out.s("rej", rej).s("out", os.str());
         // the user's functions and derivatives where the test was made
         t->record = false;
         std::vector<double> x = t->xref;
         double pert = c["pert"].d();
         std::string tab = "[";
         int nj = (int) P.jac.size(), nh = (int) P.hes.size();
         for( int i = -1; i < P.n && !x.empty(); ++i )
         {
            std::vector<double> y = x, g(P.m), df(P.n), jv(nj);
            if( i >= 0 ) y[i] = x[i] + pert * std::max(1., std::fabs(x[i]));
            Number f;
            t->eval_f(P.n, y.data(), true, f);
            t->eval_g(P.n, y.data(), false, P.m, g.data());
            t->eval_grad_f(P.n, y.data(), false, df.data());
            t->eval_jac_g(P.n, y.data(), false, P.m, nj, NULL, NULL, jv.data());
            mj::Obj o;
            o.raw("x", mj::num(y)).d("f", f).raw("g", mj::num(g)).raw("df", mj::num(df)).raw("jv", mj::num(jv));
            if( i < 0 )
            {
               std::string h = "[";
               for( int k = -1; k < P.m; ++k )
               {
                  std::vector<double> l(P.m, 0.), hv(nh);
                  if( k >= 0 ) l[k] = 1.5;
                  t->eval_h(P.n, x.data(), false, k < 0 ? 1.5 : 0., P.m, l.data(), true, nh, NULL, NULL, hv.data());
                  h += (k < 0 ? "" : ",") + mj::num(hv);
               }
               o.raw("hv", h + "]");
            }
            tab += (i < 0 ? "" : ",") + o.done();
         }
         out.raw("tab", tab + "]");
      }
      std::cout << out.done() << std::endl;
   }
}
