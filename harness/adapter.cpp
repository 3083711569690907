// Drives the real TNLPAdapter through the NLP interface and records what it makes of the user's problem (spec/Adapter.tla).
#include "userprob.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpNLPBoundsRemover.hpp"
#include "IpTNLPReducer.hpp"
#include "IpTripletHelper.hpp"

static std::string expos(const SmartPtr<const MatrixSpace>& s)
{
   const ExpansionMatrixSpace* e = dynamic_cast<const ExpansionMatrixSpace*>(GetRawPtr(s));
   std::vector<int> r;
   if( !e ) return "[-1]";
   for( Index i = 0; i < e->NCols(); ++i ) r.push_back(e->ExpandedPosIndices()[i] + 1);
   return mj::ints(r);
}
static void setd(Vector& v, const double* a)
{
   if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) )
      for( Index i = 0; i < c->NComps(); ++i )
      {
         setd(*c->GetCompNonConst(i), a);
         a += c->GetComp(i)->Dim();
      }
   else if( v.Dim() ) std::copy(a, a + v.Dim(), dynamic_cast<DenseVector&>(v).Values());
}
// rows of the single ones of a selection matrix
static std::string selpos(const Matrix& M, const VectorSpace& cs, const VectorSpace& rs)
{
   std::vector<double> num(M.NRows());
   for( size_t i = 0; i < num.size(); ++i ) num[i] = i + 1;
   SmartPtr<Vector> y = rs.MakeNew(), e = cs.MakeNew();
   setd(*y, num.data());
   M.TransMultVector(1., *y, 0., *e);
   std::vector<double> r = dense(*e);
   return mj::ints(std::vector<int>(r.begin(), r.end()));
}
static std::string densemat(const Matrix& M, const VectorSpace& cs, const VectorSpace& rs)
{
   std::vector<double> r((size_t) M.NRows() * M.NCols());
   SmartPtr<DenseVector> e = dynamic_cast<DenseVector*>(cs.MakeNew());
   SmartPtr<Vector> y = rs.MakeNew();
   for( Index j = 0; j < M.NCols(); ++j )
   {
      e->Set(0.);
      e->Values()[j] = 1.;
      M.MultVector(1., *e, 0., *y);
      std::vector<double> c = dense(*y);
      for( Index i = 0; i < M.NRows(); ++i ) r[(size_t) i * M.NCols() + j] = c[i];
   }
   return mj::num(r);
}
static void setv(Vector& v, const mj::V& a, size_t off)
{
   std::vector<double> p(v.Dim());
   for( Index i = 0; i < v.Dim(); ++i ) p[i] = a[(off + i) % a.size()].d();
   setd(v, p.data());
}

int main()
{
   std::string line;
   while( std::getline(std::cin, line) && !line.empty() )
   {
      mj::V c = mj::parse(line);
      Table xs, ls;
      std::vector<std::string> evs;
      {
         SmartPtr<IpoptApplication> app = new IpoptApplication(false);
         app->Options()->SetIntegerValue("print_level", 0);
         for( auto& o : c["opts"].a ) app->Options()->SetStringValue(o[0].s, o[1].s, true, false);
         for( auto& o : c["nopts"].a ) app->Options()->SetNumericValue(o[0].s, o[1].d());
         SmartPtr<UserTNLP> t = new UserTNLP();
         t->xs = &xs; t->ls = &ls;
         t->P.parse(c["prob"]);
         const Prob& P = t->P;
         // optionally: some constraints and bounds dropped, variables fixed to their starting values
         SmartPtr<TNLP> ut = GetRawPtr(t);
         std::vector<double> exl = P.xl, exu = P.xu;
         if( c.has("reduce") )
         {
            std::vector<int> r[4];
            const char* nm[] = {"g", "xl", "xu", "fix"};
            for( int q = 0; q < 4; ++q )
            {
               r[q] = c["reduce"][nm[q]].ivec();
               for( int k : r[q] )
               {
                  if( q == 1 ) exl[k] = -std::numeric_limits<double>::max();
                  if( q == 2 ) exu[k] = std::numeric_limits<double>::max();
                  if( q == 3 ) exl[k] = exu[k] = P.x0[k];
               }
               for( int& k : r[q] ) k += P.base;
               r[q].push_back(-1);
            }
            ut = new TNLPReducer(*t, r[0].size() - 1, r[0].data(), r[1].size() - 1, r[1].data(), r[2].size() - 1, r[2].data(), r[3].size() - 1, r[3].data());
         }
         SmartPtr<TNLPAdapter> ta = new TNLPAdapter(GetRawPtr(ut), ConstPtr(app->Jnlst()));
         // optionally: bounds replaced by inequality constraints
         SmartPtr<NLP> A = GetRawPtr(ta);
         bool nb = c.integer("nobounds", 0);
         if( nb ) A = new NLPBoundsRemover(*ta);
         A->ProcessOptions(*app->Options(), "");
         for( int round = 0; round < c.integer("rounds", 1); ++round )
         {
            SmartPtr<const VectorSpace> xsp, csp, dsp, xl, xu, dl, du;
            SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jc, jd;
            SmartPtr<const SymMatrixSpace> hs;
            mj::Obj s;
            s.s("e", "spaces");
            const char* rej = "";
            try { A->GetSpaces(xsp, csp, dsp, xl, pxl, xu, pxu, dl, pdl, du, pdu, jc, jd, hs); }
            catch( INCONSISTENT_BOUNDS& ) { rej = "inconsistent"; }
            catch( IpoptException& ex ) { rej = "other"; }
            s.s("rej", rej);
            if( *rej ) { evs.push_back(s.done()); break; }
            s.i("nx", xsp->Dim()).i("nc", csp->Dim()).i("nd", dsp->Dim());
            if( !nb ) s.raw("pxl", expos(pxl)).raw("pxu", expos(pxu)).raw("pdl", expos(pdl)).raw("pdu", expos(pdu));
            s
             .i("jcr", jc->NRows()).i("jcc", jc->NCols()).i("jdr", jd->NRows()).i("jdc", jd->NCols()).i("h", hs->Dim());
            SmartPtr<Vector> bxl = xl->MakeNew(), bxu = xu->MakeNew(), bdl = dl->MakeNew(), bdu = du->MakeNew();
            SmartPtr<Matrix> Mxl = pxl->MakeNew(), Mxu = pxu->MakeNew(), Mdl = pdl->MakeNew(), Mdu = pdu->MakeNew();
            if( nb ) s.raw("pxl", selpos(*Mxl, *xl, *xsp)).raw("pxu", selpos(*Mxu, *xu, *xsp)).raw("pdl", selpos(*Mdl, *dl, *dsp)).raw("pdu", selpos(*Mdu, *du, *dsp));
            const char* brej = "";
            bool bok = false;
            try { bok = A->GetBoundsInformation(*Mxl, *bxl, *Mxu, *bxu, *Mdl, *bdl, *Mdu, *bdu); }
            catch( NLP::INVALID_NLP& ) { brej = "invalid"; }
            s.s("brej", brej).b("bok", bok);
            if( *brej ) { evs.push_back(s.done()); break; }
            s.raw("xl", dnum(GetRawPtr(bxl))).raw("xu", dnum(GetRawPtr(bxu))).raw("dl", dnum(GetRawPtr(bdl))).raw("du", dnum(GetRawPtr(bdu)));
            SmartPtr<VectorSpace> aps; SmartPtr<Matrix> Pa;
            A->GetQuasiNewtonApproximationSpaces(aps, Pa);
            s.raw("approx", IsValid(Pa) ? expos(Pa->OwnerSpace()) : "[-1]").i("apdim", IsValid(aps) ? aps->Dim() : -1);
            if( P.has_scaling )
            {
               Number so = 0; SmartPtr<Vector> sx, sc, sd;
               A->GetScalingParameters(xsp, csp, dsp, so, sx, sc, sd);
               s.d("so", so).raw("sx", IsValid(sx) ? dnum(GetRawPtr(sx)) : "[\"none\"]").raw("sc", IsValid(sc) ? dnum(GetRawPtr(sc)) : "[\"none\"]").raw("sd", IsValid(sd) ? dnum(GetRawPtr(sd)) : "[\"none\"]");
            }
            evs.push_back(s.done());
            SmartPtr<Matrix> Jc = jc->MakeNew(), Jd = jd->MakeNew();
            SmartPtr<SymMatrix> H = hs->MakeNewSymMatrix();
            std::vector<SmartPtr<DenseVector> > X;
            const mj::V& pts = c["pts"];
            for( size_t k = 0; k < pts.size(); ++k )
            {
               X.push_back(dynamic_cast<DenseVector*>(xsp->MakeNew()));
               setv(*X[k], pts[k], 0);
            }
            const mj::V& num = c["nums"];
            size_t off = 0;
            for( auto& op : c["ops"].a )
            {
               std::string n = op[0].s;
               int k = op[1].i();
               t->ev.clear();
               size_t nxs = xs.v.size();
               mj::Obj e;
               e.s("e", n);
               if( n == "change" ) { setv(*X[k], num, off); off += 3; e.s("e", "skip"); evs.push_back(e.done()); continue; }
               const DenseVector& x = *X[k];
               e.raw("x", dnum(X[k]));
               bool ok = true;
               if( n == "f" ) { Number v = 0; ok = A->Eval_f(x, v); e.d("v", v); }
               else if( n == "gradf" ) { SmartPtr<Vector> g = xsp->MakeNew(); ok = A->Eval_grad_f(x, *g); e.raw("v", dnum(GetRawPtr(g))); }
               else if( n == "c" ) { SmartPtr<Vector> g = csp->MakeNew(); ok = A->Eval_c(x, *g); e.raw("v", dnum(GetRawPtr(g))); }
               else if( n == "d" ) { SmartPtr<Vector> g = dsp->MakeNew(); ok = A->Eval_d(x, *g); e.raw("v", dnum(GetRawPtr(g))); }
               else if( n == "jc" ) { ok = A->Eval_jac_c(x, *Jc); e.raw("v", densemat(*Jc, *xsp, *csp)); }
               else if( n == "jd" ) { ok = A->Eval_jac_d(x, *Jd); e.raw("v", densemat(*Jd, *xsp, *dsp)); }
               else if( n == "h" )
               {
                  SmartPtr<Vector> yc = csp->MakeNew(), yd = dsp->MakeNew();
                  setv(*yc, num, off); setv(*yd, num, off + 2); off += 5;
                  Number of = num[off % num.size()].d();
                  ok = A->Eval_h(x, of, *yc, *yd, *H);
                  e.raw("yc", dnum(GetRawPtr(yc))).raw("yd", dnum(GetRawPtr(yd))).d("of", of).raw("v", densemat(*H, *xsp, *xsp));
               }
               else if( n == "start" )
               {
                  int w = op[2].i();
                  SmartPtr<Vector> sx = xsp->MakeNew(), yc = csp->MakeNew(), yd = dsp->MakeNew(), zl = xl->MakeNew(), zu = xu->MakeNew();
                  sx->Set(77.); yc->Set(77.); yd->Set(77.); zl->Set(77.); zu->Set(77.);
                  // values are handed over only if asked for
                  ok = A->GetStartingPoint(w & 1 ? sx : NULL, w & 1, w & 2 ? yc : NULL, w & 2, w & 4 ? yd : NULL, w & 4, w & 8 ? zl : NULL, w & 8, w & 16 ? zu : NULL, w & 16);
                  e.i("w", w).raw("sx", dnum(GetRawPtr(sx))).raw("yc", dnum(GetRawPtr(yc))).raw("yd", dnum(GetRawPtr(yd))).raw("zl", dnum(GetRawPtr(zl))).raw("zu", dnum(GetRawPtr(zu)));
               }
               else if( n == "final" )
               {
                  SmartPtr<Vector> cc = csp->MakeNew(), dd = dsp->MakeNew(), yc = csp->MakeNew(), yd = dsp->MakeNew(), zl = xl->MakeNew(), zu = xu->MakeNew();
                  setv(*yc, num, off); setv(*yd, num, off + 2); setv(*zl, num, off + 3); setv(*zu, num, off + 5); off += 7;
                  A->Eval_c(x, *cc); A->Eval_d(x, *dd);
                  t->ev.clear();
                  A->FinalizeSolution(SUCCESS, x, *zl, *zu, *cc, *dd, *yc, *yd, 42., NULL, NULL);
                  e.raw("yc", dnum(GetRawPtr(yc))).raw("yd", dnum(GetRawPtr(yd))).raw("zl", dnum(GetRawPtr(zl))).raw("zu", dnum(GetRawPtr(zu)));
                  e.raw("fx", mj::num(t->fx)).raw("fzl", mj::num(t->fzl)).raw("fzu", mj::num(t->fzu)).raw("fg", mj::num(t->fg)).raw("flam", mj::num(t->flam)).i("nfin", t->nfin);
                  t->nfin = 0;
                  e.raw("ux", mj::num(t->fx)).raw("ug", mj::num(P.g(t->fx.data()))).raw("udf", mj::num(P.gradf(t->fx.data()))).raw("uj", mj::num(P.densejac(t->fx.data())));
               }
               e.b("ok", ok);
               if( n != "start" && n != "final" )
               {
                  std::string np = "[";   // points evaluated for the first time
                  for( size_t i = nxs; i < xs.v.size(); ++i ) np += (i > nxs ? "," : "") + mj::num(xs.v[i]);
                  e.raw("np", np + "]");
                  // the user's functions at the user's point of x (the specification checks that it is that point)
                  std::vector<double> u(P.n);
                  bool elim = x.Dim() < P.n;
                  std::vector<double> xv = dense(x);
                  for( int i = 0, j = 0; i < P.n; ++i ) u[i] = elim && exl[i] == exu[i] ? exl[i] : xv[j++];
                  e.raw("ux", mj::num(u)).d("uf", P.obj.val(u.data())).raw("udf", mj::num(P.gradf(u.data()))).raw("ug", mj::num(P.g(u.data()))).raw("uj", mj::num(P.densejac(u.data())));
                  if( n == "h" )
                  {
                     std::vector<double> h((size_t) P.n * P.n, 0.);
                     P.obj.hess(u.data(), h.data(), P.n, 1.);
                     e.raw("uho", mj::num(h));
                     std::string a = "[";
                     for( int i = 0; i < P.m; ++i )
                     {
                        std::fill(h.begin(), h.end(), 0.);
                        P.con[i].hess(u.data(), h.data(), P.n, 1.);
                        a += (i ? "," : "") + mj::num(h);
                     }
                     e.raw("uhc", a + "]");
                  }
               }
               evs.push_back(e.done());
            }
         }
      }
      std::string out = "[";
      for( size_t i = 0; i < evs.size(); ++i ) out += (i ? "," : "") + evs[i];
      std::cout << mj::Obj().i("id", c["id"].i()).raw("ev", out + "]").done() << "\n" << std::flush;
   }
   return 0;
}
