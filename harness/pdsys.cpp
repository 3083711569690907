// Replays PdSystem.tla: the real PDFullSpaceSolver and PDPerturbationHandler on top of a scripted augmented system solver.
#include "mini_json.hpp"
#include "userprob.hpp"
#include "IpPDFullSpaceSolver.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpAugSystemSolver.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseVector.hpp"
#include "IpTripletHelper.hpp"
#include "IpAlgBuilder.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
using namespace Ipopt;
typedef std::vector<long double> LV;
static std::string num(double v) { char b[60]; snprintf(b, 60, "\"%.17g\"", v); return b; }
struct More { };
class P3: public TNLP
{
public:
   int m; bool eq;
   P3(int mm, bool e) : m(mm), eq(e) { }
   bool get_nlp_info(Index& n, Index& mm, Index& nj, Index& nh, IndexStyleEnum& st) { n = 3; mm = m; nj = 3 * m; nh = 6; st = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* l, Number* u, Index, Number* gl, Number* gu)
   {
      l[0] = 0; u[0] = 1e20; l[1] = -1e20; u[1] = 4; l[2] = -1; u[2] = 5;
      if( m ) { gl[0] = gu[0] = 1; gl[1] = eq ? 2 : -20; gu[1] = eq ? 2 : 20; }
      return true;
   }
   bool get_starting_point(Index, bool, Number* x, bool, Number*, Number*, Index, bool, Number*) { x[0] = x[1] = x[2] = 1; return true; }
   bool eval_f(Index, const Number* x, bool, Number& f) { f = x[0]; return true; }
   bool eval_grad_f(Index, const Number*, bool, Number* g) { g[0] = 1; g[1] = g[2] = 0; return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) { if( m ) { g[0] = x[0] * x[0] + x[1] - 2 * x[2]; g[1] = x[0] - x[1] * x[1] + .5 * x[2]; } return true; }
   bool eval_jac_g(Index, const Number* x, bool, Index, Index, Index* ir, Index* jc, Number* v)
   {
      if( !v ) { for( int k = 0; k < 3 * m; k++ ) { ir[k] = k / 3; jc[k] = k % 3; } }
      else if( m ) { v[0] = 2 * x[0]; v[1] = 1; v[2] = -2; v[3] = 1; v[4] = -2 * x[1]; v[5] = .5; }
      return true;
   }
   bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index* ir, Index* jc, Number* v)
   {
      int k = 0;
      for( int i = 0; i < 3; i++ ) for( int j = 0; j <= i; j++, k++ ) { if( v ) v[k] = i == j; else { ir[k] = i; jc[k] = j; } }
      return true;
   }
   void finalize_solution(SolverReturn, Index, const Number*, const Number*, const Number*, Index, const Number*, const Number*, Number, const IpoptData*, IpoptCalculatedQuantities*) { }
};
static LV get(const Vector& v) { LV r; for( double d : dense(v) ) r.push_back(d); return r; }
static void put(const LV& a, size_t& o, Vector& v) { std::vector<double> t(v.Dim() + 1); for( int i = 0; i < v.Dim(); i++ ) t[i] = a[o++]; if( v.Dim() ) TripletHelper::PutValuesInVector(v.Dim(), t.data(), v); }
static bool gauss(std::vector<LV> A, LV b, LV& x)
{
   int n = b.size();
   for( int k = 0; k < n; k++ )
   {
      int p = k;
      for( int i = k + 1; i < n; i++ ) if( fabsl(A[i][k]) > fabsl(A[p][k]) ) p = i;
      if( A[p][k] == 0 ) return false;
      std::swap(A[p], A[k]); std::swap(b[p], b[k]);
      for( int i = k + 1; i < n; i++ ) { long double f = A[i][k] / A[k][k]; if( f != 0 ) { for( int j = k; j < n; j++ ) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } }
   }
   x.assign(n, 0);
   for( int k = n - 1; k >= 0; k-- ) { long double s = b[k]; for( int j = k + 1; j < n; j++ ) s -= A[k][j] * x[j]; x[k] = s / A[k][k]; }
   return true;
}
class Aug: public AugSystemSolver
{
public:
   const mj::V *ans, *qs; size_t ia, iq; int nr, neg; std::string calls;
   Aug() : ans(NULL), qs(NULL), ia(0), iq(0), nr(0), neg(0) { }
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus Solve(const SymMatrix* W, Number Wf, const Vector* Dx, Number dx, const Vector* Ds, Number ds, const Matrix* Jc, const Vector* Dc, Number dc,
                          const Matrix* Jd, const Vector* Dd, Number dd, const Vector& rx, const Vector& rs, const Vector& rc, const Vector& rd,
                          Vector& sx, Vector& ss, Vector& sc, Vector& sd, bool chk, Index nn)
   {
      auto two = [](double a, double b) { return a == b ? num(a) : "\"" + num(a).substr(1, num(a).size() - 2) + "/" + num(b).substr(1); };
      calls += (calls.size() ? "," : "") + mj::Obj().raw("dx", two(dx, ds)).raw("dc", two(dc, dd)).raw("chk", chk ? "true" : "false").i("nr", nn).done();
      if( ia >= ans->size() ) throw More();
      const mj::V& a = (*ans)[ia++];
      neg = nr + a["neg"].i();
      std::string st = a["st"].s;
      if( st != "success" ) return st == "singular" ? SYMSOLVER_SINGULAR : st == "wrong" ? SYMSOLVER_WRONG_INERTIA : SYMSOLVER_FATAL_ERROR;
      int k = a["k"].i();
      LV b; for( const Vector* v : {&rx, &rs, &rc, &rd} ) for( long double d : get(*v) ) b.push_back(d);
      int N = b.size(), nx = rx.Dim(), ns = rs.Dim();
      std::vector<LV> A(N, LV(N, 0));
      for( int j = 0; j < N; j++ )
      {
         SmartPtr<Vector> vx = rx.MakeNew(), vs = rs.MakeNew(), vc = rc.MakeNew(), vd = rd.MakeNew();
         SmartPtr<Vector> ox = rx.MakeNew(), os = rs.MakeNew(), oc = rc.MakeNew(), od = rd.MakeNew();
         LV e(N, 0); e[j] = 1; size_t o = 0;
         put(e, o, *vx); put(e, o, *vs); put(e, o, *vc); put(e, o, *vd);
         if( W ) W->MultVector(Wf, *vx, 0., *ox); else ox->Set(0.);
         ox->Axpy(dx, *vx);
         if( Dx ) { SmartPtr<Vector> t = vx->MakeNewCopy(); t->ElementWiseMultiply(*Dx); ox->Axpy(1., *t); }
         Jc->TransMultVector(1., *vc, 1., *ox); Jd->TransMultVector(1., *vd, 1., *ox);
         os->Set(0.); os->Axpy(ds, *vs); if( Ds ) { SmartPtr<Vector> t = vs->MakeNewCopy(); t->ElementWiseMultiply(*Ds); os->Axpy(1., *t); }
         os->Axpy(-1., *vd);
         Jc->MultVector(1., *vx, 0., *oc); oc->Axpy(-dc, *vc); if( Dc ) { SmartPtr<Vector> t = vc->MakeNewCopy(); t->ElementWiseMultiply(*Dc); oc->Axpy(1., *t); }
         Jd->MultVector(1., *vx, 0., *od); od->Axpy(-dd, *vd); od->Axpy(-1., *vs); if( Dd ) { SmartPtr<Vector> t = vd->MakeNewCopy(); t->ElementWiseMultiply(*Dd); od->Axpy(1., *t); }
         int i = 0; for( const Vector* v : {GetRawPtr(ox), GetRawPtr(os), GetRawPtr(oc), GetRawPtr(od)} ) for( long double d : get(*v) ) A[i++][j] = d;
      }
      LV x; gauss(A, b, x);
      (void) nx; (void) ns;
      if( k == 0 ) x.assign(N, 0); else if( k == 4 ) for( auto& d : x ) d *= 1 + 1e-4L;
      size_t o = 0; put(x, o, sx); put(x, o, ss); put(x, o, sc); put(x, o, sd);
      return SYMSOLVER_SUCCESS;
   }
   Index NumberOfNegEVals() const { return neg; }
   bool ProvidesInertia() const { return true; }
   bool IncreaseQuality() { if( iq >= qs->size() ) throw More(); return (*qs)[iq++].b(); }
};
int main()
{
   IpoptApplication app(false, false);
   SmartPtr<Journalist> jnl = new Journalist();
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      const mj::V& ops = c["ops"];
      const mj::V& oo = ops[0]["a"]["o"]; int m = ops[0]["a"]["nr"].i();
      SmartPtr<OptionsList> opt = new OptionsList(*app.Options());
      auto setn = [&](const char* n, const mj::V& v) { opt->SetNumericValue(n, atof(v.s.c_str())); };
      setn("first_hessian_perturbation", oo["init"]); setn("max_hessian_perturbation", oo["max"]); setn("min_hessian_perturbation", oo["min"]);
      setn("perturb_dec_fact", oo["dec"]); setn("perturb_inc_fact", oo["inc"]); setn("perturb_inc_fact_first", oo["inc1"]);
      setn("jacobian_regularization_value", oo["cd"]); setn("jacobian_regularization_exponent", oo["exp"]);
      opt->SetStringValue("perturb_always_cd", oo["always"].b() ? "yes" : "no");
      opt->SetIntegerValue("min_refinement_steps", oo["minref"].i()); opt->SetIntegerValue("max_refinement_steps", oo["maxref"].i());
      opt->SetNumericValue("residual_ratio_max", 1e-10); opt->SetNumericValue("residual_ratio_singular", 1e-6);
      opt->SetNumericValue("residual_improvement_factor", oo["strict"].b() ? 1e-5 : .99);
      if( oo["curv"].s != "off" ) { opt->SetNumericValue("neg_curv_test_tol", 1e-11); opt->SetStringValue("neg_curv_test_reg", oo["curv"].s == "reg" ? "yes" : "no"); }
      SmartPtr<NLP> nlp = new TNLPAdapter(new P3(m, oo["curv"].s != "off"), ConstPtr(jnl));
      SmartPtr<AlgorithmBuilder> bld = new AlgorithmBuilder();
      SmartPtr<IpoptNLP> ipnlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq;
      bld->BuildIpoptObjects(*jnl, *opt, "", nlp, ipnlp, data, cq);
      ipnlp->Initialize(*jnl, *opt, ""); data->Initialize(*jnl, *opt, ""); cq->Initialize(*jnl, *opt, "");
      data->InitializeDataStructures(*ipnlp, true, false, false, false, false);
      int ver[8] = {0}, wver = 0; int sgn = 1;
      auto iter = [&](int which)
      {
         SmartPtr<const IteratesVector> cur = data->curr();
         SmartPtr<IteratesVector> it = cur->MakeNewContainer();
         const double base[8][3] = {{1, 2, 1.5}, {.5}, {.3}, {-.7}, {1, .5}, {.8, 1.2}, {.6}, {.9}};
         for( int k = 0; k < 8; k++ )
            if( which < 0 || which == k )
            {
               SmartPtr<Vector> v = cur->GetComp(k)->MakeNew();
               ver[k]++;
               LV a; for( int i = 0; i < v->Dim(); i++ ) a.push_back(base[k][i % 3] * (1 + .25 * ((ver[k] * 3 + i) % 4)));
               size_t o = 0; put(a, o, *v);
               it->SetComp(k, *v);
            }
         data->set_trial(it); data->AcceptTrialPoint();
      };
      SmartPtr<const SymMatrixSpace> ws = ipnlp->HessianMatrixSpace();
      auto setW = [&]()
      {
         SmartPtr<SymMatrix> W = ws->MakeNewSymMatrix();
         SymTMatrix* T = dynamic_cast<SymTMatrix*>(GetRawPtr(W));
         wver++;
         double f = sgn > 0 ? 1 : -3e5, g = 1 + .125 * (wver % 5), v[6] = {f * 2.3 * g, f * .2, f * 1.9 * g, f * -.1, f * .3, f * 2.7};
         T->SetValues(v);
         data->Set_W(GetRawPtr(W));
      };
      iter(-1); setW();
      data->Set_mu(.0625); data->setPDPert(0., 0., 0., 0.);
      SmartPtr<PDPerturbationHandler> ph = new PDPerturbationHandler();
      SmartPtr<Aug> aug = new Aug(); aug->nr = m;
      SmartPtr<PDFullSpaceSolver> pd = new PDFullSpaceSolver(*aug, *ph);
      pd->Initialize(*jnl, *ipnlp, *data, *cq, *opt, "");
      data->ResetInfo();
      SmartPtr<IteratesVector> last;
      bool big = atof(oo["max"].s.c_str()) > 100.;
      std::string out = "[0"; bool dead = false;
      for( size_t q = 1; q < ops.size() && !dead; q++ )
      {
         const mj::V& a = ops[q]["a"]; std::string r = "0";
         if( ops[q]["op"].s == "change" )
         {
            std::string w = a["w"].s;
            data->ResetInfo();
            data->Set_mu(atof(a["mu"].s.c_str()));
            if( w == "flip" ) { sgn = -sgn; setW(); }
            else if( w == "W" ) setW();
            else if( w == "all" ) { iter(-1); setW(); }
            else { const char* n[8] = {"x", "s", "y", "yd", "zL", "zU", "vL", "vU"}; for( int k = 0; k < 8; k++ ) if( w == n[k] ) iter(k); }
         }
         else
         {
            SmartPtr<IteratesVector> rhs = data->curr()->MakeNewIteratesVector(true), res = data->curr()->MakeNewIteratesVector(true);
            const double rv[8][3] = {{1, -.5, .7}, {.4}, {big ? 0. : .3}, {big ? 0. : -.2}, {.5, .6}, {-.4, .3}, {.2}, {.7}};
            LV ro;
            for( int k = 0; k < 8; k++ ) { LV t; SmartPtr<Vector> v = rhs->GetCompNonConst(k); for( int i = 0; i < v->Dim(); i++ ) t.push_back(rv[k][i]); size_t o = 0; put(t, o, *v); ro.insert(ro.end(), t.begin(), t.end()); }
            double off = big ? 1e-9 : .5; // (small steps must keep their digits)
            bool imp = a["improve"].b(); double al = a["alpha"].d(), be = a["beta"].d();
            if( imp ) res->Copy(*last); else if( be != 0 ) res->Set(off); else res->Set(-777.);
            aug->ans = &a["ans"]; aug->qs = &a["qs"]; aug->ia = aug->iq = 0; aug->calls = "";
            std::string st;
            try { st = pd->Solve(al, be, *rhs, *res, a["inexact"].b(), imp) ? "ok" : "fail"; }
            catch( More& ) { st = "more requests"; dead = true; }
            catch( IpoptException& e ) { st = "exc"; }
            Number px, ps, pc, pdd; data->getPDPert(px, ps, pc, pdd);
            if( px != ps || pc != pdd ) st += " perturbations differ";
            int dig = -1;
            if( st == "ok" )
            {
               // the unreduced system
               SmartPtr<const SymMatrix> W = data->W();
               int N = ro.size(); std::vector<LV> A(N, LV(N, 0));
               for( int j = 0; j < N; j++ )
               {
                  SmartPtr<IteratesVector> e = rhs->MakeNewIteratesVector(true), p = rhs->MakeNewIteratesVector(true);
                  LV u(N, 0); u[j] = 1; size_t o = 0; for( int k = 0; k < 8; k++ ) { SmartPtr<Vector> v = e->GetCompNonConst(k); put(u, o, *v); }
                  SmartPtr<Vector> X = p->x_NonConst(), S = p->s_NonConst(), C = p->y_c_NonConst(), D = p->y_d_NonConst();
                  W->MultVector(1., *e->x(), 0., *X); X->Axpy(px, *e->x());
                  cq->curr_jac_c()->TransMultVector(1., *e->y_c(), 1., *X); cq->curr_jac_d()->TransMultVector(1., *e->y_d(), 1., *X);
                  ipnlp->Px_L()->MultVector(-1., *e->z_L(), 1., *X); ipnlp->Px_U()->MultVector(1., *e->z_U(), 1., *X);
                  S->Set(0.); S->Axpy(px, *e->s()); S->Axpy(-1., *e->y_d()); ipnlp->Pd_L()->MultVector(-1., *e->v_L(), 1., *S); ipnlp->Pd_U()->MultVector(1., *e->v_U(), 1., *S);
                  cq->curr_jac_c()->MultVector(1., *e->x(), 0., *C); C->Axpy(-pc, *e->y_c());
                  cq->curr_jac_d()->MultVector(1., *e->x(), 0., *D); D->Axpy(-1., *e->s()); D->Axpy(-pc, *e->y_d());
                  auto comp = [&](double sg, const Matrix& P, const Vector& dz, const Vector& d, const Vector& z, const Vector& sl, Vector& o2)
                  { SmartPtr<Vector> t = o2.MakeNew(); P.TransMultVector(sg, d, 0., *t); t->ElementWiseMultiply(z); o2.Copy(dz); o2.ElementWiseMultiply(sl); o2.Axpy(1., *t); };
                  const IteratesVector& cu = *data->curr();
                  comp(1., *ipnlp->Px_L(), *e->z_L(), *e->x(), *cu.z_L(), *cq->curr_slack_x_L(), *p->z_L_NonConst());
                  comp(-1., *ipnlp->Px_U(), *e->z_U(), *e->x(), *cu.z_U(), *cq->curr_slack_x_U(), *p->z_U_NonConst());
                  comp(1., *ipnlp->Pd_L(), *e->v_L(), *e->s(), *cu.v_L(), *cq->curr_slack_s_L(), *p->v_L_NonConst());
                  comp(-1., *ipnlp->Pd_U(), *e->v_U(), *e->s(), *cu.v_U(), *cq->curr_slack_s_U(), *p->v_U_NonConst());
                  LV col = get(*p); for( int i = 0; i < N; i++ ) A[i][j] = col[i];
               }
               LV x; gauss(A, ro, x);
               LV g = get(*res); int np = 0; long double er = 0;
               for( int k = 0; k < 4; k++ ) np += rhs->GetComp(k)->Dim();
               for( int part = 0; part < 2; part++ ) // steps of the variables and of the bound multipliers
               {
                  long double e = 0, nx = 0;
                  for( int i = part ? np : 0; i < (part ? N : np); i++ ) { e = std::max(e, fabsl(g[i] - (al * x[i] + be * off))); nx = std::max(nx, fabsl(x[i])); }
                  er = std::max(er, e / nx);
               }
               dig = !(er <= 1e-2L) ? 0 : er > 1e-6L ? 4 : er > 1e-10L ? 8 : 12;
               if( getenv("PDDBG") ) fprintf(stderr, "rel err %Lg\n", er);
               last = res->MakeNewIteratesVectorCopy(); last->AddScalar(-off * be); last->Scal(1. / al);
            }
            std::string info = data->info_string();
            r = mj::Obj().raw("res", "\"" + st + "\"").raw("calls", "[" + aug->calls + "]").i("nq", aug->iq).raw("info", "\"" + info + "\"").raw("regu", num(data->info_regu_x()))
                .raw("pert", "[" + num(px) + "," + num(pc) + "]").i("dig", dig).done();
         }
         out += "," + r;
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out + "]").done() << "\n" << std::flush;
   }
   return 0;
}
