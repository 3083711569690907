// Replays MainLoop.tla behaviours: the real IpoptApplication/IpoptAlgorithm with scripted components.
#include "mini_json.hpp"
#include "IpIpoptApplication.hpp"
#include "IpAlgBuilder.hpp"
#include "IpIpoptAlg.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpRestoPhase.hpp"
#include "IpSolveStatistics.hpp"
#include "IpDenseVector.hpp"
#include "IpLibraryLoader.hpp"
#include "IpAugSystemSolver.hpp"
#include "IpOrigIpoptNLP.hpp"
#include <new>

using namespace Ipopt;

static const char* status_name(SolverReturn s)
{
   switch( s )
   {
#define C(x) case x: return #x;
      C(SUCCESS) C(MAXITER_EXCEEDED) C(CPUTIME_EXCEEDED) C(STOP_AT_TINY_STEP) C(STOP_AT_ACCEPTABLE_POINT) C(LOCAL_INFEASIBILITY)
      C(USER_REQUESTED_STOP) C(FEASIBLE_POINT_FOUND) C(DIVERGING_ITERATES) C(RESTORATION_FAILURE) C(ERROR_IN_STEP_COMPUTATION)
      C(INVALID_NUMBER_DETECTED) C(TOO_FEW_DEGREES_OF_FREEDOM) C(INVALID_OPTION) C(OUT_OF_MEMORY) C(INTERNAL_ERROR) C(UNASSIGNED)
      C(WALLTIME_EXCEEDED)
#undef C
      default: return "?";
   }
}

struct Script
{
   std::vector<std::pair<std::string, std::string> > want;
   size_t pos = 0;
   int next_id = 1;
   std::vector<std::string> got;
   bool broken = false;
   std::string call(const std::string& c)
   {
      got.push_back(c);
      if( pos < want.size() && want[pos].first == c )
         return want[pos++].second;
      broken = true;
      if( got.size() > want.size() + 60 )
         throw std::string("runaway");
      pos = want.size() + 1;
      // an answer that lets the run end
      if( c == "conv" || c == "conv0" ) return "FAILED";
      if( c == "mu" || c == "dir" || c == "fallback" || c == "skipped" || c == "eqm" ) return "false";
      return "ok";
   }
};
static Script S;

static void raise(const std::string& e)
{
#define X(n) if( e == #n ) throw n("scripted", "f", 1);
   X(TINY_STEP_DETECTED) X(ACCEPTABLE_POINT_REACHED) X(LOCALLY_INFEASIBLE) X(RESTORATION_CONVERGED_TO_FEASIBLE_POINT) X(RESTORATION_FAILED)
   X(RESTORATION_MAXITER_EXCEEDED) X(RESTORATION_CPUTIME_EXCEEDED) X(RESTORATION_WALLTIME_EXCEEDED) X(RESTORATION_USER_STOP)
   X(STEP_COMPUTATION_FAILED) X(FEASIBILITY_PROBLEM_SOLVED) X(TOO_FEW_DOF) X(INTERNAL_ABORT) X(OPTION_INVALID) X(DYNAMIC_LIBRARY_FAILURE)
   X(INCONSISTENT_BOUNDS)
#undef X
   if( e == "Eval_Error" ) throw IpoptNLP::Eval_Error("scripted", "f", 1);
   if( e == "OTHER_IPOPT" ) throw FATAL_ERROR_IN_LINEAR_SOLVER("scripted", "f", 1);
   if( e == "bad_alloc" ) throw std::bad_alloc();
   if( e == "overflow_error" ) throw std::overflow_error("scripted");
   if( e == "unknown" ) throw 42;
}

static std::string g_setup;
static double xval(int id, int i) { return 0.0078125 * id + 0.25 * i; }   // exact
static double yval(int id, int i) { return id + 0.25 * i; }
static double zval(int id, int i) { return id == 0 ? 0. : id + 0.5 * i; }

static void fill(Vector& v, double (*f)(int, int), int id)
{
   DenseVector* d = dynamic_cast<DenseVector*>(&v);
   Number* p = d->Values();
   for( Index i = 0; i < v.Dim(); ++i ) p[i] = f(id, i);
}

static SmartPtr<IteratesVector> make_point(const IteratesVector& proto, int id)
{
   SmartPtr<IteratesVector> it = proto.MakeNewIteratesVector(true);
   fill(*it->x_NonConst(), xval, id);
   fill(*it->s_NonConst(), xval, id);
   fill(*it->y_c_NonConst(), yval, id);
   fill(*it->y_d_NonConst(), yval, id);
   fill(*it->z_L_NonConst(), zval, id);
   fill(*it->z_U_NonConst(), zval, id);
   fill(*it->v_L_NonConst(), zval, id);
   fill(*it->v_U_NonConst(), zval, id);
   return it;
}

struct SInit : public IterateInitializer
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool SetInitialIterates()
   {
      g_setup = "";
      std::string o = S.call("init");
      bool set = o == "ok" || o.compare(0, 4, "set+") == 0;
      if( set )
      {
         IpData().InitializeDataStructures(IpNLP(), true, false, false, false, false);
         SmartPtr<IteratesVector> t = make_point(*IpData().curr(), S.next_id++);
         IpData().set_trial(t);
         IpData().AcceptTrialPoint();
         IpData().Set_mu(0.125);
         IpData().Set_tau(0.99);
         if( o != "ok" ) raise(o.substr(4));
         return true;
      }
      // the problem setup fails: "false" or exception while the user's starting point is requested
      g_setup = o;
      bool ok = IpData().InitializeDataStructures(IpNLP(), true, false, false, false, false);
      g_setup = "";
      return ok;
   }
};
struct SConv : public ConvergenceCheck
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ConvergenceStatus CheckConvergence(bool call_intermediate_callback = true)
   {
      std::string o = S.call(call_intermediate_callback ? "conv" : "conv0");
      if( o == "CONTINUE" ) return CONTINUE;
      if( o == "CONVERGED" ) return CONVERGED;
      if( o == "ACCEPTABLE" ) return CONVERGED_TO_ACCEPTABLE_POINT;
      if( o == "MAXITER" ) return MAXITER_EXCEEDED;
      if( o == "CPUTIME" ) return CPUTIME_EXCEEDED;
      if( o == "WALLTIME" ) return WALLTIME_EXCEEDED;
      if( o == "DIVERGING" ) return DIVERGING;
      if( o == "USER_STOP" ) return USER_STOP;
      if( o == "FAILED" ) return FAILED;
      raise(o);
      return FAILED;
   }
   bool CurrentIsAcceptable() { return false; }
};
struct SHess : public HessianUpdater
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void UpdateHessian() { raise(S.call("hess")); }
};
struct SOut : public IterationOutput
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void WriteOutput() { raise(S.call("out")); }
};
struct SMu : public MuUpdate
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool UpdateBarrierParameter() { std::string o = S.call("mu"); raise(o); return o == "true"; }
};
struct SDir : public SearchDirectionCalculator
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool ComputeSearchDirection()
   {
      std::string o = S.call("dir");
      raise(o);
      if( o == "true" )
      {
         SmartPtr<IteratesVector> d = IpData().curr()->MakeNewIteratesVectorCopy();
         IpData().set_delta(d);
      }
      return o == "true";
   }
};
struct SEqm : public EqMultiplierCalculator
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMultipliers(Vector& y_c, Vector& y_d)
   {
      std::string o = S.call("eqm");
      raise(o);
      if( o == "true" ) { int id = 1000 + S.next_id++; fill(y_c, yval, id); fill(y_d, yval, id); return true; }
      return false;
   }
};
struct SLS : public LineSearch
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void FindAcceptableTrialPoint()
   {
      std::string o = S.call("ls");
      raise(o);
      SmartPtr<IteratesVector> t = make_point(*IpData().curr(), S.next_id);
      IpData().set_trial(t);
   }
   void Reset() { }
   void SetRigorousLineSearch(bool) { }
   bool CheckSkippedLineSearch() { S.next_id++; return S.call("skipped") == "true"; }
   bool ActivateFallbackMechanism() { return S.call("fallback") == "true"; }
};

struct Builder : public AlgorithmBuilder
{
   SmartPtr<IpoptAlgorithm> BuildBasicAlgorithm(const Journalist&, const OptionsList&, const std::string&)
   {
      SmartPtr<SearchDirectionCalculator> a = new SDir;
      SmartPtr<LineSearch> b = new SLS;
      SmartPtr<MuUpdate> c = new SMu;
      SmartPtr<ConvergenceCheck> d = new SConv;
      SmartPtr<IterateInitializer> e = new SInit;
      SmartPtr<IterationOutput> f = new SOut;
      SmartPtr<HessianUpdater> g = new SHess;
      SmartPtr<EqMultiplierCalculator> h = new SEqm;
      return new IpoptAlgorithm(a, b, c, d, e, f, g, h);
   }
};

// n = 2.  square: two equality constraints that are always satisfied; else one equality and one inequality
struct Prob : public TNLP
{
   bool square;
   std::vector<std::string> fin;
   Prob(bool s) : square(s) { }
   double f(const Number* x) { return 3 * x[0] + 5 * x[1] * x[1]; }
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) { n = 2; m = 2; nj = 4; nh = 2; st = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* xl, Number* xu, Index, Number* gl, Number* gu)
   {
      xl[0] = -100; xu[0] = 200; xl[1] = -100; xu[1] = 1e20;
      gl[0] = gu[0] = square ? 0 : 1;
      gl[1] = square ? 0 : -500; gu[1] = square ? 0 : 1e20;
      return true;
   }
   bool get_starting_point(Index, bool ix, Number* x, bool, Number*, Number*, Index, bool, Number*)
   {
      if( g_setup == "false" ) return false;
      raise(g_setup);
      if( ix ) { x[0] = 50; x[1] = 60; }
      return true;
   }
   bool eval_f(Index, const Number* x, bool, Number& o) { o = f(x); return true; }
   bool eval_grad_f(Index, const Number* x, bool, Number* g) { g[0] = 3; g[1] = 10 * x[1]; return true; }
   void geval(const Number* x, Number* g) { if( square ) g[0] = g[1] = 0; else { g[0] = x[0] + x[1]; g[1] = x[0] - x[1]; } }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) { geval(x, g); return true; }
   bool eval_jac_g(Index, const Number*, bool, Index, Index, Index* ir, Index* jc, Number* v)
   {
      if( ir ) { ir[0] = 0; jc[0] = 0; ir[1] = 0; jc[1] = 1; ir[2] = 1; jc[2] = 0; ir[3] = 1; jc[3] = 1; }
      else if( square ) v[0] = v[1] = v[2] = v[3] = 0;
      else { v[0] = v[1] = v[2] = 1; v[3] = -1; }
      return true;
   }
   bool eval_h(Index, const Number*, bool, Number of, Index, const Number*, bool, Index, Index* ir, Index* jc, Number* v)
   {
      if( ir ) { ir[0] = jc[0] = 0; ir[1] = jc[1] = 1; } else { v[0] = 0; v[1] = 10 * of; }
      return true;
   }
   static int id_of(const double* v, int n, double (*f)(int, int))
   {
      for( int id = 0; id < 1100; ++id )
      {
         bool ok = true;
         for( int i = 0; i < n; ++i ) ok = ok && v[i] == f(id, i);
         if( ok ) return id;
      }
      bool zero = true;
      for( int i = 0; i < n; ++i ) zero = zero && v[i] == 0;
      return zero ? 0 : -77;
   }
   void finalize_solution(SolverReturn st, Index, const Number* x, const Number* zL, const Number* zU, Index, const Number* g, const Number* lam, Number obj, const IpoptData*, IpoptCalculatedQuantities*)
   {
      int xi = id_of(x, 2, xval);
      // multipliers, mapped back to the internal order of the vectors
      double zz[2] = { zL[0], zL[1] };
      int zi = id_of(zz, 2, zval);
      if( !(zU[0] == zval(zi, 0) && zU[1] == 0.) ) zi = -78;
      int yi;
      if( square ) yi = id_of(lam, 2, yval);
      else { yi = id_of(lam, 1, yval); if( lam[1] != (yi == 0 ? 0 : yval(yi, 0)) ) yi = -79; }
      double xx[2] = { xval(xi, 0), xval(xi, 1) };
      int oi = obj == f(xx) ? xi : obj == 0. ? -1 : -80;
      double gg[2];
      geval(xx, gg);
      bool gok = oi == xi ? (g[0] == gg[0] && g[1] == gg[1]) : true;
      fin.push_back(mj::Obj().s("status", status_name(st)).i("x", xi).i("y", yi).i("z", zi).i("obj", gok ? oi : -81).done());
   }
};

int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      std::string out = "[";
      SmartPtr<IpoptApplication> app = new IpoptApplication(false);
      app->Options()->SetIntegerValue("print_level", 0);
      app->Options()->SetStringValue("sb", "yes");
      app->Options()->SetStringValue("nlp_scaling_method", "none");
      app->Options()->SetNumericValue("bound_relax_factor", 0.);
      if( c["skip"].b() ) app->Options()->SetStringValue("skip_finalize_solution_call", "yes");
      app->Initialize("");
      if( c["rethrow"].b() ) app->RethrowNonIpoptException(true);
      Prob* p = new Prob(c["square"].b());
      SmartPtr<TNLP> tnlp = p;
      SmartPtr<NLP> nlp = new TNLPAdapter(tnlp);
      S = Script();
      const mj::V& runs = c["runs"];
      for( size_t r = 0; r < runs.size(); ++r )
      {
         S.want.clear(); S.got.clear(); S.pos = 0; S.broken = false;
         for( auto& k : runs[r]["calls"].a ) S.want.push_back({k["c"].s, k["o"].s});
         p->fin.clear();
         long ret;
         try
         {
            if( runs[r]["how"].s == "opt" )
            {
               SmartPtr<AlgorithmBuilder> b = new Builder;
               ret = app->OptimizeNLP(nlp, b);
            }
            else
               ret = app->ReOptimizeNLP(nlp);
         }
         catch( int )
         {
            ret = -1000;
         }
         catch( IpoptException& )
         {
            ret = -2000;
         }
         catch( std::string& )
         {
            ret = -3000;
         }
         Index iters = -1;
         bool timer = false;
         if( IsValid(app->Statistics()) ) iters = app->Statistics()->IterationCount();
         if( IsValid(app->IpoptDataObject()) ) timer = app->IpoptDataObject()->TimingStats().OverallAlgorithm().IsStarted();
         std::string fins = "[";
         for( size_t i = 0; i < p->fin.size(); ++i ) fins += (i ? "," : "") + p->fin[i];
         fins += "]";
         out += (r ? "," : "") + mj::Obj().raw("calls", mj::strs(S.got)).i("ret", ret).raw("fin", fins).i("iters", iters).b("timer", timer).i("used", (long) S.pos).done();
         if( S.broken ) { out += ",{\"broken\":true}"; break; }
      }
      out += "]";
      std::cout << mj::Obj().i("id", c["id"].i()).raw("runs", out).done() << "\n" << std::flush;
   }
   return 0;
}
