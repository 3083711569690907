// The real main loop and line search between scripted components; every decision of a component is a choice
// taken from a script (0 when it is exhausted).  Reports the events (LineSearch.tla) and how many options each choice had.
#include "mini_json.hpp"
static void P_(const std::string&);
#include "recls.hpp"
#include "IpIpoptApplication.hpp"
#include "IpAlgBuilder.hpp"
#include "IpIpoptAlg.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpRestoPhase.hpp"
#include "IpOrigIpoptNLP.hpp"

static std::vector<std::string> EV;
static std::vector<int> script, arity;
static mj::V CFG;
static bool BAD = false, ACC = false, RSTD = false;
static int CONVS = 0;
static void P_(const std::string& s) { EV.push_back(s); if( EV.size() > 3000 ) throw std::string("runaway"); }
static int choose(int n)
{
   if( n <= 1 ) return 0;
   size_t k = arity.size();
   arity.push_back(n);
   return k < script.size() ? script[k] % n : 0;
}
// one of the options the configuration lists
static std::string pick(const char* what) { const mj::V& l = CFG[what]; return l.size() == 0 ? std::string("") : l[choose((int) l.size())].s; }
static Number* vals(const SmartPtr<Vector>& v) { return dynamic_cast<DenseVector*>(GetRawPtr(v))->Values(); }

struct SInit : public IterateInitializer
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool SetInitialIterates()
   {
      IpData().InitializeDataStructures(IpNLP(), true, false, false, false, false);
      SmartPtr<IteratesVector> t = IpData().curr()->MakeNewIteratesVector(true);
      vals(t->x_NonConst())[0] = CFG.num("x0", 8.); vals(t->x_NonConst())[1] = 50.;
      t->s_NonConst()->Set(0.); t->y_c_NonConst()->Set(CFG.num("y0", 1.)); t->y_d_NonConst()->Set(0.);
      t->z_L_NonConst()->Set(1.); t->z_U_NonConst()->Set(1.); t->v_L_NonConst()->Set(1.); t->v_U_NonConst()->Set(1.);
      IpData().set_trial(t);
      IpData().AcceptTrialPoint();
      IpData().Set_mu(0.125);
      IpData().Set_tau(0.75);
      IpData().Set_tol(1e-8);
      CONVS = 0;
      return true;
   }
};
struct SConv : public ConvergenceCheck
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ConvergenceStatus CheckConvergence(bool)
   {
      BAD = false;
      ACC = pick("acc") == "yes";
      return ++CONVS > CFG.integer("iters", 4) ? MAXITER_EXCEEDED : CONTINUE;
   }
   bool CurrentIsAcceptable() { return ACC; }
};
struct SHess : public HessianUpdater
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void UpdateHessian() { }
};
struct SOut : public IterationOutput
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void WriteOutput() { }
};
struct SMu : public MuUpdate
{
   SmartPtr<LineSearch> ls;
   SMu(const SmartPtr<LineSearch>& l) : ls(l) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool UpdateBarrierParameter()
   {
      std::string o = pick("mu");
      if( o == "new" ) { IpData().Set_mu(IpData().curr_mu() / 2.); ls->Reset(); }
      if( o == "up" ) IpData().Set_mu(IpData().curr_mu() * 2.);
      if( o == "lax" ) ls->SetRigorousLineSearch(false);
      if( o == "rigorous" ) ls->SetRigorousLineSearch(true);
      if( o == "tau" ) IpData().Set_tau(0.5);
      return o != "fail";
   }
};
struct SDir : public SearchDirectionCalculator
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool ComputeSearchDirection()
   {
      std::string o = pick("dir");
      if( o == "fail" ) return false;
      SmartPtr<const IteratesVector> c = IpData().curr();
      SmartPtr<IteratesVector> d = c->MakeNewIteratesVector(true);
      d->Set(0.);
      Number* x = vals(d->x_NonConst());
      double x0 = dense(*c->x())[0], x1 = dense(*c->x())[1];
      bool tiny = o.compare(0, 4, "tiny") == 0;
      x[0] = o == "up" ? (x0 >= 0 ? x0 + 1. : x0 - 1.) : o == "land" ? -x0 : o == "near" ? 1e-11 - x0 : tiny ? 1e-30 : -x0 / 2.;
      x[1] = o == "limited" ? -2. * x1 : o == "limitedup" ? 2. * (100. - x1) : 0.;
      vals(d->z_L_NonConst())[0] = tiny ? 0. : -2.;
      vals(d->z_U_NonConst())[0] = tiny ? 0. : 0.5;
      vals(d->y_c_NonConst())[0] = o == "tiny" || o == "tinybad" ? 0. : CFG.num("dy", 0.25);
      BAD = o == "bad" || o == "tinybad";
      IpData().set_delta(d);
      return true;
   }
};
struct SEqm : public EqMultiplierCalculator
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMultipliers(Vector&, Vector&) { return false; }
};
struct SAcc : public BacktrackingLSAcceptor
{
   mj::Obj o(const char* e) { mj::Obj r; r.s("e", e).i("L", 0); return r; }
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      mj::Obj b = o("fl.new");
      const char* names[] = {"alpha_red_factor", "soft_resto_pderror_reduction_factor", "tiny_step_tol", "tiny_step_y_tol", "expect_infeasible_problem_ctol", "expect_infeasible_problem_ytol", "constr_viol_tol"};
      for( const char* nm : names ) { Number v; op.GetNumericValue(nm, v, p); b.d(nm, v); }
      const char* ints[] = {"max_soc", "watchdog_shortened_iter_trigger", "watchdog_trial_iter_max", "accept_after_max_steps", "max_soft_resto_iters"};
      for( const char* nm : ints ) { Index v; op.GetIntegerValue(nm, v, p); b.i(nm, v); }
      const char* bools[] = {"accept_every_trial_step", "start_with_resto", "expect_infeasible_problem", "magic_steps"};
      for( const char* nm : bools ) { bool v; op.GetBoolValue(nm, v, p); b.b(nm, v); }
      P_(b.done());
      return true;
   }
   void Reset() { P_(o("fl.reset").done()); }
   void InitThisLineSearch(bool wd) { P_(o("fl.init").b("wd", wd).done()); }
   void PrepareRestoPhaseStart() { P_(o("fl.prepresto").done()); }
   Number CalculateAlphaMin() { double a = CFG.num("amin", 0.2); P_(o("fl.amin").d("a", a).done()); return a; }
   bool CheckAcceptabilityOfTrialPoint(Number a)
   {
      int r = BAD ? 2 : a == 0. ? choose(2) : choose(CFG.integer("checks", 3));
      if( a == 0. && !BAD ) r = 1 - r;   // soft step: first choice "not acceptable"
      if( r == 2 )
      {
         P_(o("fl.check").d("a", a).s("r", "err").d("th", NAN).done());
         throw IpoptNLP::Eval_Error("scripted", "f", 1);
      }
      P_(o("fl.check").d("a", a).s("r", r == 0 ? "yes" : "no").d("th", IpCq().trial_constraint_violation()).done());
      return r == 0;
   }
   bool TrySecondOrderCorrection(Number at, Number& ap, SmartPtr<IteratesVector>&)
   {
      P_(o("fl.soc").d("a", at).d("ap", ap).done());
      bool r = choose(2);
      if( r ) ap *= 0.75;
      P_(o("fl.socend").b("r", r).d("a", ap).done());
      return r;
   }
   bool TryCorrector(Number at, Number& ap, SmartPtr<IteratesVector>& dl)
   {
      P_(o("fl.corr").d("a", at).d("ap", ap).done());
      bool r = pick("corr") == "yes";
      if( r ) IpData().SetTrialPrimalVariablesFromStep(ap, *dl->x(), *dl->s());
      P_(o("fl.correnc").b("r", r).d("a", ap).done());
      return r;
   }
   char UpdateForNextIteration(Number a) { P_(o("fl.update").d("a", a).s("c", "f").done()); return 'f'; }
   void StartWatchDog() { P_(o("fl.wdstart").done()); }
   void StopWatchDog()
   {
      P_(o("fl.wdstop").d("cth", IpCq().curr_constraint_violation()).d("upr", IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX)).b("acc", ACC).done());
   }
   bool RestoredIterate() { bool r = pick("restored") == "yes"; P_(o("fl.restored").b("r", r).done()); return r; }
   bool NeverRestorationPhase() { return false; }
   bool DoFallback() { bool r = choose(2); P_(o("ls.dofb").b("r", r).done()); if( r ) { SmartPtr<IteratesVector> t = IpData().curr()->MakeNewContainer(); IpData().set_trial(t); } return r; }
};
struct SResto : public RestorationPhase
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool PerformRestoration()
   {
      P_(mj::Obj().s("e", "resto.start").i("L", 0).done());
      int r = choose(3);
      const char* n[] = {"true", "false", "LOCALLY_INFEASIBLE"};
      P_(mj::Obj().s("e", "resto.end").i("L", 0).s("r", n[r]).done());
      if( r == 2 ) throw LOCALLY_INFEASIBLE("scripted", "f", 1);
      if( r == 1 ) return false;
      BAD = false;
      SmartPtr<IteratesVector> t = IpData().curr()->MakeNewContainer();
      SmartPtr<Vector> x = IpData().curr()->x()->MakeNewCopy();
      vals(x)[0] *= 0.25;
      t->Set_x(*x);
      IpData().set_trial(t);
      return true;
   }
};
struct Builder : public AlgorithmBuilder
{
   SmartPtr<IpoptAlgorithm> BuildBasicAlgorithm(const Journalist&, const OptionsList&, const std::string&)
   {
      SmartPtr<ConvergenceCheck> d = new SConv;
      SmartPtr<BacktrackingLSAcceptor> ac = new SAcc;
      SmartPtr<RestorationPhase> rp;
      if( CFG.boolean("resto", true) ) rp = new SResto;
      SmartPtr<LineSearch> b = new RecLS(ac, rp, d, 0);
      SmartPtr<SearchDirectionCalculator> a = new SDir;
      SmartPtr<MuUpdate> c = new SMu(b);
      SmartPtr<IterateInitializer> e = new SInit;
      SmartPtr<IterationOutput> f = new SOut;
      SmartPtr<HessianUpdater> g = new SHess;
      SmartPtr<EqMultiplierCalculator> h = new SEqm;
      return new IpoptAlgorithm(a, b, c, d, e, f, g, h);
   }
};
// min x1  s.t. x0 = 0, 0 <= x1 <= 100
struct SProb : public TNLP
{
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) { n = 2; m = 1; nj = 1; nh = 0; st = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* xl, Number* xu, Index, Number* gl, Number* gu)
   {
      xl[0] = -1e20; xu[0] = 1e20; xl[1] = 0; xu[1] = 100; gl[0] = gu[0] = 0;
      return true;
   }
   bool get_starting_point(Index, bool ix, Number* x, bool, Number*, Number*, Index, bool, Number*) { if( ix ) { x[0] = 8; x[1] = 50; } return true; }
   bool eval_f(Index, const Number* x, bool, Number& o) { o = x[1]; if( BAD ) P_("{\"e\":\"evalfail\",\"L\":0}"); return !BAD; }
   bool eval_grad_f(Index, const Number*, bool, Number* g) { g[0] = 0; g[1] = 1; return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) { g[0] = x[0]; if( BAD ) P_("{\"e\":\"evalfail\",\"L\":0}"); return !BAD; }
   bool eval_jac_g(Index, const Number*, bool, Index, Index, Index* ir, Index* jc, Number* v) { if( ir ) { ir[0] = 0; jc[0] = 0; } else v[0] = 1; return true; }
   bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) { return true; }
   void finalize_solution(SolverReturn, Index, const Number*, const Number*, const Number*, Index, const Number*, const Number*, Number, const IpoptData*, IpoptCalculatedQuantities*) {}
};

int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      CFG = c["cfg"];
      script.clear(); arity.clear(); EV.clear();
      for( auto& k : c["script"].a ) script.push_back((int) k.n);
      SmartPtr<IpoptApplication> app = new IpoptApplication(false);
      app->Options()->SetIntegerValue("print_level", 0);
      app->Options()->SetStringValue("sb", "yes");
      app->Options()->SetStringValue("nlp_scaling_method", "none");
      app->Options()->SetNumericValue("bound_relax_factor", 0.);
      for( auto& o : CFG["opts"].a )
      {
         SmartPtr<const RegisteredOption> ro = app->RegOptions()->GetOption(o[0].s);
         if( ro->Type() == OT_Number ) app->Options()->SetNumericValue(o[0].s, strtod(o[1].s.c_str(), 0));
         else if( ro->Type() == OT_Integer ) app->Options()->SetIntegerValue(o[0].s, atoi(o[1].s.c_str()));
         else app->Options()->SetStringValue(o[0].s, o[1].s);
      }
      app->Initialize("");
      SmartPtr<TNLP> tnlp = new SProb;
      SmartPtr<NLP> nlp = new TNLPAdapter(tnlp);
      SmartPtr<AlgorithmBuilder> b = new Builder;
      BAD = ACC = false;
      long ret;
      try { ret = app->OptimizeNLP(nlp, b); }
      catch( std::string& s ) { ret = -3000; }
      std::string ev = "[", ar = "[";
      for( size_t k = 0; k < EV.size(); ++k ) ev += (k ? "," : "") + EV[k];
      for( size_t k = 0; k < arity.size(); ++k ) ar += (k ? "," : "") + std::to_string(arity[k]);
      std::cout << mj::Obj().i("id", c["id"].i()).raw("ev", ev + "]").raw("ar", ar + "]").i("ret", ret).done() << "\n" << std::flush;
   }
   return 0;
}
