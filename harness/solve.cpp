// Runs sequences of solves on one application and records everything observable (see spec/Protocol.tla, spec/Iterate.tla ...).
#include "userprob.hpp"
#include "IpTNLPReducer.hpp"
#include "IpIpoptApplication.hpp"
#include "IpSolveStatistics.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpAlgBuilder.hpp"
#include "IpIpoptAlg.hpp"
#include "IpBacktrackingLineSearch.hpp"
#include "IpFilterLSAcceptor.hpp"
#include "IpRestoMinC_1Nrm.hpp"
#include "IpRestoFilterConvCheck.hpp"
#include "IpRestoRestoPhase.hpp"
#include "IpRestoIterateInitializer.hpp"
#include "IpRestoIterationOutput.hpp"
#include "IpRestoIpoptNLP.hpp"
#include "IpAugRestoSystemSolver.hpp"
#include "IpPDFullSpaceSolver.hpp"
#include "IpPDSearchDirCalc.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpMonotoneMuUpdate.hpp"
#include "IpAdaptiveMuUpdate.hpp"
#include "IpLoqoMuOracle.hpp"
#include "IpProbingMuOracle.hpp"
#include "IpQualityFunctionMuOracle.hpp"
#include "IpExactHessianUpdater.hpp"
#include "IpLimMemQuasiNewtonUpdater.hpp"
#include "IpLeastSquareMults.hpp"
#include "IpTSymLinearSolver.hpp"
#include "IpMumpsSolverInterface.hpp"
#include "IpRegOptions.hpp"

struct Rec;
static Rec* R = 0;

struct Rec : public UserTNLP
{
   bool lsrec = false, murec = false, linrec = false;
   std::map<std::string, int> linfault;
   Rec() { R = this; }
   ~Rec() { if( R == this ) R = 0; }
   void iterate(mj::Obj& e, AlgorithmMode mode, const IpoptData* d, IpoptCalculatedQuantities* q)
   {
      int n = P.n, m = P.m;
      std::vector<double> x(n, -7e77), zl(n, -7e77), zu(n, -7e77), g(m, -7e77), lam(m, -7e77);
      if( query & 64 )
      {
         // ask for parts, several times
         get_curr_iterate(d, q, false, n, x.data(), NULL, NULL, m, NULL, NULL);
         get_curr_iterate(d, q, true, n, NULL, zl.data(), NULL, 0, NULL, NULL);
         get_curr_violations(d, q, false, n, NULL, NULL, x.data(), zl.data(), NULL, m, NULL, lam.data());
         get_curr_iterate(d, q, false, 0, NULL, NULL, NULL, m, g.data(), NULL);
         get_curr_violations(d, q, true, n, x.data(), zl.data(), NULL, NULL, zu.data(), 0, NULL, NULL);
      }
      for( int k = 0; k < 2; ++k )
         if( query & (1 << k) )
         {
            std::fill(x.begin(), x.end(), -7e77); std::fill(zl.begin(), zl.end(), -7e77); std::fill(zu.begin(), zu.end(), -7e77);
            std::fill(g.begin(), g.end(), -7e77); std::fill(lam.begin(), lam.end(), -7e77);
            bool ok = get_curr_iterate(d, q, k == 1, n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data());
            e.raw(k ? "curs" : "cur", mj::Obj().b("ok", ok).raw("x", mj::num(x)).raw("zl", mj::num(zl)).raw("zu", mj::num(zu)).raw("g", mj::num(g)).raw("lam", mj::num(lam)).done());
            if( k == 0 && ok )
            {
               e.i("xi", xs->get(x.data(), n));
               if( query & 32 )
                  e.d("uf", P.obj.val(x.data())).raw("ug", mj::num(P.g(x.data()))).raw("udf", mj::num(P.gradf(x.data()))).raw("uj", mj::num(P.densejac(x.data())));
            }
         }
      for( int k = 0; k < 2; ++k )
         if( query & (4 << k) )
         {
            std::vector<double> a(n, -7e77), b(n, -7e77), c(n, -7e77), f(n, -7e77), gl(n, -7e77), cv(m, -7e77), cg(m, -7e77);
            bool ok = get_curr_violations(d, q, k == 1, n, a.data(), b.data(), c.data(), f.data(), gl.data(), m, cv.data(), cg.data());
            e.raw(k ? "vios" : "vio", mj::Obj().b("ok", ok).raw("xl", mj::num(a)).raw("xu", mj::num(b)).raw("cl", mj::num(c)).raw("cu", mj::num(f))
                  .raw("gl", mj::num(gl)).raw("cv", mj::num(cv)).raw("cg", mj::num(cg)).done());
         }
      if( (query & 16) && mode == RegularMode )
      {
         SmartPtr<const IteratesVector> c = d->curr();
         e.raw("in", mj::Obj().raw("x", dnum(c->x())).raw("s", dnum(c->s())).raw("yc", dnum(c->y_c())).raw("yd", dnum(c->y_d()))
               .raw("zl", dnum(c->z_L())).raw("zu", dnum(c->z_U())).raw("vl", dnum(c->v_L())).raw("vu", dnum(c->v_U()))
               .raw("sxl", dnum(q->curr_slack_x_L())).raw("sxu", dnum(q->curr_slack_x_U())).raw("ssl", dnum(q->curr_slack_s_L())).raw("ssu", dnum(q->curr_slack_s_U()))
               .raw("bxl", dnum(q->GetIpoptNLP()->x_L())).raw("bxu", dnum(q->GetIpoptNLP()->x_U())).raw("bdl", dnum(q->GetIpoptNLP()->d_L())).raw("bdu", dnum(q->GetIpoptNLP()->d_U()))
               .d("mu", d->curr_mu()).d("tau", d->curr_tau()).b("free", d->FreeMuMode()).d("tol", d->tol()).b("tiny", const_cast<IpoptData*>(d)->tiny_step_flag())
               .d("f", q->curr_f()).raw("c", dnum(q->curr_c())).raw("d", dnum(q->curr_d())).raw("df", dnum(q->curr_grad_f()))
               .d("e0", q->curr_nlp_error()).d("emu", q->curr_barrier_error()).d("du", q->curr_dual_infeasibility(NORM_MAX)).d("pr", q->curr_primal_infeasibility(NORM_MAX)).d("co", q->curr_complementarity(0., NORM_MAX))
               .d("udu", q->unscaled_curr_dual_infeasibility(NORM_MAX)).d("upr", q->unscaled_curr_nlp_constraint_violation(NORM_MAX)).d("uco", q->unscaled_curr_complementarity(0., NORM_MAX))
               .d("th", q->curr_constraint_violation()).d("phi", q->curr_barrier_obj()).done());
      }
      if( (query & 16) && mode == RestorationPhaseMode )
      {
         const CompoundVector* cx = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->x()));
         const CompoundVector* cs = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->s()));
         if( cx && cs )
            e.raw("rin", mj::Obj().raw("x", dnum(cx->GetComp(0))).raw("s", dnum(cs->GetComp(0))).raw("nc", dnum(cx->GetComp(1))).raw("pc", dnum(cx->GetComp(2)))
                  .raw("nd", dnum(cx->GetComp(3))).raw("pd", dnum(cx->GetComp(4))).raw("zl", dnum(d->curr()->z_L())).raw("zu", dnum(d->curr()->z_U()))
                  .raw("vl", dnum(d->curr()->v_L())).raw("vu", dnum(d->curr()->v_U())).d("mu", d->curr_mu()).d("tau", d->curr_tau())
                  .d("e0", q->curr_nlp_error()).d("udu", q->unscaled_curr_dual_infeasibility(NORM_MAX)).d("upr", q->unscaled_curr_nlp_constraint_violation(NORM_MAX)).d("uco", q->unscaled_curr_complementarity(0., NORM_MAX)).done());
      }
   }
};

// ---------------------------------------------------------------- recording components
static void P_(const std::string& s) { if( R ) R->push(s); }

struct RecFilter : public FilterLSAcceptor
{
   int lev;
   double rph = 0., rth = 0., tph = 0., tth = 0.;   // last reference and trial values seen
   SmartPtr<ConvergenceCheck> conv;
   RecFilter(const SmartPtr<PDSystemSolver>& s, const SmartPtr<ConvergenceCheck>& c, int l) : FilterLSAcceptor(s), lev(l), conv(c) {}
   mj::Obj o(const char* e) { mj::Obj r; r.s("e", e).i("L", lev); return r; }
   // what the filter says about some pairs
   std::string probe()
   {
      double a[6][2] = {{rph, rth}, {rph + 1. + fabs(rph), 2. * rth + 1.}, {rph, .5 * rth}, {rph - 1e-3 * (1. + fabs(rph)), rth}, {tph, tth}, {tph + 1e-3 * (1. + fabs(tph)), 1.001 * tth + 1e-6}};
      std::string r = "[";
      for( int k = 0; k < 6; ++k )
         r += (k ? "," : "") + mj::Obj().d("phi", a[k][0]).d("th", a[k][1]).b("ok", IsAcceptableToCurrentFilter(a[k][0], a[k][1])).done();
      return r + "]";
   }
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      mj::Obj b = o("fl.new");
      const char* names[] = {"theta_max_fact", "theta_min_fact", "eta_phi", "delta", "s_phi", "s_theta", "gamma_phi", "gamma_theta", "alpha_min_frac", "kappa_soc", "obj_max_inc",
                             "alpha_red_factor", "soft_resto_pderror_reduction_factor", "tiny_step_tol", "tiny_step_y_tol", "expect_infeasible_problem_ctol", "expect_infeasible_problem_ytol", "constr_viol_tol"};
      for( const char* nm : names ) { Number v; op.GetNumericValue(nm, v, p); b.d(nm, v); }
      const char* ints[] = {"max_soc", "max_filter_resets", "filter_reset_trigger", "watchdog_shortened_iter_trigger", "watchdog_trial_iter_max", "accept_after_max_steps", "max_soft_resto_iters", "corrector_type"};
      for( const char* nm : ints ) { Index v; if( std::string(nm) == "corrector_type" ) op.GetEnumValue(nm, v, p); else op.GetIntegerValue(nm, v, p); b.i(nm, v); }
      const char* bools[] = {"accept_every_trial_step", "start_with_resto", "expect_infeasible_problem", "magic_steps"};
      for( const char* nm : bools ) { bool v; op.GetBoolValue(nm, v, p); b.b(nm, v); }
      P_(b.done());
      return FilterLSAcceptor::InitializeImpl(op, p);
   }
   void Reset() { FilterLSAcceptor::Reset(); P_(o("fl.reset").raw("p", probe()).done()); }
   void InitThisLineSearch(bool wd)
   {
      FilterLSAcceptor::InitThisLineSearch(wd);
      double th = IpCq().curr_constraint_violation(), ph = IpCq().curr_barrier_obj();
      if( !wd ) { rth = th; rph = ph; }
      P_(o("fl.init").b("wd", wd).d("th", th).d("phi", ph).d("g", IpCq().curr_gradBarrTDelta()).i("it", IpData().iter_count()).d("mu", IpData().curr_mu()).done());
   }
   void PrepareRestoPhaseStart() { FilterLSAcceptor::PrepareRestoPhaseStart(); P_(o("fl.prepresto").raw("p", probe()).done()); }
   Number CalculateAlphaMin() { Number a = FilterLSAcceptor::CalculateAlphaMin(); P_(o("fl.amin").d("a", a).d("th", IpCq().curr_constraint_violation()).d("g", IpCq().curr_gradBarrTDelta()).done()); return a; }
   bool CheckAcceptabilityOfTrialPoint(Number a)
   {
      bool r, thok = false;
      P_(o("fl.begin").d("a", a).done());
      try
      {
         IpCq().trial_constraint_violation();
         thok = true;
         r = FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(a);
      }
      catch( IpoptNLP::Eval_Error& ) { P_(o("fl.check").d("a", a).s("r", "err").b("thok", thok).d("th", NAN).d("phi", NAN).done()); throw; }
      double th = IpCq().trial_constraint_violation(), ph = NAN;
      bool phok = true;
      try { ph = IpCq().trial_barrier_obj(); } catch( IpoptNLP::Eval_Error& ) { phok = false; }
      if( phok ) { tth = th; tph = ph; }
      P_(o("fl.check").d("a", a).s("r", r ? "yes" : "no").b("thok", true).d("th", th).d("phi", ph).done());
      return r;
   }
   bool TrySecondOrderCorrection(Number at, Number& ap, SmartPtr<IteratesVector>& dl)
   {
      P_(o("fl.soc").d("a", at).d("ap", ap).done());
      bool r = FilterLSAcceptor::TrySecondOrderCorrection(at, ap, dl);
      P_(o("fl.socend").b("r", r).d("a", ap).done());
      return r;
   }
   bool TryCorrector(Number at, Number& ap, SmartPtr<IteratesVector>& dl)
   {
      P_(o("fl.corr").d("a", at).d("ap", ap).done());
      bool r = FilterLSAcceptor::TryCorrector(at, ap, dl);
      P_(o("fl.correnc").b("r", r).d("a", ap).done());
      return r;
   }
   char UpdateForNextIteration(Number a)
   {
      Number phi = NAN, th = NAN;
      try { phi = IpCq().trial_barrier_obj(); th = IpCq().trial_constraint_violation(); } catch( IpoptNLP::Eval_Error& ) {}
      char c = FilterLSAcceptor::UpdateForNextIteration(a);
      P_(o("fl.update").d("a", a).d("phi", phi).d("th", th).s("c", std::string(1, c)).raw("p", probe()).done());
      return c;
   }
   void StartWatchDog() { FilterLSAcceptor::StartWatchDog(); P_(o("fl.wdstart").d("th", IpCq().curr_constraint_violation()).d("phi", IpCq().curr_barrier_obj()).d("g", IpCq().curr_gradBarrTDelta()).done()); }
   void StopWatchDog() { FilterLSAcceptor::StopWatchDog(); P_(o("fl.wdstop").d("cth", IpCq().curr_constraint_violation()).d("upr", IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX)).b("acc", IsValid(conv) && conv->CurrentIsAcceptable()).done()); }
};

#include "recls.hpp"

static std::string exname(IpoptException& e)
{
#define X(c) if( dynamic_cast<c*>(&e) ) return #c;
   X(LOCALLY_INFEASIBLE) X(RESTORATION_FAILED) X(RESTORATION_CONVERGED_TO_FEASIBLE_POINT) X(RESTORATION_MAXITER_EXCEEDED) X(RESTORATION_CPUTIME_EXCEEDED)
   X(RESTORATION_WALLTIME_EXCEEDED) X(RESTORATION_USER_STOP) X(FEASIBILITY_PROBLEM_SOLVED) X(STEP_COMPUTATION_FAILED) X(ACCEPTABLE_POINT_REACHED)
#undef X
   if( dynamic_cast<IpoptNLP::Eval_Error*>(&e) ) return "Eval_Error";
   return "other";
}
// all blocks of the original problem in an iterate (of the restoration problem)
static std::string blocks(const IteratesVector& v)
{
   auto c = [](const SmartPtr<const Vector>& x) { const CompoundVector* q = dynamic_cast<const CompoundVector*>(GetRawPtr(x)); return dnum(q ? q->GetComp(0) : x); };
   return mj::Obj().raw("x", c(v.x())).raw("s", c(v.s())).raw("yc", c(v.y_c())).raw("yd", c(v.y_d())).raw("zl", c(v.z_L())).raw("zu", c(v.z_U())).raw("vl", c(v.v_L())).raw("vu", c(v.v_U())).done();
}

static std::string np(const Vector& x)
{
   const CompoundVector& q = dynamic_cast<const CompoundVector&>(x);
   return "[" + dnum(q.GetComp(1)) + "," + dnum(q.GetComp(2)) + "," + dnum(q.GetComp(3)) + "," + dnum(q.GetComp(4)) + "]";
}
static std::string blocksx(const Vector& x)
{
   const CompoundVector& q = dynamic_cast<const CompoundVector&>(x);
   return "[" + dnum(q.GetComp(0)) + "," + dnum(q.GetComp(1)) + "," + dnum(q.GetComp(2)) + "," + dnum(q.GetComp(3)) + "," + dnum(q.GetComp(4)) + "]";
}

// the restoration phase of the restoration phase
struct RecRestoResto : public RestoRestorationPhase
{
   bool PerformRestoration()
   {
      mj::Obj b; b.s("e", "rr").i("L", 0).raw("pt", blocks(*IpData().curr())).raw("c", dnum(IpCq().curr_c())).raw("dms", dnum(IpCq().curr_d_minus_s())).raw("np0", np(*IpData().curr()->x())).d("mu", IpData().curr_mu()).i("it", IpData().iter_count());
      bool r = RestoRestorationPhase::PerformRestoration();
      P_(b.b("r", r).raw("tr", blocks(*IpData().trial())).raw("np", np(*IpData().trial()->x())).done());
      return r;
   }
};

// the decision to leave the restoration phase, observed
struct RecRestoConv : public RestoFilterConvergenceCheck
{
   Number mt = 0.;
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      mj::Obj b; b.s("e", "rc.new").i("L", 0);
      op.GetNumericValue("mu_target", mt, p);
      const char* nums[] = {"required_infeasibility_reduction", "dual_inf_tol", "constr_viol_tol", "compl_inf_tol", "acceptable_tol", "acceptable_dual_inf_tol", "acceptable_constr_viol_tol", "acceptable_compl_inf_tol", "acceptable_obj_change_tol", "diverging_iterates_tol", "resto_penalty_parameter", "resto_proximity_weight"};
      for( const char* n : nums ) { Number v; op.GetNumericValue(n, v, p); b.d(n, v); }
      const char* ints[] = {"max_iter", "max_resto_iter", "acceptable_iter"};
      for( const char* n : ints ) { Index v; op.GetIntegerValue(n, v, p); b.i(n, v); }
      Number v; op.GetNumericValue("constr_viol_tol", v, ""); b.d("ocvt", v);
      P_(b.done());
      return RestoFilterConvergenceCheck::InitializeImpl(op, p);
   }
   ConvergenceStatus CheckConvergence(bool cb)
   {
      const char* names[] = {"CONTINUE", "CONVERGED", "ACCEPTABLE", "MAXITER", "CPUTIME", "WALLTIME", "DIVERGING", "USER_STOP", "FAILED"};
      RestoIpoptNLP& n = static_cast<RestoIpoptNLP&>(IpNLP());
      mj::Obj b; b.s("e", "rc").i("L", 0).i("it", IpData().iter_count()).d("rtol0", IpData().tol()).d("otol", n.OrigIpData().tol());
      auto rest = [&]()
      {
         Number tth = NAN, tpr = NAN, tph = NAN, cpr = NAN, err = NAN, du = NAN, cv = NAN, co = NAN;
         bool sq = false;
         try { tth = n.OrigIpCq().trial_constraint_violation(); tpr = n.OrigIpCq().trial_primal_infeasibility(NORM_MAX); } catch( ... ) {}
         try { tph = n.OrigIpCq().trial_barrier_obj(); } catch( ... ) {}
         try { cpr = n.OrigIpCq().curr_primal_infeasibility(NORM_MAX); sq = n.OrigIpCq().IsSquareProblem(); } catch( ... ) {}
         try { err = IpCq().curr_nlp_error(); du = IpCq().unscaled_curr_dual_infeasibility(NORM_MAX); cv = IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX); co = IpCq().unscaled_curr_complementarity(mt, NORM_MAX); } catch( ... ) {}
         b.d("rtol", IpData().tol()).d("tth", tth).d("tpr", tpr).d("tph", tph).d("cpr", cpr).b("sq", sq).d("err", err).d("du", du).d("cv", cv).d("co", co).d("xa", IpData().curr()->x()->Amax()).i("nx", IpData().curr()->x()->Dim())
          .raw("pt", blocks(*IpData().curr())).raw("tr", "[" + dnum(n.OrigIpData().trial()->x()) + "," + dnum(n.OrigIpData().trial()->s()) + "]")
          .d("mu", IpData().curr_mu()).raw("np", np(*IpData().curr()->x()));
         try
         {
            std::string q = mj::Obj().d("f", IpCq().curr_f()).raw("c", dnum(IpCq().curr_c())).raw("d", dnum(IpCq().curr_d())).raw("df", blocksx(*IpCq().curr_grad_f()))
               .raw("oc", dnum(n.OrigIpCq().trial_c())).raw("od", dnum(n.OrigIpCq().trial_d())).done();
            b.raw("q", q);
         }
         catch( ... ) {}
      };
      ConvergenceStatus r;
      try { r = RestoFilterConvergenceCheck::CheckConvergence(cb); }
      catch( IpoptException& e ) { rest(); P_(b.s("r", "exc").s("x", exname(e)).done()); throw; }
      rest();
      P_(b.s("r", names[r]).s("x", "").done());
      return r;
   }
};

struct RecResto : public MinC_1NrmRestorationPhase
{
   SmartPtr<FilterLSAcceptor> filt;
   RecResto(IpoptAlgorithm& a, const SmartPtr<EqMultiplierCalculator>& e, const SmartPtr<FilterLSAcceptor>& f) : MinC_1NrmRestorationPhase(a, e), filt(f) {}
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      mj::Obj b; b.s("e", "resto.new").i("L", 0);
      const char* nums[] = {"bound_mult_reset_threshold", "constr_mult_reset_threshold", "constr_viol_tol", "tol"};
      for( const char* n : nums ) { Number v; op.GetNumericValue(n, v, p); b.d(n, v); }
      bool ei; op.GetBoolValue("expect_infeasible_problem", ei, p);
      Number k, th; bool kset = op.GetNumericValue("required_infeasibility_reduction", k, "resto." + p), tset = op.GetNumericValue("resto_failure_feasibility_threshold", th, p);
      P_(b.b("ei", ei).b("kset", kset).d("k", k).b("tset", tset).d("fth", th).done());
      return MinC_1NrmRestorationPhase::InitializeImpl(op, p);
   }
   bool PerformRestoration()
   {
      Number th0 = IpCq().curr_constraint_violation(), pr0 = IpCq().curr_primal_infeasibility(NORM_MAX);
      P_(mj::Obj().s("e", "resto.start").i("L", 0).d("th", th0).d("pr", pr0).d("upr", IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX)).d("phi", IpCq().curr_barrier_obj()).i("it", IpData().iter_count()).b("sq", IpCq().IsSquareProblem()).d("mu", IpData().curr_mu()).d("tau", IpData().curr_tau()).d("tol", IpData().tol())
         .raw("c", dnum(IpCq().curr_c())).raw("dms", dnum(IpCq().curr_d_minus_s())).raw("cu", iv(*IpData().curr())).raw("sl", "[" + dnum(IpCq().curr_slack_x_L()) + "," + dnum(IpCq().curr_slack_x_U()) + "," + dnum(IpCq().curr_slack_s_L()) + "," + dnum(IpCq().curr_slack_s_U()) + "]").done());
      bool r;
      try { r = MinC_1NrmRestorationPhase::PerformRestoration(); }
      catch( IpoptException& e )
      {
         mj::Obj b; b.s("e", "resto.end").i("L", 0).s("r", exname(e));
         Number pr = NAN, upr = NAN;
         try { pr = IpCq().curr_primal_infeasibility(NORM_MAX); upr = IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX); } catch( ... ) {}
         P_(b.d("pr", pr).d("upr", upr).raw("cu", iv(*IpData().curr())).done());
         throw;
      }
      mj::Obj b; b.s("e", "resto.end").i("L", 0).s("r", r ? "true" : "false");
      if( r )
      {
         Number th = IpCq().trial_constraint_violation(), phi = IpCq().trial_barrier_obj();
         b.d("th", th).d("phi", phi).d("pr", IpCq().trial_primal_infeasibility(NORM_MAX))
          .raw("sl", "[" + dnum(IpCq().trial_slack_x_L()) + "," + dnum(IpCq().trial_slack_x_U()) + "," + dnum(IpCq().trial_slack_s_L()) + "," + dnum(IpCq().trial_slack_s_U()) + "]")
          .raw("tr", iv(*IpData().trial())).i("it", IpData().iter_count());
         Number jc = 0., jd = 0., w = NAN;
         try
         {
            SmartPtr<const Vector> wx = IpCq().trial_grad_lag_x(), ws = IpCq().trial_grad_lag_s();
            SmartPtr<Vector> a = IpData().trial()->y_c()->MakeNew(), d = ws->MakeNewCopy();
            IpCq().trial_jac_c()->MultVector(1., *wx, 0., *a);
            IpCq().trial_jac_d()->MultVector(1., *wx, -1., *d);
            jc = a->Amax(); jd = d->Amax();
            w = std::max(1., std::max(IpCq().trial_grad_f()->Amax(), std::max(wx->Amax(), ws->Amax())));
         }
         catch( ... ) {}
         b.d("jc", jc).d("jd", jd).d("w", w);
      }
      else b.raw("cu", iv(*IpData().curr()));
      P_(b.done());
      return r;
   }
};

#include "recmu.hpp"

// the real MUMPS interface, observed, with optional wrong answers at chosen factorizations
struct RecSolver : public SparseSymLinearSolverInterface
{
   SmartPtr<MumpsSolverInterface> in;
   Index dim = 0, nz = 0, neg = -1;
   bool lied = false;
   RecSolver() : in(new MumpsSolverInterface()) {}
   bool InitializeImpl(const OptionsList& o, const std::string& p)
   {
      return HaveIpData() ? in->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), o, p) : in->ReducedInitialize(Jnlst(), o, p);
   }
   ESymSolverStatus InitializeStructure(Index d, Index n, const Index* ia, const Index* ja)
   {
      dim = d; nz = n;
      P_(mj::Obj().s("e", "lin.struct").i("dim", d).i("nz", n).done());
      return in->InitializeStructure(d, n, ia, ja);
   }
   Number* GetValuesArrayPtr() { P_(mj::Obj().s("e", "lin.values").done()); return in->GetValuesArrayPtr(); }
   ESymSolverStatus MultiSolve(bool nm, const Index* ia, const Index* ja, Index nr, Number* rhs, bool chk, Index num)
   {
      std::string f;
      if( nm && R ) { try { f = R->fault("fact"); } catch( ... ) {} }
      ESymSolverStatus s;
      if( f == "singular" ) s = SYMSOLVER_SINGULAR;
      else if( f == "fatal" ) s = SYMSOLVER_FATAL_ERROR;
      else if( f == "inertia" && chk ) { s = SYMSOLVER_WRONG_INERTIA; neg = num + 1; lied = true; }
      else if( f == "inertialow" && chk && num > 0 ) { s = SYMSOLVER_WRONG_INERTIA; neg = num - 1; lied = true; }
      else { s = in->MultiSolve(nm, ia, ja, nr, rhs, chk, num); lied = false; }
      P_(mj::Obj().s("e", "lin.solve").b("new", nm).i("nr", nr).b("chk", chk).i("num", num).i("st", (int) s).i("neg", s == SYMSOLVER_SUCCESS || s == SYMSOLVER_WRONG_INERTIA ? NumberOfNegEVals() : -1).done());
      return s;
   }
   Index NumberOfNegEVals() const { return lied ? neg : in->NumberOfNegEVals(); }
   bool IncreaseQuality() { bool r = in->IncreaseQuality(); P_(mj::Obj().s("e", "lin.quality").b("r", r).done()); return r; }
   bool ProvidesInertia() const { return in->ProvidesInertia(); }
   EMatrixFormat MatrixFormat() const { return in->MatrixFormat(); }
   bool ProvidesDegeneracyDetection() const { return in->ProvidesDegeneracyDetection(); }
   ESymSolverStatus DetermineDependentRows(const Index* ia, const Index* ja, std::list<Index>& c) { return in->DetermineDependentRows(ia, ja, c); }
};

struct RecBuilder : public AlgorithmBuilder
{
   SmartPtr<ConvergenceCheck> conv;
   SmartPtr<EqMultiplierCalculator> eqm;
   SmartPtr<LineSearch> lsearch;
   SmartPtr<SymLinearSolver> SymLinearSolverFactory(const Journalist& j, const OptionsList& o, const std::string& p)
   {
      if( !R->linrec ) return AlgorithmBuilder::SymLinearSolverFactory(j, o, p);
      SmartPtr<SparseSymLinearSolverInterface> s = new RecSolver();
      return new TSymLinearSolver(s, NULL);
   }
   SmartPtr<ConvergenceCheck> BuildConvergenceCheck(const Journalist& j, const OptionsList& o, const std::string& p) { return conv = AlgorithmBuilder::BuildConvergenceCheck(j, o, p); }
   SmartPtr<EqMultiplierCalculator> BuildEqMultiplierCalculator(const Journalist& j, const OptionsList& o, const std::string& p) { return eqm = AlgorithmBuilder::BuildEqMultiplierCalculator(j, o, p); }
   SmartPtr<MuOracle> oracle(const std::string& w, const SmartPtr<PDSystemSolver>& s)
   {
      if( w == "loqo" ) return new LoqoMuOracle();
      if( w == "probing" ) return new ProbingMuOracle(s);
      if( w == "quality-function" ) return new QualityFunctionMuOracle(s);
      return NULL;
   }
   SmartPtr<MuUpdate> makemu(const OptionsList& o, const std::string& p, const SmartPtr<LineSearch>& l, const SmartPtr<PDSystemSolver>& s, int lev)
   {
      std::string k, a, b;
      bool lim = limmem(o, p);
      if( !o.GetStringValue("mu_strategy", k, p) && lim ) k = "adaptive";
      if( k == "monotone" ) return new RecMu<MonotoneMuUpdate>(l, lev);
      o.GetStringValue("mu_oracle", a, p);
      o.GetStringValue("fixed_mu_oracle", b, p);
      auto rec = [&](const std::string& w, bool f) -> SmartPtr<MuOracle> { SmartPtr<MuOracle> x = oracle(w, s); if( IsNull(x) ) return NULL; return new RecOracle(x, lev, w, f); };
      return new RecMu<AdaptiveMuUpdate>(l, rec(a, false), rec(b, true), lev);
   }
   bool limmem(const OptionsList& o, const std::string& p) { Index e; o.GetEnumValue("hessian_approximation", e, p); return e == LIMITED_MEMORY; }
   SmartPtr<MuUpdate> BuildMuUpdate(const Journalist& j, const OptionsList& o, const std::string& p)
   {
      if( !R->murec ) return AlgorithmBuilder::BuildMuUpdate(j, o, p);
      return makemu(o, p, lsearch, GetPDSystemSolver(j, o, p), 0);
   }
   SmartPtr<LineSearch> BuildLineSearch(const Journalist& j, const OptionsList& o, const std::string& p)
   {
      std::string m, rm;
      o.GetStringValue("line_search_method", m, p);
      o.GetStringValue("line_search_method", rm, "resto." + p);
      if( !R->lsrec || m != "filter" || rm != "filter" ) return lsearch = AlgorithmBuilder::BuildLineSearch(j, o, p);
      bool lim = limmem(o, p);
      SmartPtr<AugSystemSolver> aug = new AugRestoSystemSolver(*GetAugSystemSolver(j, o, p));
      SmartPtr<PDPerturbationHandler> ph = new PDPerturbationHandler();
      SmartPtr<PDSystemSolver> pd = new PDFullSpaceSolver(*aug, *ph);
      SmartPtr<RestoFilterConvergenceCheck> rcc = new RecRestoConv();
      SmartPtr<RestoRestorationPhase> rr = new RecRestoResto();
      SmartPtr<BacktrackingLSAcceptor> racc = new RecFilter(pd, GetRawPtr(rcc), 1);
      SmartPtr<LineSearch> rls = new RecLS(racc, GetRawPtr(rr), GetRawPtr(rcc), 1);
      SmartPtr<MuUpdate> rmu = makemu(o, "resto." + p, rls, pd, 1);
      SmartPtr<EqMultiplierCalculator> reqm = new LeastSquareMultipliers(*aug);
      SmartPtr<IterateInitializer> rini = new RestoIterateInitializer(reqm);
      SmartPtr<IterationOutput> rout = new RestoIterationOutput(NULL);
      SmartPtr<HessianUpdater> rh;
      if( lim ) rh = new LimMemQuasiNewtonUpdater(true); else rh = new ExactHessianUpdater();
      SmartPtr<SearchDirectionCalculator> rsd = new PDSearchDirCalculator(GetRawPtr(pd));
      SmartPtr<IpoptAlgorithm> ralg = new IpoptAlgorithm(rsd, rls, rmu, GetRawPtr(rcc), rini, rout, rh, reqm);
      SmartPtr<FilterLSAcceptor> acc = new RecFilter(GetRawPtr(GetPDSystemSolver(j, o, p)), conv, 0);
      SmartPtr<RestorationPhase> resto = new RecResto(*ralg, eqm, acc);
      lsearch = new RecLS(GetRawPtr(acc), resto, conv, 0);
      rcc->SetOrigLSAcceptor(*acc);
      return lsearch;
   }
};

static bool setopt(IpoptApplication& app, const std::string& k, const std::string& v)
{
   std::string name = k;
   size_t d = k.rfind('.');
   if( d != std::string::npos ) name = k.substr(d + 1);
   SmartPtr<const RegisteredOption> o = app.RegOptions()->GetOption(name);
   if( !IsValid(o) ) { fprintf(stderr, "unknown option %s\n", k.c_str()); return false; }
   switch( o->Type() )
   {
      case OT_Number: return app.Options()->SetNumericValue(k, strtod(v.c_str(), 0));
      case OT_Integer: return app.Options()->SetIntegerValue(k, atoi(v.c_str()));
      default: return app.Options()->SetStringValue(k, v);
   }
}

int main()
{
   std::string line;
   while( std::getline(std::cin, line) && !line.empty() )
   {
      mj::V c = mj::parse(line);
      Table xs, ls;
      struct Slot { SmartPtr<IpoptApplication> app; SmartPtr<Rec> t; SmartPtr<TNLP> tnlp; SmartPtr<NLP> adapter; SmartPtr<AlgorithmBuilder> bld; };
      std::map<long, Slot> slots;   // several applications may live at the same time
      std::string out = "[";
      struct Fin { std::vector<double> x, zl, zu, lam; };
      std::vector<Fin> fins;   // what every run left in the user's arrays
      const mj::V& runs = c["runs"];
      for( size_t r = 0; r < runs.size(); ++r )
      {
         const mj::V& q = runs[r];
         Slot& slot = slots[q.integer("app", 0)];
         SmartPtr<IpoptApplication>& app = slot.app;
         SmartPtr<Rec>& t = slot.t;
         SmartPtr<TNLP>& tnlp = slot.tnlp;
         SmartPtr<NLP>& adapter = slot.adapter;
         SmartPtr<AlgorithmBuilder>& bld = slot.bld;
         if( !IsValid(app) || q.boolean("fresh", false) )
         {
            app = NULL;
            adapter = NULL;
            app = new IpoptApplication(false);
            app->Options()->SetIntegerValue("print_level", 0);
            app->Options()->SetStringValue("sb", "yes");
            if( c.boolean("rethrow_off", true) ) app->RethrowNonIpoptException(false);
         }
         bool newprob = !IsValid(t) || q.has("prob");
         if( newprob )
         {
            t = new Rec();
            tnlp = GetRawPtr(t);
            t->xs = &xs; t->ls = &ls;
            t->P.parse(c["probs"][q.integer("prob", 0)]);
            if( q.has("reduce") )
            {
               std::vector<int> d[4];
               const char* nm[] = {"g", "xl", "xu", "fix"};
               for( int k = 0; k < 4; ++k )
               {
                  d[k] = q["reduce"][nm[k]].ivec();
                  for( int& v : d[k] ) v += t->P.base;
                  d[k].push_back(-1);
               }
               tnlp = new TNLPReducer(*t, d[0].size() - 1, d[0].data(), d[1].size() - 1, d[1].data(), d[2].size() - 1, d[2].data(), d[3].size() - 1, d[3].data());
            }
            adapter = NULL;
         }
         R = GetRawPtr(t);
         bool optok = true;
         if( q.has("unset") ) for( auto& o : q["unset"].a ) app->Options()->UnsetValue(o.s);
         if( q.has("opts") ) for( auto& o : q["opts"].a ) optok = setopt(*app, o[0].s, o[1].t == mj::V::STR ? o[1].s : std::to_string(o[1].n)) && optok;
         int iret = app->Initialize("");
         if( q.boolean("from_last", false) ) { t->P.x0 = t->fx; t->P.zl0 = t->fzl; t->P.zu0 = t->fzu; t->P.lam0 = t->flam; }
         if( q.has("mod") )
         {
            const mj::V& m = q["mod"];
            if( m.has("x0") ) t->P.x0 = m["x0"].vec();
            if( m.has("zl0") ) t->P.zl0 = m["zl0"].vec();
            if( m.has("zu0") ) t->P.zu0 = m["zu0"].vec();
            if( m.has("lam0") ) t->P.lam0 = m["lam0"].vec();
            if( m.has("xl") ) t->P.xl = m["xl"].vec();
            if( m.has("xu") ) t->P.xu = m["xu"].vec();
            if( m.has("gl") ) t->P.gl = m["gl"].vec();
            if( m.has("gu") ) t->P.gu = m["gu"].vec();
            if( m.has("obj") ) { t->P.obj = Func(); t->P.obj.parse(m["obj"]); }
         }
         if( q.has("src") )
         {
            const mj::V& m = q["src"];   // the starting point was left by previous runs
            if( m.has("x0") ) t->P.x0 = fins.at(m["x0"].i()).x;
            if( m.has("zl0") ) t->P.zl0 = fins.at(m["zl0"].i()).zl;
            if( m.has("zu0") ) t->P.zu0 = fins.at(m["zu0"].i()).zu;
            if( m.has("lam0") ) t->P.lam0 = fins.at(m["lam0"].i()).lam;
         }
         Fin fin{t->P.x0, t->P.zl0, t->P.zu0, t->P.lam0};
         if( q.boolean("nomult", false) ) t->P.lam0.clear();   // starting values the user does not have
         if( q.boolean("noz", false) ) { t->P.zl0.clear(); t->P.zu0.clear(); }
         t->faults.clear();
         if( q.has("faults") ) for( auto& f : q["faults"].a ) t->faults.push_back(Fault{f["kind"].s, f["what"].s, f["k"].i(), f.integer("to", f["k"].i()), f.integer("pos", 0)});
         t->calls.clear();
         t->iters = 0; t->ev.clear(); t->nfin = 0;
         t->stop_at = q.integer("stop", -1);
         t->query = q.integer("query", 0);
         t->sleep_at = q.integer("sleep_at", -1); t->sleep_s = q.num("sleep", 0.);
         t->lsrec = t->murec = t->linrec = false;
         int rec = q.integer("rec", 0);
         t->lsrec = rec & 1; t->murec = rec & 1; t->linrec = rec & 2;
         std::string how = q.string("how", "opt"), fvt;
         app->Options()->GetStringValue("fixed_variable_treatment", fvt, "");
         t->eliminated = fvt == "make_parameter" || fvt == "make_parameter_nodual";
         long ret;
         try
         {
            if( rec )
            {
               if( !IsValid(adapter) ) adapter = new TNLPAdapter(tnlp, ConstPtr(app->Jnlst()));
               if( how == "opt" ) { bld = new RecBuilder; ret = app->OptimizeNLP(adapter, bld); }
               else ret = app->ReOptimizeNLP(adapter);
            }
            else
               ret = how == "opt" ? app->OptimizeTNLP(tnlp) : app->ReOptimizeTNLP(tnlp);
         }
         catch( int ) { ret = -1000; }
         catch( IpoptException& e ) { ret = -2000; t->push(mj::Obj().s("e", "exc").s("m", e.Message()).done()); }
         mj::Obj e;
         e.s("e", "end").i("ret", ret).b("optok", optok).i("init", iret);
         SmartPtr<SolveStatistics> st = app->Statistics();
         e.b("stats", IsValid(st));
         if( IsValid(st) )
         {
            Index nf, nc, ndf, nj, nh;
            Number du, cv, vb, co, kk, sdu, scv, svb, sco, skk;
            st->NumberOfEvaluations(nf, nc, ndf, nj, nh);
            st->Infeasibilities(du, cv, vb, co, kk);
            st->ScaledInfeasibilities(sdu, scv, svb, sco, skk);
            e.i("iters", st->IterationCount()).raw("n", "[" + std::to_string(nf) + "," + std::to_string(ndf) + "," + std::to_string(nc) + "," + std::to_string(nj) + "," + std::to_string(nh) + "]")
             .d("fobj", st->FinalObjective()).d("sfobj", st->FinalScaledObjective()).d("idu", du).d("icv", cv).d("ivb", vb).d("ico", co).d("ikk", kk).d("sdu", sdu).d("scv", scv).d("svb", svb).d("sco", sco).d("skk", skk);
         }
         bool timer = false;
         if( IsValid(app->IpoptDataObject()) ) timer = app->IpoptDataObject()->TimingStats().OverallAlgorithm().IsStarted();
         e.b("timer", timer).i("nfin", t->nfin);
         {
            std::vector<double> v(t->P.n + t->P.m, 0.);
            e.b("after", t->get_curr_iterate(NULL, NULL, false, t->P.n, v.data(), NULL, NULL, t->P.m, NULL, NULL) || t->get_curr_violations(NULL, NULL, false, t->P.n, v.data(), NULL, NULL, NULL, NULL, t->P.m, NULL, NULL));
         }
         t->push(e.done());
         std::string evs = "[";
         for( size_t i = 0; i < t->ev.size(); ++i ) evs += (i ? "," : "") + t->ev[i];
         out += (r ? "," : "") + mj::Obj().raw("ev", evs + "]").done();
         if( t->nfin ) fin = Fin{t->fx, t->fzl, t->fzu, t->flam};
         fins.push_back(fin);
      }
      out += "]";
      for( auto& o : slots ) { Slot& S = o.second; S.bld = NULL; S.adapter = NULL; S.tnlp = NULL; S.app = NULL; S.t = NULL; }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("runs", out).raw("xs", xs.json()).raw("ls", ls.json()).done() << "\n" << std::flush;
   }
   return 0;
}
