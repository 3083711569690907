// the real BacktrackingLineSearch, observed from outside (needs P_(std::string) to record an event)
#ifndef RECLS_HPP
#define RECLS_HPP
#include "userprob.hpp"
#include "IpBacktrackingLineSearch.hpp"
using namespace Ipopt;

static std::string iv(const IteratesVector& v)
{
   return mj::Obj().raw("x", dnum(v.x())).raw("s", dnum(v.s())).raw("yc", dnum(v.y_c())).raw("yd", dnum(v.y_d()))
          .raw("zl", dnum(v.z_L())).raw("zu", dnum(v.z_U())).raw("vl", dnum(v.v_L())).raw("vu", dnum(v.v_U())).done();
}

struct RecLS : public BacktrackingLineSearch
{
   int lev;
   bool resto;
   SmartPtr<ConvergenceCheck> conv;
   RecLS(const SmartPtr<BacktrackingLSAcceptor>& a, const SmartPtr<RestorationPhase>& r, const SmartPtr<ConvergenceCheck>& c, int l) : BacktrackingLineSearch(a, r, c), lev(l), resto(IsValid(r)), conv(c) {}
   mj::Obj o(const char* e) { mj::Obj r; r.s("e", e).i("L", lev); return r; }
   // largest relative change of an entry
   static double rel(const Vector& d, const Vector& v)
   {
      SmartPtr<Vector> a = v.MakeNewCopy(), b = d.MakeNewCopy();
      a->ElementWiseAbs(); a->AddScalar(1.); b->ElementWiseDivide(*a);
      return b->Amax();
   }
   std::string proj(double sg, const Matrix& P, const Vector& d, const Vector& like)
   {
      SmartPtr<Vector> t = like.MakeNew();
      P.TransMultVector(sg, d, 0., *t);
      return dnum(ConstPtr(t));
   }
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      Index ay; Number at;
      op.GetEnumValue("alpha_for_y", ay, p);
      op.GetNumericValue("alpha_for_y_tol", at, p);
      bool r = BacktrackingLineSearch::InitializeImpl(op, p);
      P_(o("ls.new").b("resto", resto).i("afy", ay).d("afytol", at).done());
      return r;
   }
   void FindAcceptableTrialPoint()
   {
      {
         mj::Obj b = o("ls.find");
         bool dl = IsValid(IpData().delta());
         b.i("it", IpData().iter_count()).d("mu", IpData().curr_mu()).d("tau", IpData().curr_tau()).d("th", IpCq().curr_constraint_violation()).d("upr", IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX))
          .d("y", std::max(IpData().curr()->y_c()->Amax(), IpData().curr()->y_d()->Amax())).d("tol", IpData().tol()).b("delta", dl).b("acc", IsValid(conv) && conv->CurrentIsAcceptable()).b("sq", IpCq().IsSquareProblem());
         if( dl )
         {
            const IteratesVector& D = *IpData().delta();
            b.d("amax", IpCq().curr_primal_frac_to_the_bound(IpData().curr_tau())).d("dy", std::max(D.y_c()->Amax(), D.y_d()->Amax()))
             .d("rel", std::max(rel(*D.x(), *IpData().curr()->x()), rel(*D.s(), *IpData().curr()->s())));
         }
         if( lev == 0 )
         {
            b.raw("cu", iv(*IpData().curr()));
            if( dl )
            {
               const IteratesVector& D = *IpData().delta();
               b.raw("dl", iv(D));
               b.raw("sl", "[" + dnum(IpCq().curr_slack_x_L()) + "," + dnum(IpCq().curr_slack_x_U()) + "," + dnum(IpCq().curr_slack_s_L()) + "," + dnum(IpCq().curr_slack_s_U()) + "]")
                .raw("ds", "[" + proj(1., *IpNLP().Px_L(), *D.x(), *D.z_L()) + "," + proj(-1., *IpNLP().Px_U(), *D.x(), *D.z_U()) + "," + proj(1., *IpNLP().Pd_L(), *D.s(), *D.v_L()) + "," + proj(-1., *IpNLP().Pd_U(), *D.s(), *D.v_U()) + "]");
            }
         }
         P_(b.done());
      }
      SmartPtr<const IteratesVector> cu = IpData().curr();
      try { BacktrackingLineSearch::FindAcceptableTrialPoint(); }
      catch( IpoptException& e )
      {
         std::string t = "other";
#define X(n) if( dynamic_cast<n*>(&e) ) t = #n;
         X(STEP_COMPUTATION_FAILED) X(ACCEPTABLE_POINT_REACHED) X(RESTORATION_FAILED) X(LOCALLY_INFEASIBLE) X(RESTORATION_CONVERGED_TO_FEASIBLE_POINT) X(RESTORATION_MAXITER_EXCEEDED)
         X(RESTORATION_CPUTIME_EXCEEDED) X(RESTORATION_WALLTIME_EXCEEDED) X(RESTORATION_USER_STOP) X(FEASIBILITY_PROBLEM_SOLVED) X(TOO_FEW_DOF)
         if( dynamic_cast<IpoptNLP::Eval_Error*>(&e) ) t = "Eval_Error";
#undef X
         mj::Obj b = o("ls.end");
         b.s("r", "exc").s("x", t);
         if( lev == 0 ) b.raw("cu", iv(*IpData().curr()));
         P_(b.done());
         throw;
      }
      bool sk = CheckSkippedLineSearch();
      mj::Obj b = o("ls.end");
      b.s("r", sk ? "skipped" : "ok").s("c", std::string(1, IpData().info_alpha_primal_char())).i("n", IpData().info_ls_count())
       .d("ap", IpData().info_alpha_primal()).d("ad", IpData().info_alpha_dual()).b("tiny", IpData().tiny_step_flag()).b("back", GetRawPtr(cu) != GetRawPtr(IpData().curr())).s("info", IpData().info_string());
      if( lev == 0 && !sk && IsValid(IpData().trial()) ) b.raw("tr", iv(*IpData().trial()));
      P_(b.done());
   }
   void Reset() { P_(o("ls.reset").done()); BacktrackingLineSearch::Reset(); }
   void SetRigorousLineSearch(bool r) { P_(o("ls.rigorous").b("r", r).done()); BacktrackingLineSearch::SetRigorousLineSearch(r); }
   bool ActivateFallbackMechanism() { bool r = BacktrackingLineSearch::ActivateFallbackMechanism(); P_(o("ls.fallback").b("r", r).done()); return r; }
};
#endif
