// the real barrier parameter updates and oracles, observed from outside (needs P_(std::string) to record an event)
#ifndef RECMU_HPP
#define RECMU_HPP
#include "userprob.hpp"
#include "IpMonotoneMuUpdate.hpp"
#include "IpAdaptiveMuUpdate.hpp"
#include "IpMuOracle.hpp"
using namespace Ipopt;

struct RecOracle : public MuOracle
{
   SmartPtr<MuOracle> in; int lev; std::string kind; bool fixed;
   RecOracle(const SmartPtr<MuOracle>& i, int l, const std::string& k, bool f) : in(i), lev(l), kind(k), fixed(f) { }
   bool InitializeImpl(const OptionsList& o, const std::string& p) { return in->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), o, p); }
   bool CalculateMu(Number lo, Number hi, Number& mu)
   {
      bool r = in->CalculateMu(lo, hi, mu);
      P_(mj::Obj().s("e", "mu.oracle").i("L", lev).s("kind", kind).b("fixed", fixed).d("lo", lo).d("hi", hi).b("r", r).d("mu", r ? mu : 0.).done());
      return r;
   }
};

template<class M> struct RecMu : public M
{
   int lev;
   std::string kind;
   SmartPtr<LineSearch> ls;
   RecMu(const SmartPtr<LineSearch>& l, int lv) : M(l), lev(lv), kind("monotone"), ls(l) {}
   RecMu(const SmartPtr<LineSearch>& l, const SmartPtr<MuOracle>& a, const SmartPtr<MuOracle>& b, int lv) : M(l, a, b), lev(lv), kind("adaptive"), ls(l) {}
   bool InitializeImpl(const OptionsList& op, const std::string& p)
   {
      bool r = M::InitializeImpl(op, p);
      mj::Obj b; b.s("e", "mu.new").i("L", lev).s("kind", kind);
      const char* names[] = {"mu_init", "barrier_tol_factor", "mu_linear_decrease_factor", "mu_superlinear_decrease_power", "tau_min", "mu_target", "compl_inf_tol", "mu_min", "mu_max", "mu_max_fact",
                             "adaptive_mu_monotone_init_factor", "adaptive_mu_kkterror_red_fact", "adaptive_mu_safeguard_factor", "filter_margin_fact", "filter_max_margin", "s_max"};
      for( const char* nm : names ) { Number v; bool set = op.GetNumericValue(nm, v, p); b.d(nm, v); if( std::string(nm) == "mu_max" ) b.b("mu_max_set", set); if( std::string(nm) == "mu_min" ) b.b("mu_min_set", set); }
      bool f; op.GetBoolValue("mu_allow_fast_monotone_decrease", f, p); b.b("fast", f);
      op.GetBoolValue("adaptive_mu_restore_previous_iterate", f, p); b.b("restore", f);
      Index i; op.GetIntegerValue("adaptive_mu_kkterror_red_iters", i, p); b.i("red_iters", i);
      for( const char* nm : {"adaptive_mu_globalization", "quality_function_norm_type", "quality_function_centrality", "quality_function_balancing_term"} ) { op.GetEnumValue(nm, i, p); b.i(nm, i); }
      b.d("mu0", this->IpData().curr_mu()).d("tau0", this->IpData().curr_tau()).b("free0", this->IpData().FreeMuMode());
      P_(b.done());
      return r;
   }
   std::string quant()
   {
      IpoptCalculatedQuantities& q = this->IpCq();
      const IteratesVector& it = *this->IpData().curr();
      mj::Obj b;
      try
      {
         b.raw("gx", dnum(q.curr_grad_lag_x())).raw("gs", dnum(q.curr_grad_lag_s())).raw("c", dnum(q.curr_c())).raw("dms", dnum(q.curr_d_minus_s()));
         std::vector<double> cp;
         SmartPtr<const Vector> parts[4] = {q.curr_compl_x_L(), q.curr_compl_x_U(), q.curr_compl_s_L(), q.curr_compl_s_U()};
         for( auto& v : parts ) for( double d : dense(*v) ) cp.push_back(d);
         b.raw("cp", mj::num(cp)).d("f", q.curr_f()).d("th", q.curr_constraint_violation()).d("viol", q.curr_nlp_constraint_violation(NORM_MAX)).b("ok", true);
      }
      catch( IpoptException& ) { return mj::Obj().b("ok", false).done(); }
      b.d("y1", it.y_c()->Asum() + it.y_d()->Asum()).i("ny", it.y_c()->Dim() + it.y_d()->Dim()).d("z1", it.z_L()->Asum() + it.z_U()->Asum() + it.v_L()->Asum() + it.v_U()->Asum())
       .i("nz", it.z_L()->Dim() + it.z_U()->Dim() + it.v_L()->Dim() + it.v_U()->Dim()).raw("x", dnum(it.x())).raw("s", dnum(it.s()));
      return b.done();
   }
   bool UpdateBarrierParameter()
   {
      IpoptData& D = this->IpData();
      Number coi; { Number v; this->opts_compl(v); coi = v; }
      mj::Obj b; b.s("e", "mu.update").i("L", lev).i("it", D.iter_count()).d("mu0", D.curr_mu()).d("tau0", D.curr_tau()).b("tiny0", D.tiny_step_flag()).b("free0", D.FreeMuMode())
                  .b("skipped", ls->CheckSkippedLineSearch()).d("tol", D.tol()).d("df", coi).raw("q", quant());
      SmartPtr<const IteratesVector> cu = D.curr();
      P_(mj::Obj().s("e", "mu.begin").i("L", lev).done());
      std::string r;
      auto fin = [&]() { P_(b.s("r", r).d("mu", D.curr_mu()).d("tau", D.curr_tau()).b("tiny", D.tiny_step_flag()).b("free", D.FreeMuMode()).raw("q1", D.curr() == cu ? "{\"ok\":false}" : quant()).b("moved", D.curr() != cu).done()); };
      try { r = M::UpdateBarrierParameter() ? "ok" : "false"; }
      catch( IpoptException& ex ) { r = dynamic_cast<TINY_STEP_DETECTED*>(&ex) ? "tiny" : "exc"; fin(); throw; }
      fin();
      return r == "ok";
   }
   void opts_compl(Number& v) { v = std::abs(this->IpNLP().NLP_scaling()->apply_obj_scaling(1.)); }
};
#endif
