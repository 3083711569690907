// The real MonotoneMuUpdate / AdaptiveMuUpdate between scripted iterates, line search and oracles; records what Mu.tla checks.
#include "mini_json.hpp"
static std::string EV;
static void P_(const std::string& e) { EV += (EV.size() ? "," : "") + e; }
#include "recmu.hpp"
#include "IpLoqoMuOracle.hpp"
#include "IpAlgBuilder.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
#include "IpTripletHelper.hpp"
static double G[3], F;
class P3: public TNLP
{
public:
   bool nob;
   P3(bool b) : nob(b) { }
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) { n = 3; m = 2; nj = 2; nh = 0; st = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* l, Number* u, Index, Number* gl, Number* gu)
   {
      for( int i = 0; i < 3; i++ ) { l[i] = -1e20; u[i] = 1e20; }
      gl[0] = gu[0] = 0; gl[1] = nob ? -1e20 : 0; gu[1] = 1e20;
      if( !nob ) l[0] = 0;
      return true;
   }
   bool get_starting_point(Index, bool, Number* x, bool, Number*, Number*, Index, bool, Number*) { x[0] = x[2] = 1; x[1] = 0; return true; }
   bool eval_f(Index, const Number*, bool, Number& f) { f = F; return true; }
   bool eval_grad_f(Index, const Number*, bool, Number* g) { for( int i = 0; i < 3; i++ ) g[i] = G[i]; return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) { g[0] = x[1]; g[1] = x[2]; return true; }
   bool eval_jac_g(Index, const Number*, bool, Index, Index, Index* ir, Index* jc, Number* v) { if( v ) v[0] = v[1] = 1; else { ir[0] = 0; jc[0] = 1; ir[1] = 1; jc[1] = 2; } return true; }
   bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) { return true; }
   void finalize_solution(SolverReturn, Index, const Number*, const Number*, const Number*, Index, const Number*, const Number*, Number, const IpoptData*, IpoptCalculatedQuantities*) { }
};
struct LS : public LineSearch
{
   int lev; bool skipped;
   LS(int l) : lev(l), skipped(false) { }
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void FindAcceptableTrialPoint() { }
   void Reset() { P_(mj::Obj().s("e", "ls.reset").i("L", lev).done()); }
   void SetRigorousLineSearch(bool r) { P_(mj::Obj().s("e", "ls.rigorous").i("L", lev).b("r", r).done()); }
   bool CheckSkippedLineSearch() { return skipped; }
   bool ActivateFallbackMechanism() { return false; }
};
struct Orc : public MuOracle
{
   bool ok; double v;
   Orc() : ok(true), v(0) { }
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMu(Number, Number, Number& mu) { if( ok ) mu = v; return ok; }
};
static SmartPtr<Vector> vec(const Vector& like, const std::vector<double>& a)
{
   SmartPtr<Vector> v = like.MakeNew();
   if( v->Dim() ) TripletHelper::PutValuesInVector(v->Dim(), a.data(), *v);
   return v;
}
int main()
{
   IpoptApplication app(false, false);
   SmartPtr<Journalist> jnl = new Journalist();
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      EV = "";
      SmartPtr<OptionsList> opt = new OptionsList(*app.Options());
      for( size_t k = 0; k < c["opts"].size(); k++ )
      {
         std::string n = c["opts"][k][0].s, v = c["opts"][k][1].s;
         SmartPtr<const RegisteredOption> ro = app.RegOptions()->GetOption(n);
         if( ro->Type() == OT_Number ) opt->SetNumericValue(n, atof(v.c_str())); else if( ro->Type() == OT_Integer ) opt->SetIntegerValue(n, atoi(v.c_str())); else opt->SetStringValue(n, v);
      }
      int lev = c["level"].i(); bool nob = c["nob"].b();
      std::string prefix = lev ? "resto." : "";
      SmartPtr<NLP> nlp = new TNLPAdapter(new P3(nob), ConstPtr(jnl));
      SmartPtr<AlgorithmBuilder> bld = new AlgorithmBuilder();
      SmartPtr<IpoptNLP> ipnlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq;
      bld->BuildIpoptObjects(*jnl, *opt, "", nlp, ipnlp, data, cq);
      ipnlp->Initialize(*jnl, *opt, ""); data->Initialize(*jnl, *opt, ""); cq->Initialize(*jnl, *opt, "");
      data->InitializeDataStructures(*ipnlp, true, false, false, false, false);
      SmartPtr<LS> ls = new LS(lev);
      SmartPtr<Orc> of = new Orc(), ox = new Orc();
      SmartPtr<MuUpdate> mu;
      std::string kind = c["kind"].s;
      if( kind == "monotone" ) mu = new RecMu<MonotoneMuUpdate>(GetRawPtr(ls), lev);
      else
      {
         SmartPtr<MuOracle> a = GetRawPtr(of), b = GetRawPtr(ox);
         if( c["loqo"].b() ) a = new LoqoMuOracle();
         mu = new RecMu<AdaptiveMuUpdate>(GetRawPtr(ls), new RecOracle(a, lev, c["loqo"].b() ? "loqo" : "scripted", false), c["fixorc"].b() ? SmartPtr<MuOracle>(new RecOracle(b, lev, "scripted", true)) : SmartPtr<MuOracle>(), lev);
      }
      mu->Initialize(*jnl, *ipnlp, *data, *cq, *opt, prefix);
      const mj::V& st = c["steps"];
      for( size_t q = 0; q < st.size(); q++ )
      {
         const mj::V& a = st[q];
         double m = data->curr_mu(), zl = a["rel"].b() ? m * a["a"].d() : a["a"].d(), vl = a["rel"].b() ? m * a["b"].d() : a["b"].d();
         double pr = a["rel"].b() ? m * a["pr"].d() : a["pr"].d(), du = a["rel"].b() ? m * a["du"].d() : a["du"].d();
         if( nob ) zl = vl = 0;
         F = a["f"].d(); G[0] = zl + du; G[1] = 0; G[2] = vl;
         SmartPtr<const IteratesVector> cur = data->curr();
         SmartPtr<IteratesVector> it = cur->MakeNewContainer();
         it->Set_x(*vec(*cur->x(), {1 + .001 * q, pr, 1}));
         it->Set_s(*vec(*cur->s(), {1}));
         it->Set_y_c(*vec(*cur->y_c(), {0}));
         it->Set_y_d(*vec(*cur->y_d(), {-vl}));
         it->Set_z_L(*vec(*cur->z_L(), {zl})); it->Set_z_U(*vec(*cur->z_U(), {})); it->Set_v_L(*vec(*cur->v_L(), {vl})); it->Set_v_U(*vec(*cur->v_U(), {}));
         data->set_trial(it); data->AcceptTrialPoint();
         data->Set_tiny_step_flag(a["tiny"].b());
         ls->skipped = a["skip"].b();
         if( a.has("tol") ) data->Set_tol(a["tol"].d());
         if( a.has("orc") ) { double v = a["orc"].d(); of->ok = v >= 0; of->v = v; }
         if( a.has("orx") ) { double v = a["orx"].d(); ox->ok = v >= 0; ox->v = v; }
         try { if( !mu->UpdateBarrierParameter() ) break; }
         catch( IpoptException& ) { break; }
         data->Set_iter_count(q + 1);
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("ev", "[" + EV + "]").done() << "\n" << std::flush;
   }
   return 0;
}
