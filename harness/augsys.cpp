// Replays AugSys.tla: the real StdAugSystemSolver with a recording linear solver.
#include "mini_json.hpp"
#include "userprob.hpp"
#include "IpStdAugSystemSolver.hpp"
#include "IpSymLinearSolver.hpp"
#include "IpSymTMatrix.hpp"
#include "IpGenTMatrix.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpTripletHelper.hpp"
#include "IpAlgBuilder.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
using namespace Ipopt;
static std::string num(double v){ if( v == (double)(long long)v && v > -1e15 && v < 1e15 ){ char b[40]; snprintf(b,40,"%lld",(long long)v); return b; } char b[60]; snprintf(b,60,"\"%a\"",v); return b; }
static std::string arr(const std::vector<double>& p){ std::string s="["; for(size_t i=0;i<p.size();i++){ if(i) s+=","; s+=num(p[i]); } return s+"]"; }
static std::string ANS, MAT, RHS; static bool NEWTAG, CHK; static TaggedObject::Tag TAG;
class Lin: public SymLinearSolver
{
public:
   SmartPtr<const SymMatrix> keep;
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus MultiSolve(const SymMatrix& A, std::vector<SmartPtr<const Vector> >& R, std::vector<SmartPtr<Vector> >& S, bool chk, Index nn)
   {
      Index n = A.Dim(), nz = TripletHelper::GetNumberEntries(A);
      std::vector<Index> ir(nz), jc(nz); std::vector<Number> v(nz);
      TripletHelper::FillRowCol(nz, A, ir.data(), jc.data()); TripletHelper::FillValues(nz, A, v.data());
      std::vector<std::vector<double> > d(n);
      for( int i = 0; i < n; i++ ) d[i].assign(i + 1, 0.);
      for( int k = 0; k < nz; k++ ) { int i = std::max(ir[k], jc[k]) - 1, j = std::min(ir[k], jc[k]) - 1; d[i][j] += v[k]; }
      MAT = "[";
      for( int i = 0; i < n; i++ ) MAT += (i ? "," : "") + arr(d[i]);
      MAT += "]";
      NEWTAG = A.GetTag() != TAG; TAG = A.GetTag(); CHK = chk && nn == 3;
      if( chk != (nn == 3) ) CHK = !chk;
      keep = &A;
      RHS = "[";
      for( size_t r = 0; r < R.size(); r++ )
      {
         std::vector<double> x(n); TripletHelper::FillValuesFromVector(n, *R[r], x.data());
         RHS += (r ? "," : "") + arr(x);
         if( ANS == "success" ) { for( int i = 0; i < n; i++ ) x[i] = 100. * (r + 1) + i + 1; TripletHelper::PutValuesInVector(n, x.data(), *S[r]); }
      }
      RHS += "]";
      return ANS == "success" ? SYMSOLVER_SUCCESS : SYMSOLVER_SINGULAR;
   }
   Index NumberOfNegEVals() const { return 0; }
   bool IncreaseQuality() { return false; }
   bool ProvidesInertia() const { return true; }
};
static int WV(int v, int i, int j) { int k = i < j ? j * 3 + i : i * 3 + j; return ((v * 7 + k * 5) % 13) - 6; }
static int DV(int k, int v, int i) { return ((v * 5 + i * 3 + k) % 9) - 2; }
static int JV(int k, int v, int i, int j) { return ((v * 3 + i * 5 + j * 7 + k) % 11) - 5; }
int main()
{
   IpoptApplication app(false, false);
   SmartPtr<Journalist> jnl = new Journalist();
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      int nx = c["nx"].i(), ns = c["ns"].i(), nc = c["nc"].i();
      SmartPtr<OptionsList> opt = new OptionsList(*app.Options());
      SmartPtr<NLP> nlp = new TNLPAdapter(new UserTNLP(), ConstPtr(jnl));
      SmartPtr<AlgorithmBuilder> b = new AlgorithmBuilder();
      SmartPtr<IpoptNLP> ipnlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq;
      b->BuildIpoptObjects(*jnl, *opt, "", nlp, ipnlp, data, cq);
      SmartPtr<Lin> lin = new Lin();
      SmartPtr<StdAugSystemSolver> aug = new StdAugSystemSolver(*lin);
      aug->Initialize(*jnl, *ipnlp, *data, *cq, *opt, "");
      TAG = 0;
      std::vector<Index> ir, jc;
      for( int i = 1; i <= nx; i++ ) for( int j = 1; j <= i; j++ ) { ir.push_back(i); jc.push_back(j); }
      SmartPtr<SymTMatrixSpace> ws = new SymTMatrixSpace(nx, (Index)ir.size(), ir.data(), jc.data());
      auto jsp = [&](int m) { std::vector<Index> a, q; for( int i = 1; i <= m; i++ ) for( int j = 1; j <= nx; j++ ) { a.push_back(i); q.push_back(j); } return SmartPtr<GenTMatrixSpace>(new GenTMatrixSpace(m, nx, (Index)a.size(), a.data(), q.data())); };
      SmartPtr<GenTMatrixSpace> jcs = jsp(nc), jds = jsp(ns);
      SmartPtr<DenseVectorSpace> xs = new DenseVectorSpace(nx), ss = new DenseVectorSpace(ns), cs = new DenseVectorSpace(nc), ds = new DenseVectorSpace(ns);
      SmartPtr<SymTMatrix> W; SmartPtr<GenTMatrix> Jc, Jd; std::map<std::string, SmartPtr<DenseVector> > D;
      auto setW = [&](int v, bool fresh) { if( fresh || IsNull(W) ) W = ws->MakeNewSymTMatrix(); std::vector<Number> x; for( int i = 1; i <= nx; i++ ) for( int j = 1; j <= i; j++ ) x.push_back(WV(v, i, j)); W->SetValues(x.data()); };
      auto setJ = [&](SmartPtr<GenTMatrix>& J, SmartPtr<GenTMatrixSpace>& sp, int m, int k, int v, bool fresh) { if( fresh || IsNull(J) ) J = sp->MakeNewGenTMatrix(); std::vector<Number> x; x.reserve(m * nx + 1); for( int i = 1; i <= m; i++ ) for( int j = 1; j <= nx; j++ ) x.push_back(JV(k, v, i, j)); J->SetValues(x.data()); };
      auto setD = [&](const std::string& k, SmartPtr<DenseVectorSpace>& sp, int kk, int v, bool fresh) { if( fresh || IsNull(D[k]) ) D[k] = sp->MakeNewDenseVector(); Number* p = D[k]->Values(); for( int i = 1; i <= sp->Dim(); i++ ) p[i - 1] = DV(kk, v, i); };
      setW(1, true); setJ(Jc, jcs, nc, 3, 1, true); setJ(Jd, jds, ns, 4, 1, true);
      std::string out = "[";
      const mj::V& ops = c["ops"];
      for( size_t k = 0; k < ops.size(); k++ )
      {
         const mj::V& a = ops[k]["a"]; std::string r;
         if( ops[k]["op"].s == "init" )
         {
            opt->SetStringValue("warm_start_same_structure", a["warm"].b() ? "yes" : "no", true, true);
            r = aug->Initialize(*jnl, *ipnlp, *data, *cq, *opt, "") ? "true" : "false";
            if( !a["warm"].b() ) TAG = 0;
         }
         else
         {
            const mj::V& u = a["u"]; std::string what = a["what"].s; bool fresh = a["fresh"].b();
            if( u.has(what) && u[what].i() > 0 )
            {
               int v = u[what].i();
               if( what == "w" ) setW(v, fresh);
               else if( what == "jc" ) setJ(Jc, jcs, nc, 3, v, fresh);
               else if( what == "jd" ) setJ(Jd, jds, ns, 4, v, fresh);
               else if( what == "dx" ) setD("dx", xs, 1, v, fresh);
               else if( what == "ds" ) setD("ds", ss, 2, v, fresh);
               else if( what == "dc" ) setD("dc", cs, 3, v, fresh);
               else if( what == "dd" ) setD("dd", ds, 4, v, fresh);
            }
            auto dp = [&](const char* q) { return u[q].i() > 0 ? (const Vector*) GetRawPtr(D[q]) : (const Vector*) NULL; };
            int nr = a["nr"].i(); bool chk = a["chk"].b();
            ANS = a["ans"].s; MAT = "[]"; RHS = "[]"; NEWTAG = false;
            std::vector<SmartPtr<const Vector> > R[4]; std::vector<SmartPtr<Vector> > S[4];
            DenseVectorSpace* sp[4] = {GetRawPtr(xs), GetRawPtr(ss), GetRawPtr(cs), GetRawPtr(ds)};
            for( int j = 1; j <= nr; j++ )
            {
               int off = 0;
               for( int q = 0; q < 4; q++ )
               {
                  SmartPtr<DenseVector> v = sp[q]->MakeNewDenseVector(); Number* p = v->Values();
                  for( int i = 0; i < sp[q]->Dim(); i++ ) p[i] = j * 10 + (++off);
                  R[q].push_back(GetRawPtr(v));
                  SmartPtr<DenseVector> s = sp[q]->MakeNewDenseVector(); s->Set(-77.); S[q].push_back(GetRawPtr(s));
               }
            }
            ESymSolverStatus st = aug->MultiSolve(u["w"].i() > 0 ? GetRawPtr(W) : NULL, u["wf"].d(), dp("dx"), u["x"].d(), dp("ds"), u["s"].d(), GetRawPtr(Jc), dp("dc"), u["c"].d(),
                                                  GetRawPtr(Jd), dp("dd"), u["d"].d(), R[0], R[1], R[2], R[3], S[0], S[1], S[2], S[3], chk, chk ? 3 : 0);
            std::string sol = "[";
            for( int j = 0; j < nr; j++ )
            {
               std::vector<double> x;
               for( int q = 0; q < 4; q++ ) { const DenseVector* d = static_cast<const DenseVector*>(GetRawPtr(S[q][j])); const Number* p = d->ExpandedValues(); for( int i = 0; i < sp[q]->Dim(); i++ ) x.push_back(p[i]); }
               sol += (j ? "," : "") + arr(x);
            }
            r = mj::Obj().raw("m", MAT).raw("new", NEWTAG ? "true" : "false").raw("rhs", RHS).raw("st", st == SYMSOLVER_SUCCESS ? "\"success\"" : "\"singular\"").raw("sol", sol + "]").raw("chk", CHK ? "true" : "false").done();
         }
         out += (k ? "," : "") + r;
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out + "]").done() << "\n" << std::flush;
   }
   return 0;
}
