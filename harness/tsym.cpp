// Replays TSym.tla: the real TSymLinearSolver / TripletToCSRConverter with a scripted backend and scaling method.
#include "mini_json.hpp"
#include "userprob.hpp"
#include "IpTSymLinearSolver.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseVector.hpp"
#include "IpAlgBuilder.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpIpoptApplication.hpp"
using namespace Ipopt;

static std::string num(double v){ if( v == (double)(long long)v && v > -1e15 && v < 1e15 ){ char b[40]; snprintf(b,40,"%lld",(long long)v); return b; } char b[60]; snprintf(b,60,"\"%a\"",v); return b; }
template<class T> static std::string arr(const T* p, int n){ std::string s="["; for(int i=0;i<n;i++){ if(i) s+=","; s+=num((double)p[i]); } return s+"]"; }
static std::vector<std::string> CALLS, SCALES, SCRIPT; static size_t spos; static std::string SINIT; static int NSOLVE, NSCALE, NINCQ; static bool QANS;
static ESymSolverStatus st(const std::string& s)
{
   if( s == "success" ) return SYMSOLVER_SUCCESS;
   if( s == "singular" ) return SYMSOLVER_SINGULAR;
   if( s == "wrong" ) return SYMSOLVER_WRONG_INERTIA;
   if( s == "again" ) return SYMSOLVER_CALL_AGAIN;
   return SYMSOLVER_FATAL_ERROR;
}
static std::string sname(ESymSolverStatus s)
{
   switch( s ){ case SYMSOLVER_SUCCESS: return "success"; case SYMSOLVER_SINGULAR: return "singular"; case SYMSOLVER_WRONG_INERTIA: return "wrong"; case SYMSOLVER_CALL_AGAIN: return "again"; default: return "fatal"; }
}
class Backend: public SparseSymLinearSolverInterface
{
public:
   int fmt; int n = 0, nz = 0; const Index* ia0 = NULL; const Index* ja0 = NULL; Number* v = NULL; bool fresh = false;
   Backend(int f): fmt(f) {}
   ~Backend() { delete[] v; }
   bool InitializeImpl(const OptionsList&, const std::string&) { ia0 = ja0 = NULL; return true; }
   ESymSolverStatus InitializeStructure(Index dim, Index nonzeros, const Index* ia, const Index* ja)
   {
      n = dim; nz = nonzeros; ia0 = ia; ja0 = ja;
      std::string s = "{\"c\":\"struct\",\"d\":{\"n\":" + num(dim) + ",\"nz\":" + num(nonzeros) + ",\"ia\":" + arr(ia, fmt == 0 ? nonzeros : dim + 1) + ",\"ja\":" + arr(ja, nonzeros) + "}}";
      CALLS.push_back(s);
      return st(SINIT);
   }
   Number* GetValuesArrayPtr() { delete[] v; v = new Number[nz + 1]; for( int i = 0; i <= nz; i++ ) v[i] = 1e300; fresh = true; return v; }
   ESymSolverStatus MultiSolve(bool nm, const Index* ia, const Index* ja, Index nrhs, Number* rhs, bool chk, Index numneg)
   {
      NSOLVE++;
      bool haveold = !nm && !fresh;
      bool same = ia0 != NULL && ia == ia0 && ja == ja0;
      CALLS.push_back(std::string("{\"c\":\"solve\",\"new\":") + (nm ? "true" : "false") + ",\"vals\":" + (haveold ? std::string("[]") : arr(v, nz)) + ",\"nr\":" + num(nrhs) + ",\"rhs\":" + arr(rhs, n * nrhs)
         + ",\"chk\":" + (chk ? "true" : "false") + ",\"num\":" + num(numneg) + (same ? "" : ",\"badptr\":1") + "}");
      if( v ) { delete[] v; v = NULL; v = new Number[nz + 1]; for( int i = 0; i <= nz; i++ ) v[i] = 2e300; }
      fresh = false;
      std::string a = spos < SCRIPT.size() ? SCRIPT[spos++] : "fatal";
      if( a == "success" )
         for( int r = 0; r < nrhs; r++ ) for( int i = 0; i < n; i++ ) rhs[r * n + i] = 2 * rhs[r * n + i] + (i + 1);
      else if( a != "again" )
         for( int i = 0; i < n * nrhs; i++ ) rhs[i] = 4e200;
      return st(a);
   }
   Index NumberOfNegEVals() const { return NSOLVE; }
   bool IncreaseQuality() { NINCQ++; return QANS; }
   bool ProvidesInertia() const { return true; }
   EMatrixFormat MatrixFormat() const { static const EMatrixFormat f[5] = {Triplet_Format, CSR_Format_0_Offset, CSR_Format_1_Offset, CSR_Full_Format_0_Offset, CSR_Full_Format_1_Offset}; return f[fmt]; }
};
class Scaler: public TSymScalingMethod
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool ComputeSymTScalingFactors(Index n, Index nnz, const Index*, const Index*, const Number* a, Number* s)
   {
      NSCALE++;
      SCALES.push_back(arr(a, nnz));
      static const double p[3] = {1, 2, 4};
      for( int i = 0; i < n; i++ ) s[i] = p[(i + 1 + NSCALE) % 3];
      return true;
   }
};
static double val(int o, int v, int k) { return ((o * 5 + v * 3 + k * 7) % 11) - 5; }

int main()
{
   IpoptApplication app(false, false);
   SmartPtr<Journalist> jnl = new Journalist();
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      SmartPtr<OptionsList> opt = new OptionsList(*app.Options());
      SmartPtr<NLP> nlp = new TNLPAdapter(new UserTNLP(), ConstPtr(jnl));
      SmartPtr<AlgorithmBuilder> b = new AlgorithmBuilder();
      SmartPtr<IpoptNLP> ipnlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq;
      b->BuildIpoptObjects(*jnl, *opt, "", nlp, ipnlp, data, cq);
      SmartPtr<Backend> be; SmartPtr<TSymLinearSolver> ts; SmartPtr<TSymScalingMethod> sm;
      SmartPtr<SymTMatrix> M[4]; int ver[4] = {0, 0, 0, 0}; int n = 0, nz = 0;
      NSOLVE = NSCALE = NINCQ = 0;
      std::string out = "{\"id\":" + num(c["id"].d()) + ",\"r\":[";
      bool first = true;
      const auto& ops = c["ops"];
      for( size_t k = 0; k < ops.size(); k++ )
      {
         const mj::V& o = ops[k]; const mj::V& a = o["a"];
         CALLS.clear(); SCALES.clear();
         std::string r;
         std::string op = o["op"].str();
         if( op == "init" )
         {
            bool warm = a["warm"].b();
            bool ok;
            if( !warm )
            {
               if( IsNull(ts) )
               {
                  be = new Backend((int)a["fmt"].d());
                  if( a["scal"].str() != "none" ) sm = new Scaler();
                  ts = new TSymLinearSolver(SmartPtr<SparseSymLinearSolverInterface>(GetRawPtr(be)), sm);
               }
               const mj::V& e = a["pat"]["e"];
               n = (int)a["pat"]["n"].d(); nz = (int)e.size();
               std::vector<Index> ir(nz), jc(nz);
               for( int i = 0; i < nz; i++ ) { ir[i] = (int)e[i][0].d(); jc[i] = (int)e[i][1].d(); }
               SmartPtr<SymTMatrixSpace> sp = new SymTMatrixSpace(n, nz, &ir[0], &jc[0]);
               for( int q = 1; q < 4; q++ )
               {
                  M[q] = sp->MakeNewSymTMatrix(); ver[q] = 0;
                  std::vector<Number> vals(nz); for( int i = 0; i < nz; i++ ) vals[i] = val(q, 0, i + 1);
                  M[q]->SetValues(&vals[0]);
               }
            }
            opt->SetStringValue("warm_start_same_structure", warm ? "yes" : "no", true, true);
            opt->SetStringValue("linear_scaling_on_demand", a["scal"].str() == "demand" ? "yes" : "no", true, true);
            // every other history uses the wrapper without the objects of an optimization run
            if( (long)c["id"].d() % 2 ) ok = ts->ReducedInitialize(*jnl, *opt, "");
            else ok = ts->Initialize(*jnl, *ipnlp, *data, *cq, *opt, "");
            r = ok ? "true" : "false";
         }
         else if( op == "solve" )
         {
            int q = (int)a["o"].d(), nr = (int)a["nr"].d();
            if( a["chg"].b() )
            {
               ver[q]++;
               std::vector<Number> vals(nz); for( int i = 0; i < nz; i++ ) vals[i] = val(q, ver[q], i + 1);
               M[q]->SetValues(&vals[0]);
            }
            SCRIPT.clear(); for( size_t i = 0; i < a["script"].size(); i++ ) SCRIPT.push_back(a["script"][i].str());
            spos = 0; SINIT = a["sinit"].str();
            SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(n);
            std::vector<SmartPtr<const Vector> > R; std::vector<SmartPtr<Vector> > S;
            for( int j = 1; j <= nr; j++ )
            {
               SmartPtr<DenseVector> v = vs->MakeNewDenseVector(); Number* p = v->Values();
               for( int i = 1; i <= n; i++ ) p[i - 1] = j * 10 + i - 4;
               R.push_back(GetRawPtr(v));
               SmartPtr<DenseVector> s = vs->MakeNewDenseVector(); s->Set(-77.);
               S.push_back(GetRawPtr(s));
            }
            std::string stt;
            try { stt = sname(ts->MultiSolve(*M[q], R, S, a["chk"].b(), (Index)a["num"].d())); }
            catch( IpoptException& e ) { stt = "exc"; }
            r = "{\"calls\":[";
            for( size_t i = 0; i < CALLS.size(); i++ ) r += (i ? "," : "") + CALLS[i];
            r += "],\"st\":\"" + stt + "\",\"sol\":[";
            for( int j = 0; j < nr; j++ )
            {
               const DenseVector* d = dynamic_cast<const DenseVector*>(GetRawPtr(S[j]));
               r += (j ? "," : "") + arr(d->ExpandedValues(), n);
            }
            r += "],\"sc\":[";
            for( size_t i = 0; i < SCALES.size(); i++ ) r += (i ? "," : "") + SCALES[i];
            r += "]}";
         }
         else if( op == "incq" )
         {
            QANS = a["ans"].b(); NINCQ = 0;
            bool ret = ts->IncreaseQuality();
            r = std::string("{\"ret\":") + (ret ? "true" : "false") + ",\"calls\":" + num(NINCQ) + "}";
         }
         else
            r = num(ts->NumberOfNegEVals());
         out += (first ? "" : ",") + r; first = false;
      }
      out += "]}";
      puts(out.c_str()); fflush(stdout);
   }
   return 0;
}
