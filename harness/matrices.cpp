// Replays Matrices.tla histories on the matrix classes of LinAlg.
#include "mini_json.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpTripletHelper.hpp"
using namespace Ipopt;
typedef SmartPtr<const VectorSpace> VS;
static int total(const mj::V& sp) { int n = 0; for( auto& e : sp.a ) n += e.i(); return n; }
static VS space(const mj::V& sp)
{
   if( sp.size() == 1 ) return new DenseVectorSpace(sp[0].i());
   CompoundVectorSpace* c = new CompoundVectorSpace((int) sp.size(), total(sp));
   for( size_t i = 0; i < sp.size(); ++i ) { VS s = new DenseVectorSpace(sp[i].i()); c->SetCompSpace((int) i, *s); }
   return c;
}
static void setdense(DenseVector& d, const double* x)
{
   bool hom = d.Dim() > 0;
   for( int i = 1; i < d.Dim(); ++i ) hom = hom && x[i] == x[0];
   if( hom ) d.Set(x[0]); else d.SetValues(x);
}
static SmartPtr<Vector> vec(const mj::V& sp, const std::vector<double>& x)
{
   SmartPtr<Vector> v = space(sp)->MakeNew();
   if( CompoundVector* c = dynamic_cast<CompoundVector*>(GetRawPtr(v)) )
   {
      int o = 0;
      for( int i = 0; i < c->NComps(); ++i )
      {
         SmartPtr<Vector> p = c->GetCompNonConst(i);
         setdense(dynamic_cast<DenseVector&>(*p), x.data() + o); o += p->Dim();
      }
   }
   else setdense(dynamic_cast<DenseVector&>(*v), x.data());
   return v;
}
static SmartPtr<DenseVector> dvec(int n, const double* x)
{
   SmartPtr<DenseVectorSpace> s = new DenseVectorSpace(n);
   SmartPtr<DenseVector> v = s->MakeNewDenseVector();
   setdense(*v, x);
   return v;
}
static void read(const Vector& v, std::vector<double>& out)
{
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) ) { for( int i = 0; i < c->NComps(); ++i ) read(*c->GetComp(i), out); return; }
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   const Number* p = d->ExpandedValues();
   out.insert(out.end(), p, p + d->Dim());
}
static std::vector<double> get(const Vector& v) { std::vector<double> r; read(v, r); return r; }

static int g_count, g_poison; static double g_bad;
static std::vector<double> take(const mj::V& v)
{
   std::vector<double> x = v.vec();
   for( auto& e : x ) if( ++g_count == g_poison ) e = g_bad;
   return x;
}
static SmartPtr<Matrix> build(const mj::V& t);
static SmartPtr<const SymMatrix> sym(const SmartPtr<Matrix>& m)
{
   SymMatrix* s = dynamic_cast<SymMatrix*>(GetRawPtr(m));
   if( !s ) throw std::runtime_error("not symmetric");
   return s;
}
static std::vector<Index> exp_pos(const mj::V& p) { std::vector<Index> r; for( auto& e : p.a ) r.push_back(e.i() + 1); return r; }
static SmartPtr<ExpansionMatrix> expansion(int large, const mj::V& pos)
{
   std::vector<Index> p = exp_pos(pos);
   SmartPtr<ExpansionMatrixSpace> s = new ExpansionMatrixSpace(large, (Index) p.size(), p.data(), 1);
   return s->MakeNewExpansionMatrix();
}
static SmartPtr<MultiVectorMatrix> multi(int rows, int cols, const double* x)
{
   SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(rows);
   SmartPtr<MultiVectorMatrixSpace> s = new MultiVectorMatrixSpace(cols, *vs);
   SmartPtr<MultiVectorMatrix> m = s->MakeNewMultiVectorMatrix();
   for( int j = 0; j < cols; ++j )
   {
      SmartPtr<DenseVector> v = dvec(rows, x + j * rows);
      if( j % 2 ) m->SetVector(j, *v); else m->SetVectorNonConst(j, *v);
   }
   return m;
}
static void setvals(Matrix& m, const mj::V& t, const std::vector<double>& x)
{
   const std::string& k = t["k"].s;
   int R = total(t["nr"]), C = total(t["nc"]);
   if( k == "gent" ) { GenTMatrix& g = dynamic_cast<GenTMatrix&>(m); if( x.size() % 2 ) g.SetValues(x.data()); else { Number* p = g.Values(); for( size_t i = 0; i < x.size(); ++i ) p[i] = x[i]; } }
   else if( k == "symt" ) { SymTMatrix& g = dynamic_cast<SymTMatrix&>(m); if( x.size() % 2 ) g.SetValues(x.data()); else { Number* p = g.Values(); for( size_t i = 0; i < x.size(); ++i ) p[i] = x[i]; } }
   else if( k == "densegen" ) { Number* p = dynamic_cast<DenseGenMatrix&>(m).Values(); for( int i = 0; i < R * C; ++i ) p[i] = x[i]; }
   else if( k == "densesym" ) { Number* p = dynamic_cast<DenseSymMatrix&>(m).Values(); for( int j = 0; j < C; ++j ) for( int i = j; i < R; ++i ) p[j * R + i] = x[j * R + i]; }
   else if( k == "diag" )
   {
      DiagMatrix& d = dynamic_cast<DiagMatrix&>(m);
      d.SetDiag(*vec(t["nr"], x));
   }
   else if( k == "multivec" )
   {
      MultiVectorMatrix& mv = dynamic_cast<MultiVectorMatrix&>(m);
      for( int j = 0; j < C; ++j ) mv.SetVector(j, *dvec(R, x.data() + j * R));
   }
   else if( k == "expmv" )
   {
      ExpandedMultiVectorMatrix& mv = dynamic_cast<ExpandedMultiVectorMatrix&>(m);
      int w = t["w"].i();
      for( int i = 0; i < R; ++i ) if( !t["null"][i].b() ) mv.SetVector(i, GetRawPtr(dvec(w, x.data() + i * w)));
   }
   else throw std::runtime_error("cannot set " + k);
}
static SmartPtr<Matrix> build(const mj::V& t)
{
   const std::string& k = t["k"].s;
   int R = total(t["nr"]), C = total(t["nc"]);
   if( k == "gent" || k == "symt" )
   {
      std::vector<int> ir = t["irow"].ivec(), jc = t["jcol"].ivec();
      SmartPtr<Matrix> m;
      if( k == "gent" ) { SmartPtr<GenTMatrixSpace> s = new GenTMatrixSpace(R, C, (Index) ir.size(), ir.data(), jc.data()); m = s->MakeNew(); }
      else { SmartPtr<SymTMatrixSpace> s = new SymTMatrixSpace(R, (Index) ir.size(), ir.data(), jc.data()); m = s->MakeNew(); }
      setvals(*m, t, take(t["val"]));
      return m;
   }
   if( k == "densegen" ) { SmartPtr<DenseGenMatrixSpace> s = new DenseGenMatrixSpace(R, C); SmartPtr<Matrix> m = s->MakeNew(); setvals(*m, t, take(t["val"])); return m; }
   if( k == "densesym" ) { SmartPtr<DenseSymMatrixSpace> s = new DenseSymMatrixSpace(R); SmartPtr<Matrix> m = s->MakeNew(); setvals(*m, t, take(t["val"])); return m; }
   if( k == "diag" ) { SmartPtr<DiagMatrixSpace> s = new DiagMatrixSpace(R); SmartPtr<Matrix> m = s->MakeNew(); setvals(*m, t, take(t["val"])); return m; }
   if( k == "ident" ) { SmartPtr<IdentityMatrixSpace> s = new IdentityMatrixSpace(R); SmartPtr<IdentityMatrix> m = s->MakeNewIdentityMatrix(); m->SetFactor(t["f"].d()); return GetRawPtr(m); }
   if( k == "zero" ) { SmartPtr<ZeroMatrixSpace> s = new ZeroMatrixSpace(R, C); return s->MakeNew(); }
   if( k == "symzero" ) { SmartPtr<ZeroSymMatrixSpace> s = new ZeroSymMatrixSpace(R); return s->MakeNew(); }
   if( k == "expansion" ) return GetRawPtr(expansion(R, t["pos"]));
   if( k == "multivec" ) { std::vector<double> x = take(t["val"]); return GetRawPtr(multi(R, C, x.data())); }
   if( k == "expmv" )
   {
      SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(t["w"].i());
      SmartPtr<const ExpansionMatrix> P;
      if( t["pos"].size() ) P = GetRawPtr(expansion(C, t["pos"]));
      SmartPtr<ExpandedMultiVectorMatrixSpace> s = new ExpandedMultiVectorMatrixSpace(R, *vs, P);
      SmartPtr<Matrix> m = s->MakeNew();
      setvals(*m, t, take(t["val"]));
      return m;
   }
   if( k == "sum" || k == "symsum" )
   {
      SmartPtr<Matrix> a = build(t["terms"][0]), b = build(t["terms"][1]);
      if( k == "sum" )
      {
         SmartPtr<SumMatrixSpace> s = new SumMatrixSpace(R, C, 2);
         s->SetTermSpace(0, *a->OwnerSpace()); s->SetTermSpace(1, *b->OwnerSpace());
         SmartPtr<SumMatrix> m = s->MakeNewSumMatrix();
         m->SetTerm(0, t["f"][0].d(), *a); m->SetTerm(1, t["f"][1].d(), *b);
         return GetRawPtr(m);
      }
      SmartPtr<SumSymMatrixSpace> s = new SumSymMatrixSpace(R, 2);
      s->SetTermSpace(0, *sym(a)->OwnerSymMatrixSpace()); s->SetTermSpace(1, *sym(b)->OwnerSymMatrixSpace());
      SmartPtr<SumSymMatrix> m = s->MakeNewSumSymMatrix();
      m->SetTerm(0, t["f"][0].d(), *sym(a)); m->SetTerm(1, t["f"][1].d(), *sym(b));
      return GetRawPtr(m);
   }
   if( k == "scaled" )
   {
      SmartPtr<Matrix> a = build(t["of"]);
      SmartPtr<const Vector> r, c;
      if( t["row"]["v"].size() ) r = GetRawPtr(vec(t["nr"], t["row"]["v"].vec()));
      if( t["col"]["v"].size() ) c = GetRawPtr(vec(t["nc"], t["col"]["v"].vec()));
      SmartPtr<ScaledMatrixSpace> s = new ScaledMatrixSpace(r, t["row"]["r"].b(), a->OwnerSpace(), c, t["col"]["r"].b());
      SmartPtr<ScaledMatrix> m = s->MakeNewScaledMatrix();
      if( R % 2 ) m->SetUnscaledMatrix(GetRawPtr(a)); else m->SetUnscaledMatrixNonConst(a);
      return GetRawPtr(m);
   }
   if( k == "symscaled" )
   {
      SmartPtr<Matrix> a = build(t["of"]);
      SmartPtr<SymScaledMatrixSpace> s = new SymScaledMatrixSpace(GetRawPtr(vec(t["nr"], t["row"]["v"].vec())), t["row"]["r"].b(), sym(a)->OwnerSymMatrixSpace());
      SmartPtr<SymScaledMatrix> m = s->MakeNewSymScaledMatrix();
      m->SetUnscaledMatrix(sym(a));
      return GetRawPtr(m);
   }
   if( k == "trans" )
   {
      // the transposed matrix object owns its original, so the original's values are copied over
      SmartPtr<Matrix> a = build(t["of"]);
      SmartPtr<const MatrixSpace> os = a->OwnerSpace();
      // a space that hands out the prepared matrix
      struct One: public MatrixSpace { SmartPtr<Matrix> m; One(SmartPtr<Matrix> m_) : MatrixSpace(m_->NRows(), m_->NCols()), m(m_) { } Matrix* MakeNew() const { return GetRawPtr(m); } };
      SmartPtr<One> one = new One(a);
      SmartPtr<TransposeMatrixSpace> s = new TransposeMatrixSpace(GetRawPtr(one));
      return s->MakeNew();
   }
   if( k == "comp" )
   {
      int nr = (int) t["nr"].size(), nc = (int) t["nc"].size();
      SmartPtr<CompoundMatrixSpace> s = new CompoundMatrixSpace(nr, nc, R, C);
      for( int i = 0; i < nr; ++i ) s->SetBlockRows(i, t["nr"][i].i());
      for( int j = 0; j < nc; ++j ) s->SetBlockCols(j, t["nc"][j].i());
      std::vector<SmartPtr<Matrix> > b(nr * nc);
      for( int i = 0; i < nr; ++i ) for( int j = 0; j < nc; ++j )
         if( t["cell"][i][j]["k"].s != "none" ) { b[i * nc + j] = build(t["cell"][i][j]); s->SetCompSpace(i, j, *b[i * nc + j]->OwnerSpace()); }
      SmartPtr<CompoundMatrix> m = s->MakeNewCompoundMatrix();
      for( int i = 0; i < nr; ++i ) for( int j = 0; j < nc; ++j )
         if( IsValid(b[i * nc + j]) ) { if( (i + j) % 2 ) m->SetComp(i, j, *b[i * nc + j]); else m->SetCompNonConst(i, j, *b[i * nc + j]); }
      return GetRawPtr(m);
   }
   if( k == "symcomp" )
   {
      int nr = (int) t["nr"].size();
      SmartPtr<CompoundSymMatrixSpace> s = new CompoundSymMatrixSpace(nr, R);
      for( int i = 0; i < nr; ++i ) s->SetBlockDim(i, t["nr"][i].i());
      std::vector<SmartPtr<Matrix> > b(nr * nr);
      for( int i = 0; i < nr; ++i ) for( int j = 0; j <= i; ++j )
         if( t["cell"][i][j]["k"].s != "none" ) { b[i * nr + j] = build(t["cell"][i][j]); s->SetCompSpace(i, j, *b[i * nr + j]->OwnerSpace()); }
      SmartPtr<CompoundSymMatrix> m = s->MakeNewCompoundSymMatrix();
      for( int i = 0; i < nr; ++i ) for( int j = 0; j <= i; ++j )
         if( IsValid(b[i * nr + j]) ) { if( (i + j) % 2 ) m->SetComp(i, j, *b[i * nr + j]); else m->SetCompNonConst(i, j, *b[i * nr + j]); }
      return GetRawPtr(m);
   }
   if( k == "lowrank" )
   {
      int w = t["w"].i();
      SmartPtr<const Matrix> P;
      if( t["pos"].size() ) P = GetRawPtr(expansion(R, t["pos"]));
      SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(w);
      SmartPtr<LowRankUpdateSymMatrixSpace> s = new LowRankUpdateSymMatrixSpace(R, P, GetRawPtr(vs), t["red"].b());
      SmartPtr<LowRankUpdateSymMatrix> m = s->MakeNewLowRankUpdateSymMatrix();
      std::vector<double> D = take(t["D"]);
      m->SetDiag(*dvec((int) D.size(), D.data()));
      for( const char* q : { "V", "U" } )
      {
         std::vector<double> x;
         for( auto& e : t[q].a ) { auto y = take(e); x.insert(x.end(), y.begin(), y.end()); }
         if( t[q].size() == 0 ) continue;
         SmartPtr<MultiVectorMatrix> mv = multi(w, (int) t[q].size(), x.data());
         if( *q == 'V' ) m->SetV(*mv); else m->SetU(*mv);
      }
      return GetRawPtr(m);
   }
   throw std::runtime_error("unknown type " + k);
}
static SmartPtr<Matrix> make(const mj::V& t, int poison = 0, double bad = 0) { g_count = 0; g_poison = poison; g_bad = bad; return build(t); }

int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      std::string out = "[", err;
      try
      {
         const mj::V& ops = c["ops"];
         const mj::V& t = ops[0]["a"][0];
         const mj::V& nr = t["nr"]; const mj::V& nc = t["nc"];
         const std::string& kind = t["k"].s;
         SmartPtr<Matrix> m;
         for( size_t k = 0; k < ops.size(); ++k )
         {
            const std::string& n = ops[k]["op"].s;
            const mj::V& a = ops[k]["a"];
            std::string r = "0";
            if( n == "build" ) m = make(t);
            else if( n == "mult" || n == "tmult" )
            {
               const mj::V& xs = n == "mult" ? nc : nr; const mj::V& ys = n == "mult" ? nr : nc;
               SmartPtr<Vector> x = vec(xs, a[1].vec()), y = vec(ys, a[3].vec());
               std::vector<double> x0 = get(*x);
               if( a[2].d() == 0 ) { if( k % 2 ) y = space(ys)->MakeNew(); else y->Set(NAN); }
               SmartPtr<const Vector> cx = GetRawPtr(x);
               if( n == "mult" ) m->MultVector(a[0].d(), *cx, a[2].d(), *y); else m->TransMultVector(a[0].d(), *cx, a[2].d(), *y);
               r = get(*x) == x0 ? mj::num(get(*y)) : "\"operand changed\"";
            }
            else if( n == "rowamax" || n == "colamax" )
            {
               SmartPtr<Vector> y = vec(n == "rowamax" ? nr : nc, a[1].vec());
               if( n == "rowamax" ) m->ComputeRowAMax(*y, a[0].b()); else m->ComputeColAMax(*y, a[0].b());
               r = mj::num(get(*y));
            }
            else if( n == "addmsinvz" )
            {
               SmartPtr<Vector> S = vec(nc, a[1].vec()), Z = vec(nc, a[2].vec()), X = vec(nr, a[3].vec());
               m->AddMSinvZ(a[0].d(), *S, *Z, *X);
               r = mj::num(get(*X));
            }
            else if( n == "sinv" )
            {
               SmartPtr<Vector> S = vec(nc, a[1].vec()), R = vec(nc, a[2].vec()), Z = vec(nc, a[3].vec()), D = vec(nr, a[4].vec());
               SmartPtr<Vector> X = space(nc)->MakeNew();
               if( k % 2 ) X->Set(NAN);
               m->SinvBlrmZMTdBr(a[0].d(), *S, *R, *Z, *D, *X);
               X->ElementWiseMultiply(*S);
               r = mj::num(get(*X));
            }
            else if( n == "trip" )
            {
               int R = m->NRows(), C = m->NCols(), ro = a[0].i(), co = a[1].i();
               Index ne = TripletHelper::GetNumberEntries(*m);
               std::vector<Index> ir(ne, -77), jc(ne, -77);
               std::vector<double> v(ne, NAN), D(R * C, 0.);
               TripletHelper::FillRowCol(ne, *m, ir.data(), jc.data(), ro, co);
               TripletHelper::FillValues(ne, *m, v.data());
               r = "";
               for( int q = 0; q < ne; ++q )
               {
                  int i = ir[q] - 1 - ro, j = jc[q] - 1 - co;
                  if( i < 0 || j < 0 || i >= R || j >= C ) { r = "\"entry outside\""; break; }
                  if( a[2].b() && i < j ) std::swap(i, j);
                  D[i * C + j] += v[q];
               }
               if( r.empty() )
               {
                  r = "[";
                  for( int i = 0; i < R; ++i ) r += (i ? "," : "") + mj::num(D.data() + i * C, C);
                  r += "]";
               }
            }
            else if( n == "valid" ) r = m->HasValidNumbers() ? "1" : "0";
            else if( n == "reset" )
            {
               if( kind == "ident" ) dynamic_cast<IdentityMatrix&>(*m).SetFactor(a[0].d());
               else { m->HasValidNumbers(); setvals(*m, t, a[0].vec()); }
            }
            else if( n == "poison" )
            {
               if( t.has("val") && t["val"].size() )
               {
                  if( !m->HasValidNumbers() ) r = "\"invalid before\"";
                  std::vector<double> x = t["val"].vec();
                  x[a[0].i() - 1] = a[1].d();
                  setvals(*m, t, x);
               }
               else m = make(t, a[0].i(), a[1].d());
               if( r == "0" ) r = m->HasValidNumbers() ? "1" : "0";
            }
            else throw std::runtime_error("op " + n);
            out += (k ? "," : "") + r;
         }
      }
      catch( IpoptException& e ) { err = e.Message(); }
      catch( std::exception& e ) { err = e.what(); }
      std::cout << "{\"id\":" << c["id"].i() << ",\"r\":" << out << "],\"err\":\"" << err << "\"}" << std::endl;
   }
}
