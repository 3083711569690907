// Replays Vectors.tla histories on DenseVector and CompoundVector.
#include "mini_json.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include <cstring>
#include <new>
using namespace Ipopt;

// memory handed out is filled with a pattern, so that nothing is initialised by luck
static unsigned g_pat = 0;
static void* fill(size_t n)
{
   void* p = malloc(n ? n : 1);
   if( g_pat ) for( size_t i = 0; i + 4 <= n; i += 4 ) memcpy((char*) p + i, &g_pat, 4);
   return p;
}
void* operator new(size_t n) { return fill(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

typedef SmartPtr<VectorSpace> SP;
static std::vector<int> parts_of(const mj::V& v) { return v.ivec(); }
static SP space_of(const mj::V& v)   // number: dense, list: compound
{
   if( v.t == mj::V::NUM ) return new DenseVectorSpace(v.i());
   int n = 0;
   std::vector<SP> c;
   for( auto& e : v.a ) { c.push_back(space_of(e)); n += c.back()->Dim(); }
   CompoundVectorSpace* s = new CompoundVectorSpace((int) c.size(), n);
   for( size_t i = 0; i < c.size(); ++i ) s->SetCompSpace((int) i, *c[i]);
   return s;
}
static void read(const Vector& v, std::vector<double>& out)
{
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) ) { for( int i = 0; i < c->NComps(); ++i ) read(*c->GetComp(i), out); return; }
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   if( d->Dim() == 0 ) return;
   const Number* p = d->ExpandedValues();
   out.insert(out.end(), p, p + d->Dim());
}
static const double* write(Vector& v, const double* x)
{
   if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) ) { for( int i = 0; i < c->NComps(); ++i ) x = write(*c->GetCompNonConst(i), x); return x; }
   DenseVector* d = dynamic_cast<DenseVector*>(&v);
   if( d->Dim() % 2 ) d->SetValues(x);
   else { Number* p = d->Values(); for( int i = 0; i < d->Dim(); ++i ) p[i] = x[i]; }
   return x + d->Dim();
}
static void start(Vector& v, const mj::V& s)
{
   if( s[0].s == "s" ) { v.Set(s[1].d()); return; }
   std::vector<double> q = s[1].vec(); q.resize(16);
   write(v, q.data());
}

int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      std::string out = "[";
      {
         SP sp = space_of(c["shape"]);
         SmartPtr<Vector> x[4];
         bool init[4] = { false, false, false, false };
         for( int i = 1; i < 4; ++i ) x[i] = sp->MakeNew();
         const mj::V& ops = c["ops"];
         for( size_t k = 0; k < ops.size(); ++k )
         {
            const std::string& n = ops[k]["op"].s;
            const std::vector<mj::V>& a = ops[k]["a"].a;
            int v = a[0].i();
            auto D = [&](int i) { return a[i].d(); };
            auto X = [&](int i) -> Vector& { return *x[a[i].i()]; };
            Vector& y = *x[v];
            CompoundVector* cy = dynamic_cast<CompoundVector*>(&y);
            DenseVector* dy = dynamic_cast<DenseVector*>(&y);
            std::string r;
            bool mut = true, q = true;
            auto ask = [&](const std::string& w, const Vector& z)
            { return mj::num(w == "nrm2" ? y.Nrm2() : w == "asum" ? y.Asum() : w == "amax" ? y.Amax() : w == "max" ? y.Max() : w == "min" ? y.Min()
                             : w == "sum" ? y.Sum() : w == "sumlogs" ? y.SumLogs() : w == "dot" ? y.Dot(z) : y.FracToBound(z, 0.75)); };
            auto fin = [&](int i) { std::vector<double> e; if( !init[i] ) return false; read(*x[i], e); for( double t : e ) if( !std::isfinite(t) ) return false; return true; };
            if( n == "set" ) y.Set(D(1));
            else if( n == "vals" ) { auto q2 = a[1].vec(); q2.resize(16); write(y, q2.data()); }
            else if( n == "copy" ) y.Copy(X(1));
            else if( n == "scal" ) y.Scal(D(1));
            else if( n == "axpy" ) y.Axpy(D(1), X(2));
            else if( n == "adds" ) y.AddScalar(D(1));
            else if( n == "recip" ) y.ElementWiseReciprocal();
            else if( n == "abs" ) y.ElementWiseAbs();
            else if( n == "sqrt" ) y.ElementWiseSqrt();
            else if( n == "sgn" ) y.ElementWiseSgn();
            else if( n == "ediv" ) y.ElementWiseDivide(X(1));
            else if( n == "emul" ) y.ElementWiseMultiply(X(1));
            else if( n == "esel" ) y.ElementWiseSelect(X(1));
            else if( n == "emax" ) y.ElementWiseMax(X(1));
            else if( n == "emin" ) y.ElementWiseMin(X(1));
            else if( n == "add2" ) y.AddTwoVectors(D(1), X(2), D(3), X(4), D(5));
            else if( n == "add1" ) y.AddOneVector(D(1), X(2), D(3));
            else if( n == "quot" ) y.AddVectorQuotient(D(1), X(2), X(3), D(4));
            else if( n == "new" || n == "newcopy" )
            {
               TaggedObject::Tag t = y.GetTag();
               SmartPtr<Vector> probe = y.MakeNew();
               probe->Set(1.);
               for( int i = 0; i < 4; ++i ) if( probe->GetTag() > t ) t = probe->GetTag();
               // a tag the new vector is going to have soon
               g_pat = (unsigned) (t + 1 + (k + ops.size()) % 4);
               x[v] = n == "new" ? y.MakeNew() : X(1).MakeNewCopy();
               g_pat = 0;
               init[v] = n == "newcopy";
            }
            else if( n == "partset" ) start(*cy->GetCompNonConst(a[1].i()), a[2]);
            else if( n == "partscal" ) cy->GetCompNonConst(a[1].i())->Scal(D(2));
            else if( n == "partput" )
            {
               SmartPtr<Vector> p = cy->GetComp(a[1].i())->MakeNew();
               start(*p, a[2]);
               cy->SetCompNonConst(a[1].i(), *p);
            }
            else if( n == "topos" )
            {
               SP s2 = new DenseVectorSpace(a[2].i());
               SmartPtr<Vector> p = s2->MakeNew();
               start(*p, a[3]);
               dy->CopyToPos(a[1].i(), *p);
            }
            else
            {
               mut = false;
               if( n == "ask" )
               {
                  if( !fin(v) ) r = y.HasValidNumbers() ? "\"1\"" : "\"0\"";
                  else
                  {
                     for( const char* w : { "nrm2", "asum", "amax", "max", "min", "sum" } ) r += ask(w, y) + ",";
                     double mn = y.Min();
                     r += (mn > 0 ? ask("sumlogs", y) : "\"any\"");
                     for( int w = 1; w < 4; ++w ) { if( fin(w) ) r += "," + ask("dot", *x[w]) + "," + (mn > 0 ? ask("frac", *x[w]) : "\"any\""); else r += ",\"any\",\"any\""; }
                     r += y.HasValidNumbers() ? ",\"1\"" : ",\"0\"";
                  }
               }
               else if( n == "valid" ) r = y.HasValidNumbers() ? "\"1\"" : "\"0\"";
               else if( n == "partget" ) { std::vector<double> e; read(*cy->GetComp(a[1].i()), e); r = mj::num(e); }
               else if( n == "frompos" )
               {
                  SP s2 = new DenseVectorSpace(dy->Dim() - a[1].i());
                  SmartPtr<Vector> p = s2->MakeNew();
                  dynamic_cast<DenseVector*>(GetRawPtr(p))->CopyFromPos(a[1].i(), y);
                  std::vector<double> e; read(*p, e); r = mj::num(e);
               }
               else r = ask(n, *x[a[1].i()]);
            }
            if( mut && n != "new" ) init[v] = true;
            out += (k ? ",[" : "[") + r;
            for( int i = 1; i < 4; ++i )
            {
               std::vector<double> e;
               if( init[i] ) read(*x[i], e);
               out += (i > 1 || !r.empty() ? "," : "") + mj::num(e);
            }
            out += "]";
            (void) q;
         }
      }
      std::cout << "{\"id\":" << c["id"].i() << ",\"r\":" << out << "]}" << std::endl;
   }
}
