// Replays Smart.tla histories on SmartPtr / ReferencedObject.
#include "mini_json.hpp"
#include "IpSmartPtr.hpp"
#include <memory>
#include <cstring>
using namespace Ipopt;
static std::vector<int> g_dead;
struct Pad { virtual ~Pad() { } int pad[3]; };
struct Base : public Pad, public ReferencedObject { int id; Base(int i) : id(i) { } virtual ~Base(); SmartPtr<Base> next; };
struct Node : public Base { int x; Node(int i) : Base(i), x(0) { } ~Node() { x = -1; } };
static Base* g_obj[8];
Base::~Base() { g_dead.push_back(id); if( g_obj[id] == this ) g_obj[id] = NULL; else g_dead.push_back(-1); }
typedef SmartPtr<Base> SB;
typedef SmartPtr<Node> SN;
typedef SmartPtr<const Base> SC;
static int idof(const Base* b) { if( !b ) return 0; for( int i = 1; i < 8; ++i ) if( g_obj[i] == b ) return i; return -9; }
// pointer 1, 4: SmartPtr<Base>, 2: SmartPtr<Node>, 3: SmartPtr<const Base>
struct Var
{
   int kind = 0;
   std::unique_ptr<SB> b; std::unique_ptr<SN> n; std::unique_ptr<SC> c;
   Base* raw() { return b ? GetRawPtr(*b) : n ? (Base*) GetRawPtr(*n) : const_cast<Base*>(GetRawPtr(*c)); }
   void reset() { b.reset(); n.reset(); c.reset(); }
};
static SB byvalue(SB p) { SB q(p); SB r; r = q; return r; }
static int inspect(const SC& c) { SC d = c; return IsValid(d) ? (d == c ? d->id : -1) : 0; }
static std::string state()
{
   std::vector<int> cnt;
   for( int i = 1; i <= 3; ++i ) cnt.push_back(g_obj[i] ? (int) g_obj[i]->ReferenceCount() : -1);
   return mj::Obj().raw("dead", mj::ints(g_dead)).raw("cnt", mj::ints(cnt)).done();
}
int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      memset(g_obj, 0, sizeof(g_obj));
      Var v[5];
      std::string out = "[";
      const mj::V& ops = c["ops"];
      for( size_t k = 0; k < ops.size(); ++k )
      {
         std::string n = ops[k]["op"].s;
         const mj::V& a = ops[k]["a"];
         int p = a[0].i();
         Var& P = v[p];
         int kind = p == 2 ? 2 : p == 3 ? 3 : 1;
         std::string m = a.size() > 1 && a[a.size() - 1].t == mj::V::STR ? a[a.size() - 1].s : "";
         g_dead.clear();
         std::string r;
         auto set = [&](Var& T, int tk, Base* raw, Var* src, SB* field, bool construct)
         {
            // field / src: the counted pointer the value comes from (if any)
            if( construct )
            {
               if( tk == 1 ) { if( m == "raw" ) T.b.reset(new SB(raw)); else if( src && src->b ) T.b.reset(new SB(*src->b)); else if( src && src->n ) T.b.reset(new SB(*src->n)); else T.b.reset(new SB(raw)); }
               else if( tk == 2 ) { if( m != "raw" && src && src->n ) T.n.reset(new SN(*src->n)); else T.n.reset(new SN(static_cast<Node*>(raw))); }
               else { if( m == "raw" ) T.c.reset(new SC(raw)); else if( src && src->b ) T.c.reset(new SC(ConstPtr(*src->b))); else if( src && src->n ) T.c.reset(new SC(*src->n)); else if( src && src->c ) T.c.reset(new SC(*src->c)); else T.c.reset(new SC(raw)); }
               return;
            }
            if( tk == 1 )
            {
               if( m == "raw" ) *T.b = raw;
               else if( field ) *T.b = *field;
               else if( src && src->b ) *T.b = *src->b;
               else if( src && src->n ) *T.b = *src->n;
               else *T.b = SB(raw);
            }
            else if( tk == 2 ) { if( m == "raw" || !src || !src->n ) *T.n = static_cast<Node*>(raw); else *T.n = *src->n; }
            else
            {
               if( m == "raw" ) *T.c = raw;
               else if( field ) *T.c = *field;
               else if( src && src->b ) *T.c = ConstPtr(*src->b);
               else if( src && src->n ) *T.c = *src->n;
               else if( src && src->c ) *T.c = *src->c;
               else *T.c = SC(raw);
            }
         };
         if( n == "enter" ) { if( kind == 1 ) P.b.reset(new SB); else if( kind == 2 ) P.n.reset(new SN); else P.c.reset(new SC(NULL)); }
         else if( n == "enternew" ) { int o = a[1].i(); g_obj[o] = new Node(o); set(P, kind, g_obj[o], NULL, NULL, true); }
         else if( n == "entercopy" ) { Var& Q = v[a[1].i()]; set(P, kind, Q.raw(), &Q, NULL, true); }
         else if( n == "leave" ) P.reset();
         else if( n == "new" ) { int o = a[1].i(); Base* x = new Node(o); g_obj[o] = x; set(P, kind, x, NULL, NULL, false); }
         else if( n == "null" ) set(P, kind, NULL, NULL, NULL, false);
         else if( n == "assign" ) { Var& Q = v[a[1].i()]; set(P, kind, Q.raw(), &Q, NULL, false); }
         else if( n == "follow" ) { Var& Q = v[a[1].i()]; Base* q = Q.raw(); set(P, kind, GetRawPtr(q->next), NULL, &q->next, false); }
         else if( n == "link" )
         {
            Var& Q = v[a[1].i()];
            SB& f = P.raw()->next;
            if( m == "raw" ) f = Q.raw();
            else if( Q.b ) f = *Q.b;
            else if( Q.n ) f = *Q.n;
            else f = SB(Q.raw());
         }
         else if( n == "skip" )
         {
            SB& f = P.raw()->next;
            if( m == "raw" ) f = GetRawPtr(f->next); else f = f->next;
         }
         else if( n == "pass" )
         {
            int i1 = 0, i2 = 0;
            if( P.raw() ) { i1 = idof(GetRawPtr(byvalue(P.raw()))); i2 = inspect(P.b ? SC(*P.b) : P.n ? SC(*P.n) : *P.c); if( i1 != i2 ) g_dead.push_back(-5); }
         }
         else if( n == "eq" )
         {
            Var& Q = v[a[1].i()];
            bool e[6]; int ne = 0;
            #define CMP(A, B) { e[ne++] = *A == *B; e[ne++] = !(*A != *B); e[ne++] = *A == GetRawPtr(*B); e[ne++] = GetRawPtr(*A) == *B; e[ne++] = !(*A != GetRawPtr(*B)); e[ne++] = !(GetRawPtr(*A) != *B); }
            if( P.b && Q.b ) CMP(P.b, Q.b) else if( P.b && Q.n ) CMP(P.b, Q.n) else if( P.b ) CMP(P.b, Q.c)
            else if( P.n && Q.b ) CMP(P.n, Q.b) else if( P.n && Q.n ) CMP(P.n, Q.n) else if( P.n ) CMP(P.n, Q.c)
            else if( P.c && Q.b ) CMP(P.c, Q.b) else if( P.c && Q.n ) CMP(P.c, Q.n) else CMP(P.c, Q.c)
            bool same = true;
            for( int i = 1; i < ne; ++i ) same = same && e[i] == e[0];
            bool valid = P.b ? IsValid(*P.b) && !IsNull(*P.b) : P.n ? IsValid(*P.n) && !IsNull(*P.n) : IsValid(*P.c) && !IsNull(*P.c);
            r = std::string("[") + (same ? (e[0] ? "true" : "false") : "\"inconsistent\"") + "," + (valid ? "true" : "false") + "]";
         }
         if( r.empty() ) r = state();
         out += (k ? "," : "") + r;
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out + "]").done() << "\n" << std::flush;
      for( auto& x : v ) x.reset();
   }
}
